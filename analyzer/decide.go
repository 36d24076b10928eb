package main

// Deciding one property: run its obligations, report, write the evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// finding is a known violation, listed in known-findings.txt.
type finding struct{ prop, obl, clause, fn, what string }

func readFindings(file string) []finding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []finding
	for sc := bufio.NewScanner(f); sc.Scan(); {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C00 | obligation | clause | function | what fails
		p := strings.SplitN(strings.TrimPrefix(l, "known:"), "|", 5)
		if len(p) != 5 {
			continue
		}
		for i := range p {
			p[i] = strings.TrimSpace(p[i])
		}
		r = append(r, finding{strings.TrimPrefix(p[0], "property="), p[1], p[2], p[3], p[4]})
	}
	return r
}

type oblReport struct {
	ID        string   `json:"id"`
	Rule      string   `json:"shown"`
	Clauses   []string `json:"clauses"`
	Traces    int      `json:"abstract_traces"`
	Excluded  int      `json:"contradictory_traces"`
	Checks    int      `json:"checks"`
	Functions int      `json:"functions"`
	Contracts []string `json:"contracts_used,omitempty"`
	Status    string   `json:"status"`
	Seconds   float64  `json:"seconds"`
	Sample    string   `json:"sample_trace,omitempty"`
}

var trustedBase = []string{
	"the Go type checker and the SSA construction of golang.org/x/tools",
	"the abstract interpreter and its domains in /verif/analyzer (difference bounds over depths, prefix relations, words as runs of known bits, linear counts)",
	"models of the standard library functions called (fmt, math/bits, sync/atomic, encoding/binary, net) in extern.go",
	"the statement of each obligation in /verif/analyzer",
}

func decide(p *Prog, loadErr error, prop, verif string, workers int, deadline time.Time) int {
	start := time.Now()
	var spec *propSpec
	for _, s := range propSpecs {
		if s.id == prop {
			spec = s
		}
	}
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := readFindings(filepath.Join(verif, "known-findings.txt"))

	var reports []oblReport
	var viol []string
	undec := []string{}
	hits := map[int]bool{}
	funcs, calls, contrs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	nchecks, ntraces, discharged, relied := 0, 0, 0, 0
	if loadErr != nil {
		undec = append(undec, "the program can't be analysed: "+loadErr.Error())
		fmt.Println("UNDECIDED", undec[0])
	} else {
		undec = append(undec, p.problems...)
		budget := 3000000
		if tier == "thorough" {
			budget = 20000000
		}
		all := p.obligations()
		var todo []*Obligation
		ran := map[*Obligation]bool{}
		for _, o := range all {
			if spec.selects(o) != nil {
				todo = append(todo, o)
				ran[o] = true
			}
		}
		for len(todo) > 0 {
			o := todo[0]
			todo = todo[1:]
			rel := o
			wanted := spec.selects(o)
			dep := wanted == nil
			if dep {
				// a contract that another obligation relies on
				wanted = nil
				if spec.prims && strings.Contains(o.id, "/uint128.") {
					// the arithmetic that the operations are made of
					wanted = map[string]bool{"value": true, "panic": true}
					dep = false
				}
			}
			r := p.runObl(o, wanted, workers, budget, deadline)
			st := r.st
			rep := oblReport{ID: o.id, Rule: o.desc, Traces: st.traces, Excluded: st.dead, Checks: st.checks,
				Functions: len(st.funcs), Seconds: float64(int(r.dur.Seconds()*100)) / 100, Status: "discharged"}
			if len(st.samples) > 0 {
				rep.Sample = st.samples[len(st.samples)-1]
			}
			for c := range st.contrs {
				for _, o := range all {
					if !ran[o] && (o.aspect == "" || o.aspect == rel.aspect) && (o.id == contractID(c) || strings.HasPrefix(o.id, contractID(c)) && !strings.Contains(o.id, "/uint128.")) {
						ran[o] = true
						todo = append(todo, o)
					}
				}
			}
			if dep {
				rep.Status = "holds (relied on)"
			}
			for c := range wanted {
				rep.Clauses = append(rep.Clauses, c)
			}
			sort.Strings(rep.Clauses)
			for c := range st.contrs {
				rep.Contracts = append(rep.Contracts, c)
				contrs[c] = true
			}
			sort.Strings(rep.Contracts)
			for c := range st.funcs {
				funcs[c] = true
			}
			for c := range st.calls {
				calls[c] = true
			}
			nchecks += st.checks
			ntraces += st.traces
			for _, f := range sortedFailures(st) {
				line := fmt.Sprintf("%s: %s", o.id, f)
				if !wanted[f.Clause] {
					if rep.Status == "discharged" || dep {
						rep.Status = "undecided"
					}
					undec = append(undec, line)
					continue
				}
				isKnown := false
				for i, k := range known {
					if k.prop == prop && k.obl == o.id && k.clause == f.Clause && k.fn == f.Func {
						isKnown = true
						if !hits[i] {
							hits[i] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
						}
					}
				}
				if isKnown {
					if rep.Status == "discharged" {
						rep.Status = "known finding"
					}
					continue
				}
				rep.Status = "violated"
				viol = append(viol, line)
			}
			if rep.Status == "discharged" {
				discharged++
			}
			if dep {
				relied++
			}
			reports = append(reports, rep)
			fmt.Printf("%-9s %s\n", rep.Status, strings.TrimSpace(r.summary()))
		}
		if len(reports) == 0 {
			undec = append(undec, "no obligation for this property was found in the program")
		}
	}
	for i, u := range undec {
		if i < 10 {
			fmt.Println("UNDECIDED", u)
		}
	}
	cov := map[string]interface{}{
		"rule":                           spec.rule,
		"obligations":                    len(reports) - relied,
		"contract_obligations_relied_on": relied,
		"discharged":                     discharged,
		"undecided":                      undec,
		"checker_cmd":                    "/verif/check.sh " + prop,
		"trusted_base":                   trustedBase,
		"abstract_traces":                ntraces,
		"checks":                         nchecks,
		"functions_analysed":             keys(funcs),
		"call_sites":                     len(calls),
		"contracts_used":                 keys(contrs),
		"obligation_reports":             reports,
		"explanation":                    spec.explain(),
		"undecided_behaviour":            "what the analysis can't decide is listed here and printed; it isn't reported as a violation",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": spec.level, "coverage": cov,
		"assumptions": spec.assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if spec.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := filepath.Join(dir, prop+".violation.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %d undecided, %.1fs\n", prop, len(reports)-relied, discharged, len(viol), len(undec), time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	os.WriteFile(rp, []byte(strings.Join(viol, "\n")+"\n"), 0o644)
	for i, v := range viol {
		if i < 5 {
			fmt.Println(v)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

// contractID is the beginning of the ids of the obligations of a contract.
func contractID(fn string) string {
	fn = strings.NewReplacer("(", "", ")", "", "*", "").Replace(fn)
	i := strings.LastIndex(fn, "/") + 1
	return strings.Replace(fn[i:], ".", "/", 1)
}

func keys(s map[string]bool) []string {
	r := []string{}
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
