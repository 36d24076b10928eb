package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "the source tree to analyse")
	only := flag.String("only", "", "run the obligations whose id contains this")
	verbose := flag.Bool("v", false, "print failures")
	dbg := flag.Bool("debug", false, "don't recover from failures of the analyzer")
	workers := flag.Int("workers", 8, "")
	prop := flag.String("prop", "", "decide this property")
	verif := flag.String("verif", "/verif", "where evidence and known findings are")
	budget := flag.Int("budget", 720, "seconds")
	alarms := flag.Bool("alarms", false, "run everything, tell which properties' checks would report a violation")
	altOnly := flag.Bool("alt", false, "run what is there for where an obligation is undecided")
	flag.Parse()
	debug.SetGCPercent(800)
	debugPanics = *dbg
	deadline := time.Now().Add(time.Duration(*budget) * time.Second)
	p, err := loadProg(*repo)
	if *prop != "" {
		os.Exit(decide(p, err, *prop, *verif, *workers, deadline))
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	obs := p.obligations()
	if *alarms {
		for _, l := range p.problems {
			fmt.Println("undecided", l)
		}
	}
	for _, o := range obs {
		if *only != "" && !regexp.MustCompile(*only).MatchString(o.id) {
			continue
		}
		if *alarms {
			reportAlarms(p, o, *workers, deadline)
			continue
		}
		if *altOnly {
			if o.alt == nil {
				continue
			}
			o.run, o.alt = o.alt, nil
		}
		r := p.runObl(o, nil, *workers, 3000000, deadline)
		fmt.Println(r.summary())
		if *verbose {
			for i, f := range sortedFailures(r.st) {
				if i > 12 {
					break
				}
				fmt.Println("  ", f)
			}
		}
	}
}

func reportAlarms(p *Prog, o *Obligation, workers int, deadline time.Time) {
	all := map[string]bool{}
	who := map[string][]string{}
	for _, s := range propSpecs {
		w := s.selects(o)
		if w == nil && s.prims && strings.Contains(o.id, "/uint128.") {
			w = map[string]bool{"value": true, "panic": true}
		}
		for c := range w {
			all[c] = true
			who[c] = append(who[c], s.id)
		}
	}
	r := p.runObl(o, all, workers, 3000000, deadline)
	n := map[string]int{}
	for _, f := range sortedFailures(r.st) {
		k := "undecided"
		if all[f.Clause] {
			k = "ALARM " + strings.Join(who[f.Clause], ",")
		}
		if n[k]++; n[k] > 3 {
			continue
		}
		fmt.Printf("%s %s: %s\n", k, o.id, f)
	}
}

func (p *Prog) obligations() []*Obligation {
	var obs []*Obligation
	for _, n := range []string{"ipv4", "ipv6"} {
		fam := p.fams[n]
		if fam == nil {
			continue
		}
		obs = append(obs, fam.bindContracts()...)
		obs = append(obs, fam.setObligations()...)
		obs = append(obs, fam.tableObligations()...)
		obs = append(obs, fam.costObligations()...)
		obs = append(obs, fam.ordObligations()...)
		obs = append(obs, fam.bitsObligations()...)
		obs = append(obs, fam.typeObligations()...)
		obs = append(obs, fam.textObligations()...)
		obs = append(obs, fam.countObligations()...)
		obs = append(obs, fam.walkObligations()...)
	}
	obs = append(obs, p.facadeObligations()...)
	obs = append(obs, p.effectObligations()...)
	return obs
}
