package main

// Which obligations decide which property.

import (
	"regexp"
	"strings"
)

// part selects obligations by their ids (without the family) and the clauses
// of them that belong to the property.
type part struct {
	pat     string
	clauses string
}

type propSpec struct {
	id    string
	level string
	parts []part
	// the arithmetic of 128 bit words that the operations use belongs to it
	prims bool
	// what the evidence says about the claim
	rule string
	// what is assumed
	assume []string
	// what isn't covered
	gap string
}

func (s *propSpec) explain() string {
	e := "Abstract interpretation of the SSA form of the current source: each obligation executes the operation on symbolic operands (tries that are expanded as the code looks at them, addresses known by how they relate), splitting where the abstract state doesn't determine an outcome, with contracts in place of recursive calls; every contract is itself an obligation (induction over the depth)."
	if s.gap != "" {
		e += " Not covered: " + s.gap
	}
	return e
}

func (s *propSpec) selects(o *Obligation) map[string]bool {
	id := o.id
	if i := strings.Index(id, "/"); i >= 0 {
		id = id[i+1:]
	}
	var r map[string]bool
	for _, p := range s.parts {
		if !regexp.MustCompile("^(?:" + p.pat + ")$").MatchString(id) {
			continue
		}
		if r == nil {
			r = map[string]bool{}
		}
		for _, c := range strings.Fields(p.clauses) {
			r[c] = true
		}
	}
	return r
}

const (
	setOps    = `setNode\.(Union|Difference|Intersect)|trieNode\.(Union|Difference|Intersect)|setNodeFromRange`
	setOpsSub = `(` + setOps + `)(\(.*\))?`
	apiSetBin = `api/Set_?\.(Union|Intersection|Difference)(/self)?`
	apiConv   = `api/(Address|Prefix|Range)\.Set`
	setMaking = setOpsSub + `|` + apiSetBin + `|` + apiConv + `|api/Set_\.(Insert|Remove)(/self)?`
	tabMaking = `trieNode\.(insert|GetOrInsert|del|Map|aggregate/match)|api/Table_?\.(Insert|Update|InsertOrUpdate|GetOrInsert|Remove|Map|Aggregate)`
	form      = "place canon length" // of every trie that is made: what reading relies on
)

var propSpecs = []*propSpec{
	{id: "C01", level: "proof", parts: []part{{`(api/|setNode|trieNode).*`, "fresh"}},
		rule: "no store reaches memory that an operand, an argument, a published root or an earlier result can reach"},
	{id: "C02", level: "proof", parts: []part{{`api/.*/volatile`, "atomic race"}},
		rule: "under arbitrary interference at every access to the root: one compare-and-swap from the contents that the new ones were made from, or a panic"},
	{id: "C03", level: "proof", parts: []part{{`api/.*/volatile`, "torn race"}},
		rule: "under arbitrary interference at every access to the root: all accesses atomic, the result agrees with one of the states read"},
	{id: "C04", level: "proof", parts: []part{{`api/.*/zero`, "value panic atomic order stop canon place"}},
		rule: "every operation of a zero value against its specification for the empty collection; modifications panic"},
	{id: "C05", level: "proof", parts: []part{{`api/.*/nil(/.*)?`, "value panic canon place"}},
		rule: "every operation with a nil argument against its specification for the empty set (the prefix of length 0)"},
	{id: "C06", level: "proof", parts: []part{{`.*`, "stop"}},
		rule: "no callback after one returned false, false returned exactly if one did"},
	{id: "C07", level: "proof", parts: []part{{`api/(Set\.Set_|NewSet_|Set\.Build|Set_\.Set|Table\.Table_|Table_\.Table|Table\.Build|NewTable.*)`, "value panic fresh"}},
		rule: "clones are new memory with the same contents; Build returns what the builder left or the original"},
	{id: "C08", level: "proof", prims: true, parts: []part{
		{setOpsSub, "value place panic"},
		{apiSetBin, "value place panic"},
		{`api/Set_\.(Insert|Remove)(/self)?`, "value place panic"},
	}, rule: "an arbitrary address is in the result exactly if set theory says so, for arbitrary operands, by induction over the recursion"},
	{id: "C09", level: "proof", prims: true, parts: []part{
		{`(setNode|trieNode)\.(Equal|IsEmpty)(\(.*\))?(/.*)?`, "value panic"},
		{`api/(Set_?|Prefix|Range)\.(Contains|Equal|IsEmpty)(/true|/false)?(/self)?`, "value panic"},
		{setOpsSub, "canon place"},
		{apiConv, "canon place"},
		{apiSetBin, "canon place"},
		{`api/Set_\.(Insert|Remove)(/self)?`, "canon place"},
	}, rule: "true only if and if the sets of addresses are related so, relying on the unique representation that every set operation establishes"},
	{id: "C10", level: "proof", prims: true, parts: []part{
		{setOpsSub, "canon place length"},
		{apiConv, "canon place length"},
		{apiSetBin, "canon place length"},
		{`api/Set_\.(Insert|Remove)(/self)?`, "canon place length"},
		{`api/Set\.WalkPrefixes(/order)?|walk/.*|trieNode\.diff/(events|order)`, "value order panic"},
	}, rule: "every node of every result: no host bits, children strictly below on their sides, members are leaves, joining nodes have two children which aren't both full halves"},
	{id: "C11", level: "proof", prims: true, parts: []part{
		{`setNodeFromRange.*`, "value place canon length panic"},
		{apiConv, "value place canon length panic"},
	}, rule: "an arbitrary address is in the set exactly if it's the address, under the prefix, or between the first and the last one of the range"},
	{id: "C12", level: "proof", prims: true, parts: []part{
		{`ord/(Range\..*|RangeFromAddresses)`, "value panic"},
	}, rule: "addresses as numbers from 0 to a symbolic greatest one: an arbitrary address is in the resulting ranges exactly if arithmetic says so; the ranges are in order and, for sums, apart"},
	{id: "C13", level: "proof", prims: true, parts: []part{
		{`setNode\.[fF]indSmallestContainingPrefix/(found|notfound)`, "value panic"},
		{`api/Set\.FindAvailablePrefix/(found|notfound)`, "value panic length"},
		{setMaking, form},
	}, rule: "an arbitrary address of the prefix found is in the set and not reserved; an arbitrary available prefix of the requested length excludes an error"},
	{id: "C14", level: "proof", prims: true, parts: []part{
		{`trieNode\.(insert|GetOrInsert|del|Match)(/.*)?`, "value place canon length panic"},
		{`api/Table_?\.(Insert|Update|InsertOrUpdate|GetOrInsert|Remove|Get)`, "value place canon length panic"},
	}, rule: "for an arbitrary prefix and any other one: the entries before and after and what the operation returns are as a map from prefixes to values says"},
	{id: "C15", level: "proof", prims: true, parts: []part{
		{`trieNode\.Match`, "value place panic"},
		{`api/Table_?\.LongestMatch`, "value panic"},
		{tabMaking, form},
	}, rule: "what is found is an entry that contains the argument with its value, an arbitrary entry that contains the argument isn't longer; nothing is found only if there is none"},
	{id: "C16", level: "proof", parts: []part{
		{`trieNode\..*`, "size"},
		{`api/(New)?Table.*`, "size"},
		{`api/Table_?\.NumEntries(/zero)?`, "value size panic"},
	}, rule: "the count in every node made equals the number of entries at and below it; NumEntries returns that of the root"},
	{id: "C17", level: "proof", prims: true, parts: []part{
		{`api/Table\.Walk(/order)?`, "value order panic"},
		{`trieNode\.diff/(events|order)`, "value order panic"},
		{tabMaking, form},
	}, rule: "an arbitrary entry is reported exactly once with its value and nothing else is; two arbitrary entries are reported in lexicographical order"},
	{id: "C18", level: "proof", prims: true, parts: []part{
		{`api/Table\.Diff(/order|/zero)?`, "value order panic"},
		{`trieNode\.diff/(events|order)`, "value order panic"},
		{`trieNode\.Equal/table/.*`, "value"},
		{tabMaking, form},
	}, rule: "an arbitrary prefix is reported exactly once to the right callback with the right values, two arbitrary ones in lexicographical order, for any choice of callbacks"},
	{id: "C19", level: "proof", prims: true, parts: []part{
		{`trieNode\.aggregate/match`, "value place canon length panic"},
		{`api/Table\.Aggregate(/zero)?`, "value cmp fresh panic"},
	}, rule: "the longest match of an arbitrary address before and after have equal values or are both absent, under an arbitrary equivalence as the comparison"},
	{id: "C20", level: "proof", prims: true, parts: []part{
		{`(trieNode\.aggregate|api/Table\.Aggregate)/redundancy`, "value panic"},
		{tabMaking, form},
	}, rule: "no entry of the result has a value equal to the one of the closest entry containing it, no two halves of a prefix are entries with equal values"},
	{id: "C21", level: "proof", prims: true, parts: []part{
		{`trieNode\.Map(/order)?`, "value place canon length size panic"},
		{`api/Table\.Map(/zero)?`, "value size panic"},
		{`trieNode\.Equal/table/.*`, "value"},
		{tabMaking, form},
	}, rule: "the mapper is called once for an arbitrary entry and for nothing else, and the result has an entry there with a value equal to what it returned"},
	{id: "C22", level: "proof", parts: []part{{`trieNode\..*|api/(New)?Table.*`, "cmp cmppanic"}},
		rule: "every call of the comparison gets two values of entries, no other comparison of values is executed, derived tables carry the same comparison"},
	{id: "C23", level: "proof", prims: true, parts: []part{
		{`bits/Prefix\..*|bits/Mask\.(Length|Uint.*)|bits/Address\.Prefix`, "value length panic"},
		{`uint128\.(and|or|xor|complement|leftShift|rightShift|leadingZeros|compare)`, "value panic"},
	}, rule: "for each length and an address of arbitrary bits: each bit of the result is the constant or the input bit it should be"},
	{id: "C24", level: "proof", prims: true, parts: []part{
		{`bits/MaskFrom.*|bits/Mask\..*`, "value panic"},
		{`uint128\.(complement|leadingZeros|onesCount|leftShift)`, "value panic"},
	}, rule: "every word is either l ones and zeros, for each l, or has a first zero and a last one after it with arbitrary bits between: accepted exactly in the first case, with the same bits"},
	{id: "C25", level: "proof", parts: []part{
		{`bits/Prefix.*|bits/Address\.Prefix`, "length"},
		{`(setNode|trieNode)\..*|api/.*`, "length"},
	}, rule: "the length of every prefix that is returned without an error is within bounds, for arbitrary arguments and texts"},
	{id: "C26", level: "proof", prims: true, parts: []part{
		{`bits/AddressFrom.*|bits/Address\.(ToNetIP|Uint.*)|bits/Mask\.(ToNetIPMask|Uint.*)|bits/Prefix\.(ToNetIPNet|Uint.*|Address)|bits/PrefixFrom(NetIPNet|AddressMask)`, "value panic"},
		{`uint128\.uint128FromBytes`, "value panic"},
	}, rule: "each bit of the result is the input bit at that position; a slice of any other size yields an error"},
	{id: "C28", level: "proof", prims: true, parts: []part{
		{`count/.*`, "value panic"},
		{`(trieNode|setNode)\.NumAddresses`, "value panic"},
		{`api/Set_?\.NumAddresses(/zero)?`, "value panic"},
		{`api/Set\.WalkPrefixes(/order)?|walk/.*|trieNode\.diff/(events|order)`, "value order panic"},
		{`uint128\..*`, "value panic"},
		{setMaking, form},
	}, rule: "counts modulo 2^64 with an interval: for each length of a prefix and arbitrary lengths asked for the result is the power of two or an error; sums over sets by induction over the walk"},
	{id: "C29", level: "proof", prims: true, parts: []part{
		{`ord/Set\.WalkRanges`, "value panic"},
		{`ord/Range\.(Plus|First|Last)`, "value panic"},
		{`bits/Prefix\.Range`, "value panic"},
		{`api/Set\.WalkPrefixes(/order)?|walk/.*|trieNode\.diff/(events|order)`, "value order panic"},
		{setMaking, form},
	}, rule: "by induction over the walk of prefixes: what was reported and what is pending cover an arbitrary address exactly if the prefixes walked do; ranges reported are in order and apart"},
	{id: "C30", level: "proof", prims: true, parts: []part{
		{`ord/Set\.WalkAddresses`, "value panic term"},
		{`bits/Prefix\.(Network|Broadcast)`, "value panic"},
		{`api/Set\.WalkPrefixes(/order)?|walk/.*|trieNode\.diff/(events|order)`, "value order panic"},
		{setMaking, form},
	}, rule: "by induction over the walk of prefixes and the loop over addresses: the next address is one above the last one, an arbitrary address is passed exactly if it's in the prefixes walked, and the loop ends at the last address, the greatest included"},
	{id: "C27", level: "proof", parts: []part{{`facade/.*`, "value panic"}},
		rule: "each function of package ip and the one of the family of the input are executed on the same arbitrary input, for each type, size, notation and outcome, and agree; mixed and foreign inputs yield an error or nil"},
	{id: "C33", level: "proof", parts: []part{{`text/(Address|Prefix|Mask).*`, "value panic"}},
		rule: "texts are sequences of literals, decimal numbers and IPv6 addresses with symbolic bits: what String makes of arbitrary bits is parsed to the same bits; an arbitrary text is accepted exactly if it has the notation of the family"},
	{id: "C36", level: "proof", prims: true, parts: []part{
		{`setNode\.[fF]indSmallestContainingPrefix/.*`, "value best panic"},
		{`api/Set\.FindAvailablePrefix/best`, "value best panic"},
		{setMaking, form},
	}, rule: "no prefix above the one found by the search is available; an arbitrary available block that is large enough isn't smaller than the one found; the prefix is the start of it"},
	{id: "C38", level: "proof", parts: []part{{`text/(Range|Set)\.String`, "value panic"}},
		rule: "texts are sequences of parts: that of a range is made of those of its ends, that of a set of those of the prefixes visited by a walk (by induction over the prefixes)"},
	{id: "C37", level: "proof", parts: []part{
		{`effects/.*`, "effect"},
		{`(bits|ord|text|facade)/.*`, "fresh"},
	}, rule: "of all functions reachable from an exported one: no store that is rooted in a package variable only, no goroutine, no call of anything that prints or reads the clock, random numbers, files, the environment or the network; on symbolic operands no store to memory that package variables reach"},
	{id: "C35", level: "proof", parts: []part{{`cost/.*`, "cost"}},
		rule: "calls of recursive functions on symbolic operands, one level at a time: conversions make none; operations on one prefix go down into at most one child per level and make a bounded number of nodes there; a trie isn't compared with itself unless equal entries are asked for; a mapper that changes nothing gets the same trie back"},
	{id: "C31", level: "other", parts: []part{{`.*`, "panic term cmppanic"}},
		rule: "no trace of any operation ends in a panic that isn't documented; recursive calls have smaller arguments"},
	{id: "C32", level: "proof", parts: []part{
		{`types/.*`, "type"},
		{`bits/.*`, "alias fresh"},
	}, rule: "the types hold integers only, as many bits as an address has; every slice handed out is new memory and no slice taken in is written to or kept"},
}
