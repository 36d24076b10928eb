#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
AI = "abstract interpretation of the SSA form, by contracts"
def check(id, level, note, technique=AI):
    checks.append(dict(property=id, quick_cmd=f"./check.sh {id}", thorough_cmd=f"./check.sh {id}",
        technique=technique, level=level, level_note=note))
NA = {"C34": "Minimality quantifies over all alternative tables: the optimum of a global problem over the whole table, which no inductive description of one level of the recursion in reach expresses. (The current algorithm doesn't reach it for every table either: with 0.0.0.0/1 -> a, 128.0.0.0/1 -> b and 128.0.0.0/2 -> a it keeps three entries where 0.0.0.0/0 -> a and 192.0.0.0/2 -> b would do. Finding the optimum takes another algorithm, so it isn't repaired; see DESIGN.md.) What can be decided by one level, that nothing left is redundant, is claimed as C20, and that answers don't change as C19."}

BASE = "Trusts the Go type checker, the SSA construction of x/tools, the abstract domains and the models of standard library functions in /verif/analyzer."
P = "proof"
check("C01", P, "No store of any operation reaches memory that was visible before it or is visible to someone else. " + BASE)
check("C02", P, "Each modification under arbitrary interference between its accesses to the root: one compare-and-swap from the contents that the new ones were made from, or a panic. " + BASE)
check("C03", P, "Each reading operation of Set_ and Table_ under arbitrary interference: accesses to the root are atomic and one of the states read explains the result. " + BASE)
check("C04", P, "Every operation on zero values of Set_, Table_ and Table. " + BASE)
check("C05", P, "Every operation that accepts a set-like or prefix-like argument, with nil. " + BASE)
check("C06", P, "Callbacks after a false and the returned value, in every walk and diff. " + BASE)
check("C07", P, "Set_(), Table_(), Set(), Table(), Build and the constructors. " + BASE)
check("C08", P, "Every trace of Union, Intersection, Difference, Insert and Remove over symbolic operands, with induction over the recursion. " + BASE)
check("C09", P, "Contains, Equal, IsEmpty in both directions, relying on the unique representation, which is shown too. " + BASE)
check("C10", P, "The invariant of the representation for every result of every set operation. " + BASE)
check("C11", P, "An arbitrary address and the set of an address, a prefix and a range; ranges by induction over the recursion. " + BASE)
check("C12", P, "RangeFromAddresses, Plus and Minus on numbers from 0 to a symbolic greatest one. " + BASE)
check("C13", P, "Soundness for an arbitrary address of the prefix found and completeness for an arbitrary available prefix. " + BASE)
check("C14", P, "The state and results of every operation on an entry, for an arbitrary prefix and any other one. " + BASE)
check("C15", P, "LongestMatch against an arbitrary entry. " + BASE)
check("C16", P, "The count of every node made, as a linear expression over the counts of the parts. " + BASE)
check("C17", P, "Walk: an arbitrary entry once with its value, two arbitrary ones in order. " + BASE)
check("C18", P, "Diff: an arbitrary prefix once and rightly, two arbitrary ones in order, all choices of callbacks. " + BASE)
check("C19", P, "The longest match of an arbitrary address, under an arbitrary equivalence as the comparison. " + BASE)
check("C20", P, "No redundant entry in the result of Aggregate, at an arbitrary place. " + BASE)
check("C21", P, "Map: events and the result at an arbitrary prefix. " + BASE)
check("C22", P, "What every comparison of values is applied to, on every trace, and the comparison of every derived table. " + BASE)
check("C23", P, "Each length, all bits of the address arbitrary; bit by bit. The operations of 128 bit words are shown separately. " + BASE, "dataflow over bits (a boolean function of the input bits for each bit)")
check("C24", P, "All words by shape (contiguous with each length; a first zero and a last one after it, anything between), all sizes. " + BASE, "dataflow over bits (a boolean function of the input bits for each bit)")
check("C25", P, "The length of the prefix on every trace of every constructor and operation returning one. " + BASE)
check("C26", P, "Each bit of every conversion, all sizes of slices. " + BASE, "dataflow over bits (a boolean function of the input bits for each bit)")
check("C27", P, "Each function of package ip against the one of the input's family on symbolic inputs of all types, sizes and notations. " + BASE)
check("C28", P, "Counts of prefixes, ranges and sets, all lengths. " + BASE)
check("C29", P, "WalkRanges by induction over the prefixes walked, on numbers from 0 to a symbolic greatest one. " + BASE)
check("C30", P, "WalkAddresses by induction over the prefixes walked and the addresses of one. " + BASE)
check("C31", "other", "No undocumented panic on any trace of the operations of sets and tables; recursion with smaller arguments. " + BASE)
check("C32", P, "The types hold integers only and as many bits as an address; slices handed out are new, those taken in aren't written to. " + BASE, "types and ownership of memory in the abstract interpretation")
check("C33", P, "The text of arbitrary bits, for each length, and arbitrary texts by notation; net.ParseIP, net.ParseCIDR, fmt and net's formatting are modelled. " + BASE, "dataflow over bits and texts with symbolic parts")
check("C35", P, "Calls of recursive functions and new nodes are counted on each trace, one level of a trie at a time: at most one child entered for operations on one prefix, none for conversions, for a trie compared with itself, and for sets that are apart or inside a single prefix; the result of Map is the same node if nothing changes. " + BASE, "cost analysis by abstract interpretation, inductively over the levels of a trie")
check("C36", P, "The prefix found isn't part of an available one and no available block that is large enough is smaller, for an arbitrary block, by induction over the recursion. " + BASE)
check("C37", P, "Every function reachable from an exported one is searched for stores rooted in package variables, goroutines, output and inputs from outside; on symbolic operands, stores to memory that package variables reach. " + BASE, "effect analysis over the call graph and abstract interpretation")
check("C38", P, "The text of a set is put together from those of arbitrary prefixes, by induction over their number; that of a range from those of arbitrary ends. " + BASE)

done = {c["property"] for c in checks}
for p in props:
    if p["id"] not in done:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check yet.")))
m = dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
