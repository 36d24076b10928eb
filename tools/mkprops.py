#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
V4, V6 = "ipv4", "ipv6"
def f(*names):
    return [f"{p}/{n}" for n in names for p in (V4, V6)]
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Fixed sets and tables never change once obtained",
 "A fixed Set or Table (including every snapshot taken from a mutable one, every operand and every result) keeps exactly the same contents forever, whatever is later done with it, with the mutable collection it came from, or with any other collection derived from it.",
 ["histories", "schedules"], "every sequence of operations, sequential or concurrent, after the snapshot was obtained",
 "Tests compare a few snapshots after a few operations; a write into a shared node only shows for the particular snapshot that shares that node.",
 f("node.go", "setnode.go", "set.go", "tablex.go"),
 [("copy on write of trie nodes", "node.go copyMutate/mutate/insert/del, setnode.go Union/Difference/Intersect")])
prop("C02", "Concurrent modification is atomic or detected",
 "Each modification of a shared mutable Set_ or Table_ either takes effect as one atomic step computed from exactly the contents it replaces, or has no effect and panics reporting the concurrent modification. No completed modification made by another goroutine is ever silently lost or partially overwritten.",
 ["schedules"], "every interleaving of any number of goroutines modifying the same collection",
 "The tests force one interleaving per method through an internal hook; the guarantee is over every interleaving of every modifier.",
 f("set.go", "tablex.go", "unsafe_atomic.go"),
 [("compare and swap of the root", "set.go Set_.update, tablex.go tableX_.update, unsafe_atomic.go")])
prop("C03", "Reads of shared mutable collections are atomic",
 "Any reading operation on a mutable Set_ or Table_, run concurrently with modifications, is free of data races and its whole answer reflects one single state that the collection really had during the call. The same goes for a mutable set that is passed as the argument of an operation on something else.",
 ["schedules"], "every interleaving of readers with writers",
 "The test suite has no reader running against a writer; a second read of the root or a plain read shows only under a particular interleaving.",
 f("set.go", "tablex.go", "table.go", "unsafe_atomic.go"),
 [("one atomic load of the root per read", "set.go Set_.Set, tablex.go tableX_.Table")])
prop("C04", "Uninitialized mutable collections read as empty, refuse changes",
 "The zero value of Set_ or Table_ behaves in every reading operation exactly like an empty collection, and every attempt to modify it panics without having any other effect.",
 ["inputs", "programs"], "every operation of the zero values, with every argument",
 "Each method needs its own guard; tests cover chosen methods with chosen arguments.",
 f("set.go", "tablex.go", "table.go"),
 [("nil guard in every method", "set.go Set_ methods, tablex.go tableX_ methods, table.go Table_ methods")])
prop("C05", "nil set and prefix arguments mean empty set and 0/0",
 "Passing nil where a set-like argument is accepted gives the same result as passing the empty set, and passing nil where a prefix-like argument is accepted gives the same result as passing the zero prefix (0.0.0.0/0 or ::/0); neither panics.",
 ["inputs"], "every method that takes a set-like or prefix-like interface, every receiver",
 "Tests pass nil to some of the methods on some receivers.",
 f("set.go", "tablex.go", "table.go", "prefix.go", "range.go"),
 [("nil replaced before use", "set.go, tablex.go: methods taking SetI or PrefixI")])
prop("C06", "Iterations stop at the first false and report it",
 "Every iteration (walking prefixes, ranges, addresses or entries, and diffing two tables) makes no further callback once a callback returned false, and returns false exactly when a callback returned false; otherwise it visits everything and returns true.",
 ["inputs", "programs"], "every collection, every iteration method, every position at which a callback returns false",
 "Tests stop a few walks at a few positions; the property is over every position in every structure.",
 f("node.go", "set.go", "table.go", "tablex.go", "prefix.go"),
 [("result of the callback propagated through the recursion", "node.go diff/Diff/Walk, set.go Walk*, prefix.go walkAddresses")])
prop("C07", "Clones are independent and Build is all or nothing",
 "A mutable collection made from a fixed one starts with equal contents and is a separate collection: changes to either never show in the other, and copies of a mutable handle share one collection. Build returns the built contents when the callback returns true and the unchanged original when it returns false.",
 ["histories"], "every sequence of changes made to the clone, to the original's source, or inside Build",
 "Tests make one or two changes in one direction.",
 f("set.go", "tablex.go", "table.go"),
 [("fresh root cell for each clone", "set.go Set.Set_/Build, tablex.go tableX.Table_/Build, table.go Table.Table_/Build")])
prop("C08", "Set algebra is exact for every address",
 "For any two sets, an address is in the union, intersection or difference exactly if set theory says so from its membership in the operands; inserting into and removing from a mutable set are exactly union and difference in place.",
 ["inputs", "histories"], "all pairs of sets however they were built and every address of the 2^32 or 2^128",
 "Tests compare a few small sets and random prefixes; recursion cases depend on relative positions and lengths of nested prefixes.",
 f("setnode.go", "node.go", "set.go"),
 [("recursive merge of two tries", "setnode.go Union/Difference/Intersect, node.go contains/compare/flatten")])
prop("C09", "Contains, Equal and IsEmpty agree with set membership",
 "One set contains another exactly if every address of the other is in it, two sets are equal exactly if they have the same addresses, and a set is empty exactly if no address is in it - for all sets and for every kind of set-like argument.",
 ["inputs", "histories"], "all pairs of sets (built by any history) and all set-like arguments",
 "Equality relies on a unique representation for each set, whatever the history; tests sample histories.",
 f("setnode.go", "set.go", "prefix.go", "range.go", "node.go"),
 [("structural comparison of canonical tries, emptiness of a difference", "node.go Equal/NumAddresses/IsEmpty, set.go Contains/Equal/IsEmpty")])
prop("C10", "Sets are always the fewest, largest, aligned prefixes",
 "However a set was built, walking its prefixes yields pairwise disjoint prefixes with no host bits set, in ascending order, that cover exactly the addresses of the set, and no two of them are halves of one larger prefix.",
 ["histories"], "all sequences of set operations and conversions that can produce a set",
 "The canonical form must be re-established by each branch of each operation; tests check the count for a few results.",
 f("setnode.go", "node.go", "set.go", "prefix.go"),
 [("flattening of every new node", "node.go flatten, setnode.go Union/Difference/Intersect/setNodeFromPrefix/setNodeFromRange")])
prop("C11", "Address, Prefix and Range convert to exactly their addresses",
 "Converting an address, a prefix or a range to a set gives a set with exactly the addresses they denote: the one address, all addresses sharing the network part (host bits ignored), or all addresses from first to last inclusive.",
 ["inputs"], "all addresses, prefixes of every length and ranges with arbitrary ends",
 "Ranges have 2^63 or more shapes; the split into prefixes depends on alignment at both ends.",
 f("setnode.go", "range.go", "prefix.go", "address.go"),
 [("divide and conquer at the most aligned address", "setnode.go setNodeFromRange/setNodeFromPrefix, prefix.go Set/Range")])
prop("C12", "Range arithmetic is exact, including at the ends of the space",
 "A range can be made exactly if first is not after last; adding two ranges yields one range when they overlap or touch and otherwise both in order; subtracting yields exactly the zero, one or two ranges of addresses that are only in the first, in order. No result is affected by wrap-around at the lowest or highest address.",
 ["inputs"], "all pairs of ranges over the whole address space",
 "Wrap-around and off-by-one only show for particular relations of the four end points.",
 f("range.go", "address.go"),
 [("comparison of end points with next and previous", "range.go Plus/Minus/RangeFromAddresses/prev/next, address.go minAddress/maxAddress/lessThan")])
prop("C13", "Found prefixes are really available; failure means none is",
 "A successful search for an available prefix returns a prefix of exactly the requested length, without host bits, that lies entirely within the set and has no address in the reserved set; an error is returned exactly if no such prefix exists.",
 ["inputs"], "all sets, all reserved sets (overlapping in any way) and all lengths",
 "The search walks two tries at once with many relative positions; tests use random sets of limited shapes.",
 f("setnode.go", "set.go"),
 [("search of the free space without materializing it", "setnode.go FindSmallestContainingPrefix/findSmallestContainingPrefix/best, set.go FindAvailablePrefix")])
prop("C14", "Tables are exact maps from prefixes to values",
 "A table maps each prefix (network part and length; host bits ignored) to at most one value. Insert, update, insert-or-update, get-or-insert and remove change only the entry of the given prefix, and what they and an exact lookup return agrees with what was stored by the history of operations.",
 ["histories", "inputs"], "every history of table operations over every set of prefixes",
 "The trie has joining nodes without entries and a branch for each relative position of two prefixes; tests sample both.",
 f("node.go", "tablex.go", "table.go"),
 [("insertion, deletion and exact lookup", "node.go insert/del/GetOrInsert/Match, tablex.go, table.go")])
prop("C15", "Longest match returns the most specific containing entry",
 "Looking up a prefix or address by longest match returns the value and prefix of the longest entry whose prefix contains it, and reports no match exactly if no entry contains it.",
 ["inputs", "histories"], "all tables and all search prefixes",
 "Needs backtracking over joining nodes and entries at every depth; tests sample.",
 f("node.go", "tablex.go", "table.go"),
 [("recursive match", "node.go Match/contains, tablex.go longestMatch/LongestMatch")])
prop("C16", "The number of entries is exact after every operation",
 "The reported number of entries of a table always equals the number of prefixes for which an exact lookup succeeds, after any history of inserts, updates, removals, aggregation and mapping.",
 ["histories"], "every history of operations",
 "The count is cached in every node and must be right after every kind of rebuild.",
 f("node.go", "tablex.go", "table.go"),
 [("count recomputed in each changed node", "node.go mutate/copyMutate/NumNodes")])
prop("C17", "Walking a table visits each entry once, in order",
 "Walking a table calls back exactly once for each entry with its prefix and value, in lexicographical order: a containing prefix comes before those it contains and disjoint prefixes come in ascending order.",
 ["inputs", "histories"], "all tables, however built",
 "Order and completeness depend on the shape of the trie; tests walk a few.",
 f("node.go", "tablex.go", "table.go"),
 [("walk as a comparison with the empty trie", "node.go Walk/Diff/diff")])
prop("C18", "Diff reports every difference exactly once, in order",
 "Comparing two tables calls back exactly once for each prefix that is in either: as changed if both have it with unequal values, left or right if only that table has it, unchanged if both have it with equal values - in lexicographical order overall. Prefixes whose callback is nil are skipped without affecting the others.",
 ["inputs", "histories"], "all pairs of tables, including tables sharing structure, and all subsets of callbacks",
 "Pairs of tries meet in many relative positions and some subtrees are skipped; tests sample.",
 f("node.go", "tablex.go", "table.go"),
 [("simultaneous descent of two tries", "node.go diff/Diff, tablex.go Diff, table.go Diff")])
prop("C19", "Aggregation preserves every longest-prefix-match answer",
 "For every address, looking it up by longest match in the aggregated table gives a value equal (by the table's comparison) to that of the original table, or no match in both. The original and its comparison are kept.",
 ["inputs", "histories"], "all tables with any pattern of equal and unequal values and every address",
 "Merging depends on the values above, beside and below a prefix; tests use a few tables.",
 f("node.go", "tablex.go", "table.go"),
 [("merging with the value inherited from above", "node.go aggregate/deactivate, tablex.go Aggregate, table.go Aggregate")])
prop("C20", "Aggregated tables keep no redundant entry",
 "In an aggregated table no entry has a value equal to that of the closest entry containing it, and no two entries with equal values are the two halves of one prefix.",
 ["inputs", "histories"], "all tables with any pattern of equal and unequal values",
 "Redundancy can arise after a merge further down; tests use a few tables.",
 f("node.go"),
 [("merging with the value inherited from above", "node.go aggregate/deactivate")])
prop("C21", "Map keeps the prefixes and maps each value once",
 "Mapping a table yields a table with exactly the same prefixes, where each value is (equal to) what the mapper returned for that prefix and value; the mapper is called exactly once for each entry and never for a prefix that is not in the table.",
 ["inputs", "histories"], "all tables and all mappers",
 "Joining nodes must not reach the mapper and unchanged subtrees are shared; tests use a few tables.",
 f("node.go", "tablex.go", "table.go"),
 [("rebuild of the changed paths", "node.go Map, tablex.go Map, table.go Map")])
prop("C22", "Only the table's own comparison is applied, to stored values",
 "A table compares values only with the comparison it was created with (== for plain tables), applies it only to values that were really stored or supplied for an entry (comparing two tables uses the comparison of the one that the comparison is called on), and carries it over to every table derived from it, so values that == cannot compare never cause a panic.",
 ["programs", "histories"], "all value types, custom comparisons and derived tables",
 "A stray == or a call for a joining node only fails for particular value types and shapes.",
 f("node.go", "tablex.go", "table.go"),
 [("comparator passed to each operation", "node.go insert/diff/aggregate/Map, tablex.go, table.go")])
prop("C23", "Prefix arithmetic is exact for every address and length",
 "For every address and every length from 0 to the address size: the mask has exactly length leading ones, the network, broadcast and host parts keep or fill exactly the bits they should, the range runs from the network to the broadcast address, and the halves are the two prefixes one bit longer that make up the prefix.",
 ["inputs"], "all addresses and all lengths including 0 and the full size",
 "Shifts by 0, by the word size and across the two 64 bit halves are separate cases for every operation.",
 f("prefix.go", "mask.go", "address.go") + ["ipv6/uint128.go"],
 [("shifts and masks", "prefix.go Network/Broadcast/Host/Range/Halves, mask.go lengthToMask, uint128.go")])
prop("C24", "Only contiguous masks are accepted, and exactly those",
 "Making a mask from a length, bytes, integers or a net.IPMask succeeds exactly if it is a contiguous mask of the right size, and the resulting mask has the same bits and the length that counts its leading ones; otherwise an error is returned.",
 ["inputs"], "all bit patterns and all lengths, including negative and too long ones",
 "2^32 or 2^128 patterns; tests sample some.",
 f("mask.go") + ["ipv6/uint128.go"],
 [("count of leading ones against count of ones", "mask.go valid/Length/MaskFrom*")])
prop("C25", "No constructor yields a prefix with an impossible length",
 "Every prefix obtained from the public interface without an error has a length between 0 and the size of an address of its family.",
 ["inputs", "programs"], "all public ways to obtain a prefix, with all arguments",
 "Later shifts silently misbehave on an impossible length; tests try some constructors.",
 f("prefix.go", "address.go", "set.go", "setnode.go") ,
 [("validation in constructors", "prefix.go PrefixFrom*/Halves, address.go Prefix, set.go FindAvailablePrefix")])
prop("C26", "Byte and integer conversions are lossless",
 "Converting an address to or from bytes, byte slices, net.IP or integers keeps every bit in its position: converting there and back yields the same address, and input of the wrong size yields an error.",
 ["inputs"], "all addresses and slices of all lengths",
 "A wrong shift of one byte shows only for particular values; tests use a few.",
 f("address.go") + ["ipv6/uint128.go"],
 [("shifts by multiples of eight", "address.go AddressFromBytes/fromSlice/toBytes/ToNetIP, uint128.go")])
prop("C27", "The ip package dispatches by family and never mixes families",
 "Each function of the family-independent package returns the value that the function of the input's own family returns, and fails (with an error, or nil where there is no error result) when families do not match, the input is of neither family, or that function fails. The size of a net.IP and the notation of a text give their family.",
 ["inputs"], "all inputs of both families, invalid ones and mixed ones",
 "Tests use one or two inputs per branch.",
 ["ip/address.go", "ip/mask.go", "ip/prefix.go", "ip/range.go"],
 [("type switches and size switches", "ip/*.go")])
prop("C28", "Address and prefix counts are exact or an error",
 "The number of addresses of a set, prefix or range is exact; the number of prefixes of a given length in a prefix is exactly 2^(length - own length), or 0 if that length is shorter, and the call fails with an error if the length is longer than an address or the count cannot be represented.",
 ["inputs"], "all prefixes, sets and lengths",
 "Overflow and rounding only show at extreme lengths.",
 f("prefix.go", "set.go", "range.go", "node.go"),
 [("powers of two", "prefix.go NumPrefixes/NumAddresses, set.go NumPrefixes/NumAddresses, node.go NumAddresses")])
prop("C29", "Walking ranges yields maximal disjoint ranges in order",
 "Walking the ranges of a set calls back with ranges that together cover exactly the addresses of the set, in ascending order, with at least one address missing between any two.",
 ["inputs", "histories"], "all sets, including those that touch either end of the address space",
 "Joining ranges across prefixes is an accumulation over a sequence of any length.",
 f("set.go", "range.go"),
 [("accumulation of adjacent prefixes", "set.go WalkRanges, range.go Plus")])
prop("C30", "Walking addresses visits each address once, in order, and ends",
 "Walking the addresses of a set calls back with each address of the set exactly once in ascending order and terminates, including for sets that end at the highest address.",
 ["inputs"], "all sets",
 "Wrap-around shows only at the end of the space; a full walk of large sets is out of reach for tests.",
 ["ipv4/set.go", "ipv4/prefix.go"],
 [("counting loop over each prefix", "prefix.go walkAddresses, set.go WalkAddresses")])
prop("C31", "Valid input never makes an operation panic or run forever",
 "Every operation on properly obtained values terminates and does not panic, except for the documented panics: modifying an uninitialized collection, detected concurrent modification, and panics of user callbacks.",
 ["inputs", "histories"], "all operations on all values obtained from the public interface",
 "The code has several branches it believes unreachable and recursions whose progress depends on the structure; tests reach a sample of states.",
 f("node.go", "setnode.go", "set.go", "tablex.go", "prefix.go", "range.go"),
 [("unreachable panics, nil dereferences, recursion on smaller tries", "node.go, setnode.go")])
prop("C32", "Values are self-contained and comparable",
 "Addresses, masks, prefixes and ranges are plain values usable with == and as map keys where == means same address (and length): they hold no reference to memory that a caller can reach, and slices handed out or taken in are never shared with them.",
 ["programs"], "all programs using the public interface",
 "It is a property of types and of aliasing, not of any one execution.",
 f("address.go", "mask.go", "prefix.go", "range.go") + ["ipv6/uint128.go"],
 [("unexported scalar fields", "address.go, mask.go, prefix.go, range.go type declarations and conversions")])
prop("C33", "Text forms parse back to the same value",
 "Formatting an address, mask or prefix and parsing the text yields the same value, and text of the wrong family or form is rejected with an error (IPv4-mapped IPv6 addresses in colon notation are IPv6; IPv4 may accept them as addresses too).",
 ["inputs"], "all addresses and prefixes, all strings",
 "2^128 values and all strings.",
 f("address.go", "prefix.go", "mask.go"),
 [("formatting and net.ParseIP/ParseCIDR", "address.go String/AddressFromString, prefix.go String/PrefixFromString")])
prop("C34", "Aggregation reaches the minimum number of entries",
 "An aggregated table has the smallest number of entries with which any table could give the same longest-match answer for every address.",
 ["inputs"], "all tables and all alternative tables",
 "Quantifies over all alternative tables.",
 f("node.go", "tablex.go"),
 [("merging with the value inherited from above", "node.go aggregate")])
prop("C35", "Work is proportional to what changes",
 "Converting between the fixed and the mutable form of a set or table neither walks nor copies it, whatever its size. Looking up, inserting, updating or removing one prefix goes down one path of the table (or set) and makes new nodes only there; everything else is shared with the original. Comparing two tables skips what they share, unless unchanged entries are asked for by passing a handler for them. Mapping a table with a function that returns equal values gives back the same table without copying anything.",
 ["inputs", "histories"], "all sets, tables and sizes, and all histories of changes between two snapshots",
 "Tests see results, not the work done for them, and only at the sizes they use; the bounds are for every size and shape.",
 f("node.go", "setnode.go", "set.go", "table.go", "tablex.go"),
 [("path copying", "node.go insert, del, GetOrInsert; setnode.go Union, Difference"), ("shared tries are skipped", "node.go diff; table.go Diff passes no handler for unchanged entries on if there is none"), ("unchanged tries are returned as they are", "node.go Map")])
prop("C36", "Found prefixes are taken from the smallest free block that fits",
 "The prefix that a search for an available one returns is placed so as not to fragment the free space further: it is taken from the smallest block (a prefix all of whose addresses are in the set and not reserved, and that isn't a part of a larger such prefix) that can hold a prefix of the requested length. No larger block is broken up as long as a smaller one that is large enough is left.",
 ["inputs"], "all sets, all reserved sets (overlapping in any way), all lengths and all shapes of free space",
 "Tests compare with a handful of sets; a search that prefers a wrong block still returns available prefixes, so nothing else notices.",
 f("setnode.go", "set.go"),
 [("the best of both halves", "setnode.go best, findSmallestContainingPrefix, FindSmallestContainingPrefix"), ("the prefix is taken from the block", "set.go FindAvailablePrefix")])
prop("C37", "Operations have no hidden state and no side effects",
 "Operations work on their receivers, their arguments and new memory only: none of them writes package-level variables, or memory that these refer to, without synchronisation; none starts goroutines, writes output, or depends on the clock, random numbers, the environment, files or the network. So values that aren't mutable collections can be used from any number of goroutines at once, and the same arguments always give the same result.",
 ["schedules", "inputs", "programs"], "all functions reachable from the public interface, all programs that use it from several goroutines",
 "A package-level buffer or cache works in every single-threaded test; it shows only when two goroutines happen to meet in it.",
 f("address.go", "mask.go", "prefix.go", "range.go", "set.go", "setnode.go", "node.go", "table.go", "tablex.go") + ["ipv6/uint128.go", "ip/address.go", "ip/prefix.go", "ip/mask.go", "ip/range.go"],
 [("no package-level state besides constants", "all files of ipv4, ipv6 and ip")])
prop("C38", "Texts of sets and ranges list exactly what they hold",
 "The text of a set is the list of the texts of its prefixes (the fewest, largest ones that cover it) in order, separated by a comma and a space, in brackets; that of an empty set is []. The text of a range is that of its first and its last address, separated by a comma, in brackets.",
 ["inputs"], "all sets and all ranges",
 "Separators and omissions depend on the number of prefixes and on which ones there are; tests look at a few texts.",
 f("set.go", "range.go"),
 [("text of a set from a walk over its prefixes", "set.go Set.String"), ("text of a range", "range.go Range.String")])
with open("/verif/properties.jsonl", "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps(p) + "\n")
print(len(P))
