#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)
import json
ALLT=["sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortyS.go","sortyB.go"]
LENF=["sortyLenS.go","sortyLenB.go"]
FLT=["sortyF4.go","sortyF8.go"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=obs or [],hook_needed=None)))
p("C01","SortSlice leaves integer, pointer, string and byte slices ascending",
 "After SortSlice returns on a slice of any supported non-float type, every element is less than or equal to the next one: signed order for signed integers, unsigned order for unsigned integers, uintptrs and pointers, lexicographic byte order for strings and byte slices. This holds for every length, every content and every value of MaxGor.",
 ["inputs","schedules","configurations"],"every slice length and content, every supported non-float element type, every MaxGor value, every goroutine schedule",
 "The tests sort a few random 10M-element buffers of uint32 and some other types; they sample contents, never structured ones (runs, few distinct values, organ pipes, boundary lengths around the insertion/recursion thresholds).",
 ["sortySlice.go","sorty.go"]+ALLT,
 [("partition postcondition: left side <= pivot <= right side","partOne*/partTwo*/partCon* in sortyI4.go and siblings"),("insertion sort of short ranges","insertion*"),("recursion covers both sides","short*, long*, sort*"),("dispatch to the type's sorter","SortSlice, extractSK")],
 obs=["SortSlice"])
p("C02","SortSlice and SortLen only permute the slice and touch nothing else",
 "The result of SortSlice and SortLen holds exactly the elements of the input, each as many times as before and bit for bit (including NaN payloads, signed zeros and the identity of equal strings or slices). No memory outside the first len elements is written: neither spare capacity, nor neighbouring elements of a larger array, nor the bytes that strings and byte slices refer to.",
 ["inputs","schedules","configurations"],"every slice, sub-slice and content, every MaxGor value, every schedule",
 "Tests compare values with sort.Slice on whole random buffers; a lost/duplicated element among equals, or a write just outside the range, needs particular contents and a guarded sub-slice to be seen.",
 ["sortySlice.go","sortyLen.go"]+ALLT+FLT+LENF,
 [("exchange-only partitioning, shift-and-place insertion","partOne*, partTwo*, partCon*, insertion*"),("three-index sub-slicing","short*, long*, sort*"),("NaN relocation by exchange","sortF4, sortF8")],obs=["SortSlice","SortLen"])
p("C03","Float slices are ordered with NaNs grouped at the chosen end",
 "After SortSlice on a float32 or float64 slice, with NaNoption = NaNlarge all NaNs form the tail, with NaNsmall all NaNs form the head, and all other elements are ascending (-0 and +0 compare equal, infinities are ordinary extremes). With NaNignore the same ascending order holds for slices without NaNs.",
 ["inputs","schedules","configurations"],"every float slice including any number and placement of NaNs, signed zeros and infinities, both NaN options, every MaxGor value",
 "Tests reinterpret random bits as float32, so NaNs are ~0.4% and uniformly spread; all-NaN, NaN-only-at-one-end and short slices are not exercised, float64 NaNs hardly at all.",
 FLT+["sorty.go","sortySlice.go"],[("NaN relocation loops","sortF4, sortF8"),("NaN-free sorting of the rest","longF*, shortF*, insertionF*")],
 state=[dict(name="NaNoption",meaning="where NaNs are placed",where="sorty.go")],obs=["SortSlice","IsSortedSlice"])
p("C04","SortLen orders strings and slices by length",
 "After SortLen returns on a []string or [][]T for any element type T, lengths of consecutive elements never decrease. This holds for every number of elements, any mix of lengths including empty and nil ones, and every MaxGor value.",
 ["inputs","schedules","configurations"],"every []string and [][]T, every distribution of lengths, every MaxGor value",
 "Tests use random lengths up to 40M so ties almost never occur; few distinct lengths, T other than byte, and zero lengths are untested.",
 LENF+["sortyLen.go","sorty.go"],[("partition by length","partOneLen*, partTwoLen*, partConLen*"),("pivot by mean of middle lengths","pivotLen*, shortLen*"),("dispatch on string or any slice element","SortLen, extractSK")],obs=["SortLen","IsSortedLen"])
p("C05","Sort orders any collection described by a valid Lesswap",
 "For every n and every Lesswap whose comparison is a strict weak order and which swaps as documented, after Sort(n, lsw) no element compares less than its predecessor. This holds whichever goroutines ran and in whatever order.",
 ["inputs","schedules","configurations"],"every n >= 0, every collection content, every strict weak order, every MaxGor value, every schedule",
 "Tests cover a few random collections with one comparator per type; the concurrent partition's moved-pivot cases occur only for particular contents.",
 ["sortyLsw.go"],[("pivot kept in place, followed when a gap-closing swap moves it","partCon"),("in-place partition around a pivot position","partOne, partTwo"),("median samples moved to both ends","pivot, short")],obs=["Sort"])
p("C06","Sort drives the collection only through in-range, documented Lesswap calls",
 "Every call that Sort and IsSorted make to the user's Lesswap passes four indices within [0,n), and whatever Sort rearranges it rearranges only by the swaps those calls perform, so the collection is a permutation of what it was. IsSorted never causes a swap, and collections with fewer than two elements cause no call at all.",
 ["inputs","schedules","configurations"],"every n, every content and comparator outcome consistent with a strict weak order, every MaxGor value",
 "Tests only see a bad index if it happens to fall outside the test's buffer; sub-range collections and the calls made at range borders are not observed.",
 ["sortyLsw.go"],[("range arithmetic of the partition and insertion loops","insertion, pivot, partOne, partTwo, partCon, short, long, Sort"),("3rd = 4th argument disables swap","IsSorted, partOne, partTwo")],obs=["Sort","IsSorted"])
p("C07","IsSorted, IsSortedSlice and IsSortedLen report exactly",
 "They return 0 exactly when the collection is in the order the matching sort function produces (for floats: with NaNs at the end NaNoption selects), and otherwise an index i with 0 < i < n where element i is out of order with respect to element i-1, or one of the two is a NaN. With NaNignore this holds for slices without NaNs. They never modify the collection.",
 ["inputs","configurations"],"every collection of every supported type, every NaNoption",
 "Tests call them almost only on sorted data and accept 0; a checker that misses inversions would make every other test pass.",
 ["sortyLsw.go","sortySlice.go","sortyLen.go"]+ALLT+FLT+LENF,[("downward scan comparing neighbours","isSorted*, IsSorted"),("NaN trimming at one end","isSortedF4, isSortedF8")],obs=["IsSorted","IsSortedSlice","IsSortedLen"])
p("C08","Search finds the boundary of a monotone predicate",
 "For every n >= 0 and every predicate that stays true once true, Search(n, fn) returns the lowest k in [0,n) with fn(k) true, or n if there is none. It calls fn only with indices in [0,n), terminates for every n up to the largest int, and needs a number of calls logarithmic in n.",
 ["inputs"],"every n in [0, MaxInt], every monotone predicate",
 "One test with two lookups in one 140-element slice; large n (midpoint overflow) and boundary answers are not sampled.",
 ["sorty.go"],[("halving with an overflow-free mean","Search")],obs=["Search"])
p("C09","A Sort call returns only after all its work is done, and always returns",
 "When SortSlice, SortLen or Sort returns, every sub-range handed to another goroutine has been completely sorted, and no goroutine it started will touch the collection again or stay blocked. For every schedule each message on the call's channel is received by the party it is meant for, so the call neither deadlocks nor returns early.",
 ["schedules","inputs","configurations"],"every interleaving of the goroutines of one call, every input, every MaxGor history",
 "Tests run whatever schedules the scheduler happens to produce on a machine where the caller usually finishes last; an early return or a stuck sender needs a particular order of the last decrements.",
 ALLT+FLT+LENF+["sortyLsw.go","sorty.go"],
 [("live-goroutine counter: +1 before spawn, -1 at end, last one signals","gLong*, sort*, Sort"),("caller waits unless it is last","sort*, Sort"),("channel shared between partition result and end signal","gPartOne*, partCon*")],
 state=[dict(name="nGor",meaning="number of sorting goroutines not finished",where="sorty.go syncVar"),dict(name="done",meaning="end signal / partition result channel",where="sorty.go syncVar")],obs=["SortSlice","SortLen","Sort"])
p("C10","Goroutines of one Sort call never race on elements",
 "At any moment each element of the collection is written by at most one goroutine of the call, and an element one goroutine may write is not read by another, so sorting is free of data races on the collection for every schedule. Concurrent Sort calls on disjoint collections share no mutable state except the documented option variables, which the package never writes.",
 ["schedules","inputs","configurations"],"every interleaving, every input, every split position",
 "Tests are not run under the race detector with overlapping splits; an off-by-one overlap between the halves of a partition corrupts data only in rare interleavings.",
 ALLT+FLT+LENF+["sortyLsw.go"],[("disjoint sub-slices for both partition goroutines","partCon*"),("each half is handed to exactly one goroutine","long*, sort*, Sort")],obs=["SortSlice","SortLen","Sort"])
p("C11","Goroutine use stays within MaxGor and within long ranges",
 "A Sort* call never has more than MaxGor goroutines (including the caller) sorting at once, for a MaxGor that does not change during the call. If MaxGor <= 1 or the input is short, it creates no goroutine and no channel; a sorting goroutine is only ever started for a range longer than the MaxLenRec limit that applies to its type.",
 ["schedules","inputs","configurations"],"every schedule, input length and MaxGor value",
 "No test counts goroutines; exceeding the limit needs two goroutines to check the quota at the same time.",
 ["sorty.go","sortyLsw.go"]+ALLT+FLT+LENF,[("quota check before spawning","gorFull, long*, sort*, Sort"),("length thresholds","sort*, Sort")],
 state=[dict(name="MaxGor",meaning="goroutine limit per call",where="sorty.go")],obs=["SortSlice","SortLen","Sort"])
p("C12","No Sort, IsSorted or Search call panics or leaves its bounds",
 "For every valid argument, no public function performs an out-of-range index or slice operation, a nil dereference, a division by zero or any other run-time panic, whatever the contents. This includes empty and nil slices, all-equal contents and extreme values.",
 ["inputs","schedules","configurations"],"every valid input to every public function",
 "Partition results at the very border of a range (empty side) would panic, but only for contents that put every sample on one side; random data never does.",
 ALLT+FLT+LENF+["sorty.go","sortyLsw.go"],[("partition never yields an empty side","pivot*, partOne*, short*"),("loop bounds","all loops")],obs=["SortSlice","SortLen","Sort","IsSorted*","Search"])
p("C13","Every call terminates",
 "Every loop and recursion of the sorting, checking and searching functions makes progress: each recursive call or loop round works on a strictly smaller range, for every input (NaNs while NaNoption is NaNignore excepted). In particular both sides of a partition are non-empty whatever the contents.",
 ["inputs","schedules","configurations"],"every input, including adversarial, constant and NaN-containing ones",
 "A split that leaves the range unchanged loops forever only for specific contents that random tests do not produce.",
 ALLT+FLT+LENF+["sorty.go","sortyLsw.go"],[("strictly smaller sub-ranges","short*, long*, sort*"),("index moves in scanning loops","partOne*, partTwo*, insertion*, isSorted*, Search")],obs=["SortSlice","SortLen","Sort","Search"])
p("C14","Extra memory is logarithmic: recursion only descends into the shorter half",
 "Sorting is in place: nested calls within one goroutine are at most about log2(n) deep because every recursive call works on at most half of the caller's range. No memory proportional to the input is allocated.",
 ["inputs","configurations"],"every input including adversarial ones",
 "Go grows stacks silently up to 1 GB, so linear recursion depth passes every test with random data.",
 ALLT+FLT+LENF+["sortyLsw.go"],[("recursion on the shorter range, iteration on the longer","short*, long*"),("no allocation besides one channel and counter","sort*, Sort")],obs=["SortSlice","SortLen","Sort"])
p("C15","Exactly the documented slice types are accepted, and each gets its own order",
 "SortSlice and IsSortedSlice accept exactly the slices whose element kind is int, int32, int64, uint, uint32, uint64, uintptr, float32, float64, string, pointer, unsafe.Pointer or byte slice, SortLen and IsSortedLen exactly []string and [][]T, including defined types over these; each is processed with the order and width of its own kind on 32- and 64-bit platforms. Any other argument, nil included, panics without modifying anything.",
 ["inputs","configurations"],"every dynamic type of the argument, both word sizes",
 "Tests use seven concrete types and never an unsupported one; uint, uintptr, pointers, named types and panics are untested.",
 ["sorty.go","sortySlice.go","sortyLen.go"],[("kind mapping","extractSK"),("dispatch switches","SortSlice, IsSortedSlice, SortLen, IsSortedLen")],obs=["SortSlice","IsSortedSlice","SortLen","IsSortedLen"])
p("C16","Reinterpreting slices never hides pointers from the garbage collector",
 "Whenever a slice is rearranged through a view of another element type, the view has the same size and the same pointer layout as the real elements. Hence objects referenced only from the slice being sorted stay alive and intact even if the garbage collector runs during the sort.",
 ["inputs","schedules"],"every supported element type, every interleaving with the garbage collector",
 "No test sorts pointers; losing an object needs a collection cycle that scans the slice while elements move.",
 ["sorty.go","sortySlice.go","sortyLen.go"],[("slice header reinterpretation","SortSlice, SortLen, extractSK, insertionI")],obs=["SortSlice","SortLen"])
p("C17","Pivot samples are distinct, in range, equidistant and centred",
 "For every range length slen >= 2n and sample count n >= 2, the n sampled positions lie inside the range, are at least 2 apart, equally spaced, leave tails that differ by at most one, and minimise the largest distance from any element to the nearest sample. The four-sample shortcut selects the same positions as the general rule for every length.",
 ["inputs"],"every slen >= 2n, n >= 2 in the machine range",
 "The test enumerates lengths up to 1800 and n up to 24; larger lengths (including beyond 32 bits) are not covered.",
 ["sorty.go"],[("step and tail arithmetic","minMaxSample"),("table-driven variant","minMaxFour")],obs=["minMaxSample","minMaxFour"])
p("C18","The guarantees hold for every admissible tuning and on 32-bit targets",
 "With the tuning build, for every values of MaxLenIns, MaxLenInsFC, MaxLenRec and MaxLenRecFC that the package's own start-up check admits (and that are below 2^31, or 2^29 where int has 32 bits), all Sort* functions still sort, permute, stay in bounds and terminate; inadmissible values are rejected at start-up. The same holds when int, uint and pointers are 32 bits wide.",
 ["configurations","inputs"],"every admissible parameter vector; 32-bit word size",
 "The tests run only the default parameters on a 64-bit machine.",
 ["maxv.go","maxc.go","sorty.go"]+ALLT+FLT+LENF+["sortyLsw.go"],[("start-up check","init"),("length thresholds","short*, long*, sort*, Sort"),("word-size selection","insertionI, extractSK")],obs=["package initialisation","SortSlice","SortLen","Sort"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
