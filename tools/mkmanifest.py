#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json
T="contract-based deductive verification of the real code (SSA of the current source, contracts in /verif/contracts, z3)"
N={
"C01":"For all inputs, lengths and schedules: sorted postconditions of every non-float sorting function and of SortSlice. Trusts reflect/unsafe contracts, key model of string and byte slice comparison, Go memory model.",
"C02":"For all inputs: a ghost count of every element value is unchanged and all writes are within the slice (frame). Element copies are bit copies by Go semantics.",
"C03":"For all float contents: NaNs grouped, others ascending. Floats are abstract values with key and NaN predicate.",
"C04":"For all lengths: SortLen's result ascends by length; element type of [][]T is irrelevant to headers.",
"C05":"For every n and every strict weak order with finitely many elements (represented by keys).",
"C06":"For every n up to the largest int and any answers of Lesswap.",
"C07":"For all inputs: results of checking functions characterised exactly; nothing is written.",
"C08":"For every n and monotone predicate; call count by a ghost budget that halves.",
"C09":"Token protocol of counter and channel, for any number of goroutines and any interleaving of synchronization steps.",
"C10":"Ownership of element addresses is exclusive at every access, for all schedules.",
"C11":"A place within MaxGor is held for each goroutine started; ranges are long at each start.",
"C12":"No index, slice, nil, division or conversion panic; no overflow of index arithmetic. Stack growth is assumed not to fail.",
"C13":"A measure for every loop and recursion, found and proved by the verifier.",
"C14":"Recursive calls get at most half of the caller's range; no allocation besides the fixed synchronization variables.",
"C15":"By reflect.Kind of the argument and its element types, on 64 and 32 bits; contracts of reflect are trusted.",
"C16":"Layout obligation at every reinterpretation of a slice, on 64 and 32 bits.",
"C17":"For every length and sample count, with mathematical integers in machine ranges.",
"C18":"All of the functions with symbolic limits restricted by the start-up check (below 2^31), and with 32 bit words.",
}
m=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=k,quick_cmd="bash check.sh "+k,thorough_cmd="VERIF_TIER=thorough bash check.sh "+k,technique=T,level="proof",level_note=v) for k,v in sorted(N.items())],not_applicable=[],
notes="known-findings.txt lists genuine defects (all repaired by fix: commits). No hooks in /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
