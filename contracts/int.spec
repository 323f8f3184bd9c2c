// What the start-up check admits (see init in sorty.go)
admissible MaxLenRec > MaxLenRecFC && MaxLenRecFC > 2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 8

// Sorting functions of one element type X. Comparisons are by the key of X: value,
// or length for Len*.

template check
func isSorted$X(s)
  requires own: own(s)
  reads s
  ensures 0 <= r
  ensures imp(r == 0, sorted(s))
  ensures imp(r != 0, r < len(s) && s[r] < s[r-1])
end

template insertion
func insertion$X(s)
  attr $A
  requires own: own(s)
  modifies s
  ensures sorted(s)
  ensures perm()
end

template sort
func pivot$X(s, n)
  attr unroll $A
  cases n $N
  requires own: own(s)
  requires len(s) >= 2*n
  reads s
  ensures split: old(some3(x, s, 0, len(s), x <= r))
  ensures split: old(some3(x, s, 0, len(s), r <= x))

func partOne$X(s, pv)
  attr $A
  requires own: own(s)
  modifies s
  ensures 0 <= r && r <= len(s)
  ensures each(x, s, 0, r, x <= pv)
  ensures each(x, s, r, len(s), pv <= x)
  ensures split: imp(r == 0, old(each(x, s, 0, len(s)-1, pv < x)))
  ensures split: imp(r == len(s), old(each(x, s, 1, len(s), x < pv)))
  ensures perm()

func partTwo$X(s, l, h, pv)
  attr $A
  requires own: own(s, 0, l)
  requires own: own(s, h, len(s))
  requires 1 <= l && l <= h && h < len(s)
  modifies span(s, 0, l)
  modifies span(s, h, len(s))
  ensures -1 <= r && r <= len(s)
  ensures r < l || r >= h
  ensures imp(r < l, each(x, s, r+1, l, x <= pv) && each(x, s, h, len(s), pv <= x))
  ensures imp(r >= h, each(x, s, 0, l, x <= pv) && each(x, s, h, r, pv <= x))
  ensures split: imp(r == l-1, old(each(x, s, h+1, len(s), pv < x)) && same(s, 0, l))
  ensures split: imp(r == h, old(each(x, s, 0, l-1, x < pv)) && same(s, h, len(s)))
  ensures perm()

func partCon$X(s, ch)
  attr $A
  requires own: own(s)
  requires quota: len(s) >= 2*($REC+1)
  requires join: tok >= 2
  modifies s
  ensures 1 <= r && r < len(s)
  ensures pairs(s, 0, r, r, len(s))
  ensures perm()

func short$X(s)
  attr $A
  requires own: own(s)
  requires len(s) >= 8 && len(s) < 4294967296
  modifies s
  decreases len(s)
  ensures sorted(s)
  ensures perm()

func long$X(s, sv)
  attr $A
  requires own: own(s)
  requires quota: len(s) > $REC
  requires join: imp(sv != nil, tok >= 1)
  concurrent if sv != nil
  modifies s
  consumes s if sv != nil
  decreases len(s)
  ensures sorted(s)
  ensures perm()
end

template top
func sort$X(s)
  requires own: own(s)
  concurrent if len(s) >= 2*($REC+1)
  modifies s
  ensures sorted(s)
  ensures perm()
end

family I8 I4 U8 U4 LenS LenB : REC=MaxLenRec N=6,8 A=
use check
use insertion
use sort
use top

family S B : REC=MaxLenRecFC N=5,7 A=
use check
use insertion
use sort
use top

family F8 F4 : REC=MaxLenRec N=5,7 A=nonan
use insertion
use sort

func isSorted$X(s)
  requires own: own(s)
  reads s
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, s, 0, len(s), !nan(x)))
  ensures 0 <= r
  ensures imp(r == 0 && NaNoption == NaNlarge, eachpair(x, y, s, nan(y) || !nan(x) && x <= y))
  ensures imp(r == 0 && NaNoption == NaNsmall, eachpair(x, y, s, nan(x) || !nan(y) && x <= y))
  ensures imp(r == 0 && NaNoption == NaNignore, sorted(s))
  ensures imp(r != 0, r < len(s))
  ensures imp(r != 0 && NaNoption == NaNlarge, !nan(s[r]) && nan(s[r-1]) || !nan(s[r]) && s[r] < s[r-1])
  ensures imp(r != 0 && NaNoption == NaNsmall, nan(s[r]) || nan(s[r-1]) || s[r] < s[r-1])
  ensures imp(r != 0 && NaNoption == NaNsmall && nan(s[r]), some(x, s, 0, r, !nan(x)))
  ensures imp(r != 0 && NaNoption == NaNsmall && nan(s[r-1]), some(x, s, 0, r-1, !nan(x)))
  ensures imp(r != 0 && NaNoption == NaNignore, s[r] < s[r-1])

func sort$X(s)
  requires own: own(s)
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, s, 0, len(s), !nan(x)))
  concurrent if len(s) >= 2*(MaxLenRec+1)
  modifies s
  ensures imp(NaNoption == NaNlarge, eachpair(x, y, s, nan(y) || !nan(x) && x <= y))
  ensures imp(NaNoption == NaNsmall, eachpair(x, y, s, nan(x) || !nan(y) && x <= y))
  ensures imp(NaNoption != NaNlarge && NaNoption != NaNsmall, sorted(s))
  ensures perm()
