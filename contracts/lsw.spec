// Lesswap based functions. A is the collection the user's Lesswap works on, seen as
// a sequence of keys: lsw(i,k,r,s) returns A[i] < A[k], and if so and r != s, swaps A[r]
// and A[s]. Any strict weak order on finitely many elements has such keys.

func IsSorted(n, lsw)
  requires own: rd(A, 0, n)
  requires 0 <= n
  invokes if n >= 2
  ensures 0 <= r
  ensures imp(r == 0, sorted(A, 0, n))
  ensures imp(r != 0, r < n && A[r] < A[r-1])

func insertion(lsw, lo, hi)
  requires own: own(A, lo, hi+1)
  requires 0 <= lo && lo <= hi && hi < maxint
  invokes if lo < hi
  modifies span(A, lo, hi+1)
  ensures sorted(A, lo, hi+1)

func pivot(lsw, lo, hi, n)
  attr unroll
  cases n 5 7
  requires own: own(A, lo, hi+1)
  requires 0 <= lo && hi < maxint && hi+1-lo >= 2*n
  modifies span(A, lo, hi+1)
  ensures lo+3 <= r && r+3 <= hi
  ensures A[lo] <= A[r] && A[r] <= A[hi]

func partOne(lsw, l, pv, h)
  requires own: own(A, l, h+1, pv)
  requires own: rd(A, pv, pv+1)
  requires 0 <= l && l <= h+1 && h < maxint && 0 <= pv && pv < maxint
  modifies span(A, l, h+1, pv)
  reads span(A, pv, pv+1)
  ensures l <= r && r <= h+1
  ensures each(x, A, l, r, x <= A[pv])
  ensures each(x, A, r, h+1, A[pv] <= x)

func partTwo(lsw, lo, l, pv, h, hi)
  requires own: own(A, lo, l+1)
  requires own: own(A, h, hi+1)
  requires own: rd(A, pv, pv+1)
  requires 0 <= lo && lo <= l && l < pv && pv < h && h <= hi && hi < maxint
  modifies span(A, lo, l+1)
  modifies span(A, h, hi+1)
  reads span(A, pv, pv+1)
  ensures lo-1 <= r && r <= hi+1
  ensures r <= l || r >= h
  ensures imp(r <= l, each(x, A, r+1, l+1, x <= A[pv]) && each(x, A, h, hi+1, A[pv] <= x))
  ensures imp(r >= h, each(x, A, lo, l+1, x <= A[pv]) && each(x, A, h, r, A[pv] <= x))

func partCon(lsw, lo, hi, ch)
  requires own: own(A, lo, hi+1)
  requires 0 <= lo && hi < maxint
  requires quota: hi-lo > 2*MaxLenRecFC
  requires join: tok >= 2
  modifies span(A, lo, hi+1)
  ensures lo < r && r <= hi
  ensures pairs(A, lo, r, r, hi+1)

func short(lsw, lo, hi)
  requires own: own(A, lo, hi+1)
  requires 0 <= lo && hi < maxint && hi-lo >= 5
  modifies span(A, lo, hi+1)
  decreases hi-lo
  ensures sorted(A, lo, hi+1)

func long(lsw, lo, hi, sv)
  requires own: own(A, lo, hi+1)
  requires 0 <= lo && hi < maxint
  requires quota: hi-lo >= MaxLenRecFC
  requires join: imp(sv != nil, tok >= 1)
  concurrent if sv != nil
  modifies span(A, lo, hi+1)
  consumes span(A, lo, hi+1) if sv != nil
  decreases hi-lo
  ensures sorted(A, lo, hi+1)

func Sort(n, lsw)
  requires own: own(A, 0, n)
  concurrent if n-1 > 2*MaxLenRecFC
  requires 0 <= n
  invokes if n >= 2
  modifies span(A, 0, n)
  ensures sorted(A, 0, n)
  ensures perm()

func Search(n, fn)
  requires n >= 0
  requires mono()
  budget n
  ensures 0 <= r && r <= n
  ensures imp(r < n, pred(r))
  ensures imp(r > 0, !pred(r-1))

