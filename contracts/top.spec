// Pointers are sorted by address with Sort and a Lesswap of the package.

family P : REC=MaxLenRecFC A=
use check

func sort$X(s)
  requires own: own(s)
  concurrent if len(s)-1 > 2*MaxLenRecFC
  modifies s
  ensures sorted(s)
  ensures perm()
end

// Exported functions. The argument is an interface holding a value of any type; K0 is the
// reflect.Kind of its type, K1 of its element type, K2 of the element type's element
// type; rptr, rlen are the slice's data address and length, view(c) is that slice
// as seen by functions on elements of memory class c.
// Kinds: 2 int, 5 int32, 6 int64, 7 uint, 8 uint8, 10 uint32, 11 uint64, 12 uintptr,
// 13 float32, 14 float64, 22 pointer, 23 slice, 24 string, 26 unsafe.Pointer.

func SortSlice(ar)
  panics iff !(ar != nil && K0 == 23 && (K1 == 2 || K1 == 5 || K1 == 6 || K1 == 7 || K1 == 10 || K1 == 11 || K1 == 12 || K1 == 13 || K1 == 14 || K1 == 22 || K1 == 24 || K1 == 26 || K1 == 23 && K2 == 8))
  requires own: own(view(i32))
  requires own: own(view(i64))
  requires own: own(view(u32))
  requires own: own(view(u64))
  requires own: own(view(ptr))
  requires own: own(view(str))
  requires own: own(view(slc))
  requires own: own(view(f32))
  requires own: own(view(f64))
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, view(f32), 0, rlen, !nan(x)))
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, view(f64), 0, rlen, !nan(x)))
  modifies view(i32)
  modifies view(i64)
  modifies view(u32)
  modifies view(u64)
  modifies view(ptr)
  modifies view(str)
  modifies view(slc)
  modifies view(f32)
  modifies view(f64)
  ensures imp((K1 == 5 || K1 == 2 && wordbits == 32), sorted(view(i32)))
  ensures imp((K1 == 6 || K1 == 2 && wordbits == 64), sorted(view(i64)))
  ensures imp((K1 == 10 || (K1 == 7 || K1 == 12) && wordbits == 32), sorted(view(u32)))
  ensures imp((K1 == 11 || (K1 == 7 || K1 == 12) && wordbits == 64), sorted(view(u64)))
  ensures imp((K1 == 22 || K1 == 26), sorted(view(ptr)))
  ensures imp(K1 == 24, sorted(view(str)))
  ensures imp((K1 == 23 && K2 == 8), sorted(view(slc)))
  ensures imp(K1 == 13 && NaNoption == NaNlarge, eachpair(x, y, view(f32), nan(y) || !nan(x) && x <= y))
  ensures imp(K1 == 13 && NaNoption == NaNsmall, eachpair(x, y, view(f32), nan(x) || !nan(y) && x <= y))
  ensures imp(K1 == 13 && NaNoption != NaNlarge && NaNoption != NaNsmall, sorted(view(f32)))
  ensures imp(K1 == 14 && NaNoption == NaNlarge, eachpair(x, y, view(f64), nan(y) || !nan(x) && x <= y))
  ensures imp(K1 == 14 && NaNoption == NaNsmall, eachpair(x, y, view(f64), nan(x) || !nan(y) && x <= y))
  ensures imp(K1 == 14 && NaNoption != NaNlarge && NaNoption != NaNsmall, sorted(view(f64)))
  ensures perm()

func IsSortedSlice(ar)
  panics iff !(ar != nil && K0 == 23 && (K1 == 2 || K1 == 5 || K1 == 6 || K1 == 7 || K1 == 10 || K1 == 11 || K1 == 12 || K1 == 13 || K1 == 14 || K1 == 22 || K1 == 24 || K1 == 26 || K1 == 23 && K2 == 8))
  requires own: own(view(i32))
  requires own: own(view(i64))
  requires own: own(view(u32))
  requires own: own(view(u64))
  requires own: own(view(ptr))
  requires own: own(view(str))
  requires own: own(view(slc))
  requires own: own(view(f32))
  requires own: own(view(f64))
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, view(f32), 0, rlen, !nan(x)))
  requires imp(NaNoption != NaNlarge && NaNoption != NaNsmall, each(x, view(f64), 0, rlen, !nan(x)))
  reads view(i32)
  reads view(i64)
  reads view(u32)
  reads view(u64)
  reads view(ptr)
  reads view(str)
  reads view(slc)
  reads view(f32)
  reads view(f64)
  ensures imp((K1 == 5 || K1 == 2 && wordbits == 32), r >= 0 && r <= rlen && imp(r == 0, sorted(view(i32))) && imp(r != 0, r < rlen && view(i32)[r] < view(i32)[r-1]))
  ensures imp((K1 == 6 || K1 == 2 && wordbits == 64), r >= 0 && r <= rlen && imp(r == 0, sorted(view(i64))) && imp(r != 0, r < rlen && view(i64)[r] < view(i64)[r-1]))
  ensures imp((K1 == 10 || (K1 == 7 || K1 == 12) && wordbits == 32), r >= 0 && r <= rlen && imp(r == 0, sorted(view(u32))) && imp(r != 0, r < rlen && view(u32)[r] < view(u32)[r-1]))
  ensures imp((K1 == 11 || (K1 == 7 || K1 == 12) && wordbits == 64), r >= 0 && r <= rlen && imp(r == 0, sorted(view(u64))) && imp(r != 0, r < rlen && view(u64)[r] < view(u64)[r-1]))
  ensures imp((K1 == 22 || K1 == 26), r >= 0 && r <= rlen && imp(r == 0, sorted(view(ptr))) && imp(r != 0, r < rlen && view(ptr)[r] < view(ptr)[r-1]))
  ensures imp(K1 == 24, r >= 0 && r <= rlen && imp(r == 0, sorted(view(str))) && imp(r != 0, r < rlen && view(str)[r] < view(str)[r-1]))
  ensures imp((K1 == 23 && K2 == 8), r >= 0 && r <= rlen && imp(r == 0, sorted(view(slc))) && imp(r != 0, r < rlen && view(slc)[r] < view(slc)[r-1]))
  ensures imp(K1 == 13, r >= 0 && r <= rlen && imp(r != 0, r < rlen))
  ensures imp(K1 == 13 && r == 0 && NaNoption == NaNlarge, eachpair(x, y, view(f32), nan(y) || !nan(x) && x <= y))
  ensures imp(K1 == 13 && r == 0 && NaNoption == NaNsmall, eachpair(x, y, view(f32), nan(x) || !nan(y) && x <= y))
  ensures imp(K1 == 13 && r == 0 && NaNoption == NaNignore, sorted(view(f32)))
  ensures imp(K1 == 13 && r != 0 && NaNoption == NaNlarge, !nan(view(f32)[r]) && nan(view(f32)[r-1]) || !nan(view(f32)[r]) && view(f32)[r] < view(f32)[r-1])
  ensures imp(K1 == 13 && r != 0 && NaNoption == NaNsmall, nan(view(f32)[r]) || nan(view(f32)[r-1]) || view(f32)[r] < view(f32)[r-1])
  ensures imp(K1 == 13 && r != 0 && NaNoption == NaNsmall && nan(view(f32)[r]), some(x, view(f32), 0, r, !nan(x)))
  ensures imp(K1 == 13 && r != 0 && NaNoption == NaNsmall && nan(view(f32)[r-1]), some(x, view(f32), 0, r-1, !nan(x)))
  ensures imp(K1 == 13 && r != 0 && NaNoption == NaNignore, view(f32)[r] < view(f32)[r-1])
  ensures imp(K1 == 14, r >= 0 && r <= rlen && imp(r != 0, r < rlen))
  ensures imp(K1 == 14 && r == 0 && NaNoption == NaNlarge, eachpair(x, y, view(f64), nan(y) || !nan(x) && x <= y))
  ensures imp(K1 == 14 && r == 0 && NaNoption == NaNsmall, eachpair(x, y, view(f64), nan(x) || !nan(y) && x <= y))
  ensures imp(K1 == 14 && r == 0 && NaNoption == NaNignore, sorted(view(f64)))
  ensures imp(K1 == 14 && r != 0 && NaNoption == NaNlarge, !nan(view(f64)[r]) && nan(view(f64)[r-1]) || !nan(view(f64)[r]) && view(f64)[r] < view(f64)[r-1])
  ensures imp(K1 == 14 && r != 0 && NaNoption == NaNsmall, nan(view(f64)[r]) || nan(view(f64)[r-1]) || view(f64)[r] < view(f64)[r-1])
  ensures imp(K1 == 14 && r != 0 && NaNoption == NaNsmall && nan(view(f64)[r]), some(x, view(f64), 0, r, !nan(x)))
  ensures imp(K1 == 14 && r != 0 && NaNoption == NaNsmall && nan(view(f64)[r-1]), some(x, view(f64), 0, r-1, !nan(x)))
  ensures imp(K1 == 14 && r != 0 && NaNoption == NaNignore, view(f64)[r] < view(f64)[r-1])

family Len :
func SortLen(ar)
  panics iff !(ar != nil && K0 == 23 && (K1 == 24 || K1 == 23))
  requires own: own(view(str))
  requires own: own(view(slc))
  modifies view(str)
  modifies view(slc)
  ensures imp(K1 == 24, sorted(view(str)))
  ensures imp(K1 == 23, sorted(view(slc)))
  ensures perm()

func IsSortedLen(ar)
  panics iff !(ar != nil && K0 == 23 && (K1 == 24 || K1 == 23))
  requires own: own(view(str))
  requires own: own(view(slc))
  reads view(str)
  reads view(slc)
  ensures imp(K1 == 24, r >= 0 && imp(r == 0, sorted(view(str))) && imp(r != 0, r < rlen && view(str)[r] < view(str)[r-1]))
  ensures imp(K1 == 23, r >= 0 && imp(r == 0, sorted(view(slc))) && imp(r != 0, r < rlen && view(slc)[r] < view(slc)[r-1]))
end
