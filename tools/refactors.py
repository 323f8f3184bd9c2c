"""edits that keep the behaviour, to see that checks stay quiet (tools/runref.sh)"""
import re
REFS = {}

def ref(id, props, *edits):
    """edit: (file, old, new) replaces text, (file, 'func name', new text) a function"""
    REFS[id] = (props, edits)

# ---- one element type

ref('ins-for', 'C01 C02 C13 C12', ('sortyI4.go', 'func insertionI4', '''func insertionI4(slc []int32) {
	for h := 1; h < len(slc); h++ {
		val := slc[h]
		l := h
		for l > 0 && val < slc[l-1] {
			slc[l] = slc[l-1]
			l--
		}
		slc[l] = val
	}
}
'''))

ref('split-helper', 'C01 C14 C10 C13', ('sortyI8.go', 'func longI8', '''// splits ar at k, shorter range first
func splitI8(ar []int64, k int) (aq, rest []int64) {
	if k < len(ar)-k {
		return ar[:k:k], ar[k:]
	}
	return ar[k:], ar[:k:k]
}

// long range sort function, assumes len(ar) > MaxLenRec, recursive
func longI8(ar []int64, sv *syncVar) {
	for {
		k := partOneI8(ar, pivotI8(ar, nsLong))
		aq, rest := splitI8(ar, k)
		if len(aq) <= MaxLenRec {
			if len(aq) <= MaxLenIns {
				insertionI8(aq)
			} else {
				shortI8(aq)
			}
			if len(rest) <= MaxLenRec {
				shortI8(rest)
				return
			}
			ar = rest
			continue
		}
		if sv != nil && gorAcquire(sv) {
			go gLongI8(rest, sv)
			ar = aq
		} else {
			longI8(aq, sv)
			ar = rest
		}
	}
}
'''))

ref('con-gap-helper', 'C01 C10 C02', ('sortyU4.go', 'func partConU4', '''func partConU4(slc []uint32, ch chan int) int {

	mid := len(slc) / 2
	l, h := mid/2, sixb.MeanI(mid, len(slc))
	pv := pivotU4(slc, nsConc) // median-of-n pivot

	go gPartOneU4(slc[l:h:h], pv, ch) // mid half range

	r := partTwoU4(slc, l, h, pv) // left/right quarter ranges

	return closeGapU4(slc, mid, r, l+<-ch, pv)
}

// moves elements of remaining gap
func closeGapU4(slc []uint32, mid, r, k int, pv uint32) int {
	if r >= mid {
		for r < len(slc) { // gap left in high range?
			if slc[r] < pv {
				slc[k], slc[r] = slc[r], slc[k]
				k++
			}
			r++
		}
		return k
	}
	for r >= 0 { // gap left in low range?
		if x := slc[r]; pv < x {
			k--
			slc[r] = slc[k]
			slc[k] = x
		}
		r--
	}
	return k
}
'''))

ref('partone-loops', 'C01 C02 C12 C13', ('sortyU8.go', 'func partOneU8', '''func partOneU8(slc []uint64, pv uint64) int {
	l, h := 0, len(slc)-1
	for l < h {
		if slc[h] < pv {
			for slc[l] < pv {
				l++
				if l >= h {
					return l + 1
				}
			}
			slc[l], slc[h] = slc[h], slc[l]
		} else if pv < slc[l] {
			for {
				h--
				if h <= l {
					return l
				}
				if slc[h] <= pv {
					break
				}
			}
			slc[l], slc[h] = slc[h], slc[l]
		}
		l++
		h--
	}
	if l == h && slc[l] < pv {
		return l + 1
	}
	return l
}
'''))

ref('sort-restructure', 'C01 C09 C11 C10', ('sortyI4.go', 'func sortI4', '''func sortI4(ar []int32) {
	const two = 2
	if MaxGor > 1 && len(ar) >= two*(MaxLenRec+1) {
		sortConI4(ar)
		return
	}
	switch n := len(ar); {
	case n > MaxLenRec: // single-goroutine sorting
		longI4(ar, nil)
	case n > MaxLenIns:
		shortI4(ar)
	default:
		insertionI4(ar)
	}
}

// concurrent sorting of dual ranges
func sortConI4(ar []int32) {
	sv := &syncVar{nGor: 2, done: make(chan int)}
	for again := true; again; {
		k := partConI4(ar, sv.done)
		aq, rest := ar[k:], ar[:k:k]
		if k < len(ar)-k {
			aq, rest = rest, aq
		}
		ar = rest

		if len(aq) > MaxLenRec {
			go gLongI4(aq, sv)
		} else {
			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
			if len(aq) > MaxLenIns {
				shortI4(aq)
			} else {
				insertionI4(aq)
			}
		}
		again = len(ar) >= 2*(MaxLenRec+1) && gorAcquire(sv)
	}

	longI4(ar, sv)

	if left := atomic.AddUint64(&sv.nGor, ^uint64(0)); left > 0 {
		<-sv.done
	}
}
'''))

ref('median-helper', 'C01 C13', ('sortyS.go', '''	if pv < f {
		pv, f = f, pv
	}
	if l < pv {
		if l < f {
			pv = f
		} else {
			pv = l // median-of-3 pivot
		}
	}

	k := partOneS(ar, pv)
''', '''	k := partOneS(ar, median3S(f, pv, l))
'''), ('sortyS.go', '// new-goroutine sort function\n', '''// median of three strings
func median3S(a, b, c string) string {
	if b < a {
		a, b = b, a
	}
	if c < a {
		return a
	}
	if c < b {
		return c
	}
	return b
}

// new-goroutine sort function
'''))

ref('pivot-up', 'C01 C04 C17', ('sortyLenS.go', '''	for i := int(n - 1); i >= 0; i-- {
		sample[i] = len(slc[first])
		first += step
	}''', '''	for i := range sample[:n] {
		sample[i] = len(slc[first+uint(i)*step])
	}'''))

ref('short-two-calls', 'C01 C14', ('sortyU4.go', '''	if len(aq) > MaxLenIns {
		shortU4(aq) // recurse on the shorter range
		goto start
	}
isort:
	insertionU4(aq) // at least one insertion range

	if len(ar) > MaxLenIns {
		goto start
	}
	if &ar[0] != &aq[0] {
		aq = ar
		goto isort // two insertion ranges
	}
}''', '''	if len(aq) > MaxLenIns {
		shortU4(aq) // recurse on the shorter range
		goto start
	}
	insertionU4(aq) // at least one insertion range

	if len(ar) > MaxLenIns {
		goto start
	}
	insertionU4(ar) // two insertion ranges
}'''))

# ---- floats

ref('issorted-nan', 'C07', ('sortyF4.go', 'func isSortedF4', '''func isSortedF4(slc []float32) int {
	l, h := 0, len(slc)-1
	switch NaNoption {
	case NaNlarge: // ignore NaNs at the end
		for h >= 0 && slc[h] != slc[h] {
			h--
		}
	case NaNsmall: // ignore NaNs at the start
		for l <= h && slc[l] != slc[l] {
			l++
		}
	}

	for ; h > l; h-- {
		if slc[h] >= slc[h-1] {
			continue
		}
		return h
	}
	return 0
}
'''))

# ---- sorty.go

ref('search-mid', 'C08 C12 C13', ('sorty.go', 'func Search', '''func Search(n int, fn func(int) bool) int {
	lo, cnt := 0, n
	for cnt > 0 {
		half := cnt / 2
		if mid := lo + half; !fn(mid) {
			lo = mid + 1
			cnt -= half + 1
		} else {
			cnt = half
		}
	}
	return lo
}
'''))

ref('acquire-loop', 'C11 C09', ('sorty.go', 'func gorAcquire', '''func gorAcquire(sv *syncVar) bool {
	n := atomic.LoadUint64(&sv.nGor)
	if n >= MaxGor {
		return false
	}
	return atomic.CompareAndSwapUint64(&sv.nGor, n, n+1)
}
'''))

ref('samples', 'C17 C01 C05', ('sorty.go', 'func minMaxSample', '''func minMaxSample(slen, n uint) (first, step, last uint) {
	step = slen / n // ≥ 2
	span := (n - 1) * step
	tail := slen - span // 1 + #members in both tails
	if tail >= n && tail/2 > (step+1)/2 {
		step++
		span = (n - 1) * step
		tail = slen - span
	}
	first = tail / 2 // larger tail
	return first, step, first + span
}
'''))

ref('extract', 'C15 C16', ('sorty.go', '''	switch kind {
	// map all pointer types to unsafe.Pointer
	case reflect.Pointer:
		kind = reflect.UnsafePointer
	// map int/uint/uintptr types to hardware type
	case reflect.Uintptr:
		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
	case reflect.Uint:
		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
	case reflect.Int:
		kind = reflect.Int32 + reflect.Kind(unsafe.Sizeof(int(0))>>3)
''', '''	const long = unsafe.Sizeof(uintptr(0)) == 8
	switch kind {
	// map int/uint/uintptr types to hardware type
	case reflect.Int:
		kind = reflect.Int32
		if long {
			kind = reflect.Int64
		}
	case reflect.Uint, reflect.Uintptr:
		kind = reflect.Uint32
		if long {
			kind = reflect.Uint64
		}
	// map all pointer types to unsafe.Pointer
	case reflect.Pointer:
		kind = reflect.UnsafePointer
'''))

ref('sortp-less', 'C01 C02 C16 C10', ('sorty.go', 'func sortP', '''func sortP(ar []unsafe.Pointer) {
	lsw := func(i, k, r, s int) bool {
		if !(uintptr(ar[i]) < uintptr(ar[k])) {
			return false
		}
		if r == s {
			return true
		}
		x := ar[r]
		ar[r] = ar[s]
		ar[s] = x
		return true
	}
	Sort(len(ar), lsw)
}
'''))

# ---- Lesswap

ref('lsw-insertion', 'C05 C06 C13', ('sortyLsw.go', 'func insertion', '''func insertion(lsw Lesswap, lo, hi int) {
	for h := lo + 1; h <= hi; h++ {
		for l := h; l > lo && lsw(l, l-1, l, l-1); l-- {
		}
	}
}
'''))

ref('lsw-short-helper', 'C05 C06 C14', ('sortyLsw.go', '''	// at least one insertion range, insertion inlined
isort:
	for k := l + 1; k <= h; k++ {
		for i := k; lsw(i, i-1, i, i-1); {
			i--
			if i <= l {
				break
			}
		}
	}

	if no >= MaxLenInsFC {
		goto start
	}
	if lo != l {
		l, h = lo, hi
		goto isort // two insertion ranges
	}
''', '''	insertion(lsw, l, h) // at least one insertion range

	if no >= MaxLenInsFC {
		goto start
	}
	insertion(lsw, lo, hi)
'''))

ref('lsw-longer', 'C05 C10 C14', ('sortyLsw.go', 'func long', '''func long(lsw Lesswap, lo, hi int, sv *syncVar) {
	for {
		pv := pivot(lsw, lo, hi, nsLong-1) // median-of-n pivot
		k := partOne(lsw, lo+1, pv, hi-1)

		// [l,h] is the shorter range
		l, h := lo, k-1
		if h-l < hi-k {
			lo = k
		} else {
			l, h, hi = k, hi, h
		}

		if h-l >= MaxLenRecFC { // two long ranges
			if sv != nil && gorAcquire(sv) {
				go gLong(lsw, lo, hi, sv)
				lo, hi = l, h
			} else {
				long(lsw, l, h, sv)
			}
			continue
		}
		if h-l >= MaxLenInsFC {
			short(lsw, l, h)
		} else {
			insertion(lsw, l, h)
		}
		if hi-lo < MaxLenRecFC {
			short(lsw, lo, hi)
			return
		}
	}
}
'''))

ref('lsw-con', 'C05 C06 C10', ('sortyLsw.go', 'func partCon', '''func partCon(lsw Lesswap, lo, hi int, ch chan int) int {

	pv := pivot(lsw, lo, hi, nsConc-1) // median-of-n pivot
	lo, hi = lo+1, hi-1
	l := sixb.MeanI(lo, pv)
	h := sixb.MeanI(pv, hi)

	go gPartOne(lsw, l+1, pv, h-1, ch) // mid half range

	r := partTwo(lsw, lo, l, pv, h, hi) // left/right quarter ranges
	k := <-ch

	if r >= pv {
		for r <= hi { // gap left in high range?
			if lsw(r, pv, r, k) {
				if pv == k { // swapped pivot when closing gap?
					pv = r
				}
				k++
			}
			r++
		}
		return k
	}
	for r >= lo { // gap left in low range?
		if lsw(pv, r, k-1, r) {
			if pv == k-1 { // swapped pivot when closing gap?
				pv = r
			}
			k--
		}
		r--
	}
	return k
}
'''))

ref('lsw-sort', 'C05 C06 C09 C11', ('sortyLsw.go', '''		if n >= MaxLenRecFC { // single-goroutine sorting
			long(lsw, 0, n, nil)
		} else if n >= MaxLenInsFC {
			short(lsw, 0, n)
		} else if n > 0 {
			insertion(lsw, 0, n)
		}
		return
''', '''		if n <= 0 {
			return
		}
		if n < MaxLenInsFC {
			insertion(lsw, 0, n)
			return
		}
		if n < MaxLenRecFC {
			short(lsw, 0, n)
			return
		}
		long(lsw, 0, n, nil) // single-goroutine sorting
		return
'''))

ref('dispatch', 'C15 C01 C16', ('sortySlice.go', 'func SortSlice', '''func SortSlice(ar any) {
	slc, kind := extractSK(ar)
	if kind == reflect.UnsafePointer { // []*T too
		sortP(*(*[]unsafe.Pointer)(unsafe.Pointer(&slc)))
		return
	}
	if kind == reflect.String {
		sortS(*(*[]string)(unsafe.Pointer(&slc)))
		return
	}
	if kind == sliceBias+reflect.Uint8 { // [][]byte
		sortB(*(*[][]byte)(unsafe.Pointer(&slc)))
		return
	}
	if !sortNum(&slc, kind) {
		panic("sorty: SortSlice: invalid input type")
	}
}

func sortNum(slc *sixb.Slice, kind reflect.Kind) bool {
	p := unsafe.Pointer(slc)
	switch kind {
	case reflect.Float32:
		sortF4(*(*[]float32)(p))
	case reflect.Float64:
		sortF8(*(*[]float64)(p))
	case reflect.Int32:
		sortI4(*(*[]int32)(p))
	case reflect.Int64:
		sortI8(*(*[]int64)(p))
	case reflect.Uint32:
		sortU4(*(*[]uint32)(p))
	case reflect.Uint64:
		sortU8(*(*[]uint64)(p))
	default:
		return false
	}
	return true
}
'''), ('sortySlice.go', '''import (
''', '''import (
	"github.com/jfcg/sixb"
'''))

ref('generic-view', 'C15 C04 C16', ('sortyLen.go', 'func SortLen', '''func SortLen(ar any) {
	slc, kind := extractSK(ar)
	switch {
	case kind == reflect.String:
		sortLenS(viewOf[string](&slc))
	case kind >= sliceBias:
		sortLenB(viewOf[[]byte](&slc))
	default:
		panic("sorty: SortLen: invalid input type")
	}
}

func viewOf[T any](slc *sixb.Slice) []T {
	return *(*[]T)(unsafe.Pointer(slc))
}
'''), ('sortyLen.go', '''import (
''', '''import (
	"github.com/jfcg/sixb"
'''))

ref('issorted-up', 'C07', ('sortyU4.go', 'func isSortedU4', '''func isSortedU4(ar []uint32) int {
	i := len(ar)
	if i < 2 {
		return 0
	}
	next := ar[i-1]
	for i -= 2; i >= 0; i-- {
		x := ar[i]
		if next < x {
			return i + 1
		}
		next = x
	}
	return 0
}
'''))

NAN_OLD = '''	l, h := 0, len(ar)-1
	if NaNoption == NaNlarge { // move NaNs to the end
		for l <= h {
			x := ar[h]
			if x != x {
				h--
				continue
			}
			y := ar[l]
			if y != y {
				ar[l], ar[h] = x, y
				h--
			}
			l++
		}
		ar = ar[:h+1]
	} else if NaNoption == NaNsmall { // move NaNs to the start
		for l <= h {
			y := ar[l]
			if y != y {
				l++
				continue
			}
			x := ar[h]
			if x != x {
				ar[l], ar[h] = x, y
				l++
			}
			h--
		}
		ar = ar[l:]
	}
'''
ref('nan-sort', 'C03 C02', ('sortyF8.go', NAN_OLD, '''	switch NaNoption {
	case NaNlarge: // move NaNs to the end
		ar = ar[:nansLast(ar)]
	case NaNsmall: // move NaNs to the start
		ar = ar[nansFirst(ar):]
	}
'''), ('sortyF8.go', '// new-goroutine partition\n', '''// moves NaNs to the end, returns number of others
func nansLast(ar []float64) int {
	n := 0
	for i, x := range ar {
		if x == x {
			if i != n {
				ar[n], ar[i] = ar[i], ar[n]
			}
			n++
		}
	}
	return n
}

// moves NaNs to the start, returns number of NaNs
func nansFirst(ar []float64) int {
	l, h := 0, len(ar)-1
	for {
		for l <= h && ar[l] != ar[l] {
			l++
		}
		for l <= h && ar[h] == ar[h] {
			h--
		}
		if l > h {
			return l
		}
		ar[l], ar[h] = ar[h], ar[l]
		l++
		h--
	}
}

// new-goroutine partition
'''))

ref('arg-order', 'C01 C10', ('sortyI4.go', 'func gPartOneI4', '''func gPartOneI4(ch chan int, ar []int32, pv int32) {
	ch <- partOneI4(pv, ar)
}
'''), ('sortyI4.go', 'func partOneI4(slc []int32, pv int32) int {', 'func partOneI4(pv int32, slc []int32) int {'),
    ('sortyI4.go', 'go gPartOneI4(slc[l:h:h], pv, ch)', 'go gPartOneI4(ch, slc[l:h:h], pv)'),
    ('sortyI4.go', '	pv := pivotI4(ar, nsLong) // median-of-n pivot\n	k := partOneI4(ar, pv)', '	k := partOneI4(pivotI4(ar, nsLong), ar)'),
    ('sortyI4.go', '	k := partOneI4(ar, pv)\n	var aq', '	k := partOneI4(pv, ar)\n	var aq'))

# ---- second batch

ref('issorted-forward', 'C07', ('sortyU8.go', 'func isSortedU8', '''func isSortedU8(ar []uint64) int {
	r := 0
	for i := 1; i < len(ar); i++ {
		if ar[i] < ar[i-1] {
			r = i // last one counts
		}
	}
	return r
}
'''))

ref('issorted-range', 'C07', ('sortyS.go', 'func isSortedS', '''func isSortedS(slc []string) (at int) {
	for i, s := range slc {
		if i > 0 && s < slc[i-1] {
			at = i
		}
	}
	return
}
'''))

ref('long-loop', 'C01 C09 C14', ('sortyU4.go', 'func longU4', '''func longU4(ar []uint32, sv *syncVar) {
	for {
		k := partOneU4(ar, pivotU4(ar, nsLong))
		aq, rest := ar[:k:k], ar[k:]
		if len(aq) >= len(rest) {
			aq, rest = rest, aq
		}
		ar = rest // longer range

		switch {
		case len(aq) > MaxLenRec && sv != nil && gorAcquire(sv):
			go gLongU4(ar, sv)
			ar = aq
		case len(aq) > MaxLenRec:
			longU4(aq, sv) // recurse on the shorter range
		default:
			smallU4(aq)
			if len(ar) <= MaxLenRec {
				smallU4(ar)
				return
			}
		}
	}
}

// sorts a range that is not long
func smallU4(ar []uint32) {
	if len(ar) > MaxLenIns {
		shortU4(ar)
	} else {
		insertionU4(ar)
	}
}
'''))

ref('spawn', 'C09 C10 C11', ('sortyF8.go', '''	go gLongF8(ar, sv)
	ar = aq
''', '''	spawnF8(ar, sv)
	ar = aq
'''), ('sortyF8.go', '''			go gLongF8(aq, &sv) // takes the place of partitioning goroutine
''', '''			spawnF8(aq, &sv) // takes the place of partitioning goroutine
'''), ('sortyF8.go', '''// new-goroutine sort function
''', '''func spawnF8(ar []float64, sv *syncVar) {
	go gLongF8(ar, sv)
}

// new-goroutine sort function
'''))

ref('finish', 'C09 C10 C11', ('sortyI8.go', '''	if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
		sv.done <- 0 // we are the last, all done
	}
''', '''	if sv.last() {
		sv.done <- 0 // we are the last, all done
	}
'''), ('sortyI8.go', '''	if atomic.AddUint64(&sv.nGor, ^uint64(0)) != 0 { // decrease goroutine counter
		<-sv.done // we are not the last, wait
	}
''', '''	if !sv.last() {
		<-sv.done // wait
	}
'''), ('sortyI8.go', '''// new-goroutine sort function
''', '''// last decreases goroutine counter
func (sv *syncVar) last() bool {
	return atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0
}

// new-goroutine sort function
'''))

ref('ins-binary', 'C01 C02 C12', ('sortyU4.go', 'func insertionU4', '''func insertionU4(slc []uint32) {
	for h := 1; h < len(slc); h++ {
		val := slc[h]
		l, r := 0, h
		for l < r {
			m := int(uint(l+r) >> 1)
			if val < slc[m] {
				r = m
			} else {
				l = m + 1
			}
		}
		copy(slc[l+1:h+1], slc[l:h])
		slc[l] = val
	}
}
'''))

ref('ins-swap', 'C01 C03 C12', ('sortyF4.go', 'func insertionF4', '''func insertionF4(slc []float32) {
	for h := 1; h < len(slc); h++ {
		for l := h; l > 0 && slc[l] < slc[l-1]; l-- {
			slc[l-1], slc[l] = slc[l], slc[l-1]
		}
	}
}
'''))

ref('ins-less', 'C01 C04 C12', ('sortyLenB.go', 'func insertionLenB', '''func insertionLenB(slc [][]byte) {
	n := len(slc)
	for h := 1; h < n; h++ {
		val := slc[h]
		vl := len(val)
		l := h
		for ; l > 0; l-- {
			pre := slc[l-1]
			if len(pre) <= vl {
				break
			}
			slc[l] = pre
		}
		slc[l] = val
	}
}
'''))

ref('parttwo-loops', 'C01 C02 C12 C13', ('sortyF4.go', 'func partTwoF4', '''func partTwoF4(slc []float32, l, h int, pv float32) int {
	l--
	if h <= l {
		return -1 // will not run
	}
	n := len(slc)
	for ; l >= 0 && h < n; l, h = l-1, h+1 {
		switch {
		case slc[h] < pv:
			for slc[l] < pv {
				l--
				if l < 0 {
					return h
				}
			}
			slc[l], slc[h] = slc[h], slc[l]
		case slc[l] > pv:
			for {
				h++
				if h >= n {
					return l
				}
				if slc[h] <= pv {
					break
				}
			}
			slc[l], slc[h] = slc[h], slc[l]
		}
	}
	if l < 0 {
		return h
	}
	return l
}
'''))

ref('con-order', 'C01 C10 C13', ('sortyI8.go', 'func partConI8', '''func partConI8(slc []int64, ch chan int) int {
	n := len(slc)
	mid := n / 2
	l := mid / 2
	h := sixb.MeanI(mid, n)

	pv := pivotI8(slc, nsConc) // median-of-n pivot
	inner := slc[l:h:h]
	go gPartOneI8(inner, pv, ch) // mid half range

	r := partTwoI8(slc, l, h, pv) // left/right quarter ranges
	k := <-ch
	k += l

	if r < mid {
		for 0 <= r { // gap left in low range?
			if x := slc[r]; pv < x {
				k--
				slc[r] = slc[k]
				slc[k] = x
			}
			r--
		}
		return k
	}
	for ; r < n; r++ { // gap left in high range?
		if x := slc[r]; x < pv {
			slc[r], slc[k] = slc[k], x
			k++
		}
	}
	return k
}
'''))

ref('lsw-partone', 'C05 C06 C13', ('sortyLsw.go', 'func partOne', '''func partOne(lsw Lesswap, l, pv, h int) int {
	for l < h {
		if lsw(h, pv, h, h) {
			for !lsw(pv, l, h, l) {
				l++
				if l >= h {
					return l + 1
				}
			}
		} else if lsw(pv, l, l, l) {
			h--
			for l < h && !lsw(h, pv, h, l) {
				h--
			}
			if l >= h {
				return l
			}
		}
		l++
		h--
	}
	if l != h || h == pv {
		return l
	}
	if lsw(h, pv, h, h) { // classify mid element
		return l + 1
	}
	return l
}
'''))

ref('lsw-short-order', 'C05 C06 C14', ('sortyLsw.go', '''	l := partOne(lsw, lo+1, pv, hi-1)
	h := l - 1
	no, n := h-lo, hi-l

	if no < n {
		n, no = no, n // [lo,hi] is the longer range
		l, lo = lo, l
	} else {
		h, hi = hi, h
	}

	if n >= MaxLenInsFC {
		short(lsw, l, h) // recurse on the shorter range
		goto start
	}
''', '''	k := partOne(lsw, lo+1, pv, hi-1)
	l, h := k, hi
	if left := k - lo; left <= hi-k {
		l, h = lo, k-1
		lo = k
	} else {
		hi = k - 1
	}
	n, no := h-l, hi-lo

	if n >= MaxLenInsFC {
		short(lsw, l, h) // recurse on the shorter range
		goto start
	}
'''))

ref('acquire-retry', 'C11 C09', ('sorty.go', 'func gorAcquire', '''func gorAcquire(sv *syncVar) bool {
	limit := MaxGor
	for {
		n := atomic.LoadUint64(&sv.nGor)
		if n >= limit {
			return false
		}
		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
			return true
		}
	}
}
'''))

ref('maxgor-default', 'C01 C12', ('sortyS.go', '''	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {

		if len(ar) > MaxLenRecFC { // single-goroutine sorting
			longS(ar, nil)
		} else if len(ar) > MaxLenInsFC {
			shortS(ar)
		} else {
			insertionS(ar)
		}
		return
	}
''', '''	n := len(ar)
	if n <= MaxLenInsFC {
		insertionS(ar)
		return
	}
	if n <= MaxLenRecFC {
		shortS(ar)
		return
	}
	if MaxGor < 2 || n/2 <= MaxLenRecFC {
		longS(ar, nil)
		return
	}
'''))

ref('pivot-array', 'C01 C02 C17', ('sortyF8.go', '''	var sample [nsConc - 1]float64
	for i := int(n - 1); i >= 0; i-- {
		sample[i] = slc[first]
		first += step
	}
	insertionF8(sample[:n]) // sort n samples

	return sample[n>>1] // return middle sample
''', '''	var buf [nsConc - 1]float64
	sample := buf[:n]
	for i := range sample {
		sample[i] = slc[first]
		first += step
	}
	insertionF8(sample) // sort n samples

	return sample[len(sample)/2] // return middle sample
'''))

ref('lsw-pivot', 'C05 C06 C17', ('sortyLsw.go', '''	for h := first; h < last; {
		h += step // stays ≤ last, cannot overflow
		for l := h; lsw(l, l-step, l, l-step); {
			l -= step
			if l <= first {
				break
			}
		}
	}
''', '''	for h := first; h < last; {
		h += step
		for l := h; l > first && lsw(l, l-step, l, l-step); l -= step {
		}
	}
'''))

ref('lsw-issorted', 'C06', ('sortyLsw.go', 'func IsSorted', '''func IsSorted(n int, lsw Lesswap) int {
	i := n - 1
	for i > 0 && !lsw(i, i-1, i, i) {
		i--
	}
	if i < 0 {
		i = 0
	}
	return i
}
'''))

ref('median-minmax', 'C01 C13', ('sortyI4.go', '''	if d < b {
		d, b = b, d
	}
	if c < a {
		c, a = a, c
	}
	if d < c {
		c = d
	}
	if b < a {
		b = a
	}
	pv := sixb.MeanI4(b, c) // median-of-4 pivot
''', '''	lo, hi := max(min(a, c), min(b, d)), min(max(a, c), max(b, d))
	pv := sixb.MeanI4(lo, hi) // median-of-4 pivot
'''))

ref('defer-done', 'C09 C10', ('sortyB.go', 'func gLongB', '''func gLongB(ar [][]byte, sv *syncVar) {
	defer func() {
		if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
			sv.done <- 0 // we are the last, all done
		}
	}()
	longB(ar, sv)
}
'''))

ref('anon-go', 'C09 C10', ('sortyU8.go', '''	go gPartOneU8(slc[l:h:h], pv, ch) // mid half range
''', '''	go func() { // mid half range
		ch <- partOneU8(slc[l:h:h], pv)
	}()
'''))
