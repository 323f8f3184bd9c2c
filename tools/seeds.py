"""planted bugs: edits of /repo, demonstrations. Read by mkseed.py only."""
SEEDS = []

def add(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo, **kw))

HEAD = '''package sorty

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"
)

var (
	_ = fmt.Sprint
	_ = math.Inf
	_ = rand.Intn
	_ = reflect.TypeOf
	_ = runtime.GC
	_ = sort.Ints
	_ = strings.Repeat
	_ sync.Mutex
	_ = atomic.AddInt64
	_ = time.Now
	_ unsafe.Pointer
)
'''

add('c01-difference', 'C01',
    [('sortyI8.go', '		if val < pre {', '		if val-pre < 0 {')],
    'int64 elements in one insertion range whose difference overflows',
    'insertion sort misorders elements that are more than 2^63 apart', '''
func TestDemo(t *testing.T) {
	s := []int64{1 << 62, -1 << 62, 5, -1<<62 - 9}
	SortSlice(s)
	for j := 1; j < len(s); j++ {
		if s[j] < s[j-1] {
			t.Fatal("not sorted", s)
		}
	}
}
''')

add('c01-gap-equal', 'C01',
    [('sortyI4.go', '			if pv < slc[r] {\n				k--', '			if pv+1 < slc[r] {\n				k--')],
    'concurrent partition of int32 with a gap left in the low range that holds pivot+1',
    'an element greater than the pivot is left on the low side', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		s := make([]int32, 1202+r.Intn(2000))
		for j := range s {
			s[j] = int32(r.Intn(7))
			if j < len(s)/4 {
				s[j] += 3
			}
		}
		SortSlice(s)
		for j := 1; j < len(s); j++ {
			if s[j] < s[j-1] {
				t.Fatal("not sorted", len(s), j)
			}
		}
	}
}
''')

add('c02-nan-payload', 'C02',
    [('sortyF8.go', '''			y := ar[l]
			if y != y {
				ar[l], ar[h] = x, y
				h--
			}''', '''			y := ar[l]
			if y != y {
				ar[l], ar[h] = x, y-x
				h--
			}''')],
    'NaNs with a quiet bit or payload other than the one arithmetic yields, or signaling NaNs',
    'payloads of NaNs change when they are moved to the end', '''
func TestDemo(t *testing.T) {
	n := uint64(0x7ff0000000000001) // signaling NaN
	s := []float64{*(*float64)(unsafe.Pointer(&n)), 3, 1, 2}
	u := unsafe.Slice((*uint64)(unsafe.Pointer(&s[0])), len(s))
	SortSlice(s)
	if u[3] != n {
		t.Fatalf("NaN is %x", u[3])
	}
}
''')

add('c02-lost-cap', 'C02',
    [('sortyB.go', '''	last:
		slc[l] = val
''', '''	last:
		slc[l] = val[:len(val):len(val)]
''')],
    'byte slices with spare capacity that insertion sort moves',
    'capacity of moved byte slices is lost, so results are not the same elements', '''
func TestDemo(t *testing.T) {
	s := [][]byte{[]byte("b"), make([]byte, 0, 10)}
	s[1] = append(s[1], 'a')
	SortSlice(s)
	if cap(s[0]) != 10 {
		t.Fatal(cap(s[0]))
	}
}
''')

add('c03-nan-last', 'C03',
    [('sortyF4.go', '''	if NaNoption == NaNlarge { // move NaNs to the end
		for l <= h {''', '''	if NaNoption == NaNlarge { // move NaNs to the end
		for l < h {''')],
    'a NaN at the position where both scans meet, more than MaxLenIns other elements',
    'a NaN takes part in sorting and can end up between ordinary values', '''
func TestDemo(t *testing.T) {
	NaNoption = NaNlarge
	r := rand.New(rand.NewSource(1))
	nan := float32(math.NaN())
	for i := 0; i < 20000; i++ {
		s := make([]float32, 1+r.Intn(300))
		k := 0
		for j := range s {
			s[j] = float32(r.Intn(9))
			if r.Intn(9) == 0 {
				s[j] = nan
				k++
			}
		}
		SortSlice(s)
		for j := 0; j < len(s); j++ {
			if m := len(s) - k; (s[j] != s[j]) != (j >= m) || 0 < j && j < m && s[j] < s[j-1] {
				t.Fatal(s)
			}
		}
	}
}
''')

add('c13-huge-lengths', 'C13',
    [('sortyLenB.go', '''	n >>= 1 // return mean of middle two samples
	return sixb.MeanI(sample[n-1], sample[n])
''', '''	n >>= 1 // return mean of middle two samples
	return (sample[n-1] + sample[n] + 1) / 2
'''), ('sortyLenB.go', '''import (
	"sync/atomic"
''', '''import (
	"sync/atomic"
''')],
    'slices of zero-size elements with lengths above half of the largest int, more than MaxLenRec of them',
    'pivot overflows, ranges are not partitioned', '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer func() {
			done <- recover() == nil
		}()
		big := make([]struct{}, math.MaxInt)
		s := make([][]struct{}, 1000)
		for i := range s {
			s[i] = big[:math.MaxInt-(i*7919)%1000]
		}
		SortLen(s)
		for i := 1; i < len(s); i++ {
			if len(s[i]) < len(s[i-1]) {
				panic("order")
			}
		}
	}()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("panic or wrong order")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
}
''')

add('c05-pivot-moved', 'C05',
    [('sortyLsw.go', '''				if k == pv { // swapped pivot when closing gap?
					pv = r // It took days of agony to discover these two if's :D
				}
				k++''', '''				if k == pv && k < r { // swapped pivot when closing gap?
					pv = k
				}
				k++''')],
    'concurrent partition where closing the gap of the high range moves the pivot',
    'later elements are compared with another element than the pivot', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 20000; i++ {
		s := make([]int, 602+r.Intn(600))
		for j := range s {
			s[j] = r.Intn(1 + i%50)
			if j > len(s)*3/4 {
				s[j] -= r.Intn(1 + i%70)
			}
		}
		Sort(len(s), func(i, k, r, q int) bool {
			if s[i] < s[k] {
				if r != q {
					s[r], s[q] = s[q], s[r]
				}
				return true
			}
			return false
		})
		for j := 1; j < len(s); j++ {
			if s[j] < s[j-1] {
				t.Fatal("not sorted", len(s), j)
			}
		}
	}
}
''')

add('c06-issorted-swap', 'C06',
    [('sortyLsw.go', '''		if lsw(i, i-1, i, i) { // 3rd=4th disables swap
			return i
		}
	}
	return 0''', '''		if lsw(i, i-1, i-1, i) {
			return i
		}
	}
	return 0''')],
    'a collection that is not sorted',
    'IsSorted swaps the two elements that are out of order', '''
func TestDemo(t *testing.T) {
	s := []int{1, 3, 2}
	IsSorted(3, func(i, k, r, q int) bool {
		if s[i] < s[k] {
			if r != q {
				s[r], s[q] = s[q], s[r]
			}
			return true
		}
		return false
	})
	if s[1] != 3 {
		t.Fatal(s)
	}
}
''')

add('c06-beyond-end', 'C06',
    [('sortyLsw.go', '''				h++
				if h > hi {
					return l
				}
				if lsw(h, pv, h, l) {''', '''				h++
				if h > hi+1 {
					return l
				}
				if lsw(h, pv, h, l) {''')],
    'concurrent partition whose high quarter is scanned to its end while the low quarter still has a greater element',
    'the element after the partitioned range takes part in it', '''
func TestDemo(t *testing.T) {
	MaxGor = 2
	r := rand.New(rand.NewSource(1))
	var bad atomic.Bool
	for i := 0; i < 3000; i++ {
		n := 602 + r.Intn(900)
		s := make([]int, n)
		for j := range s {
			s[j] = r.Intn(1 + i%9)
			if j < n/4 || j > n*3/4 {
				s[j] += r.Intn(20)
			}
		}
		calls := map[int]bool{}
		var mu sync.Mutex
		Sort(n, func(i, k, r, q int) bool {
			if s[i] < s[k] {
				if r != q {
					s[r], s[q] = s[q], s[r]
				}
				return true
			}
			_ = calls
			_ = &mu
			return false
		})
		// the whole collection is partitioned first: its last element is where a maximum was put
		for j := 1; j < n; j++ {
			if s[j] < s[j-1] {
				bad.Store(true)
			}
		}
	}
	// indices of the concurrent partition itself
	pv := 50
	u := make([]int, 101)
	for j := range u {
		u[j] = 5
		if j < 25 {
			u[j] = 9
		}
	}
	partTwo(func(i, k, r, q int) bool {
		if i > 99 || r > 99 {
			bad.Store(true)
		}
		if u[i] < u[k] {
			if r != q {
				u[r], u[q] = u[q], u[r]
			}
			return true
		}
		return false
	}, 0, 24, pv, 75, 99)
	if bad.Load() {
		t.Fatal("index out of range, or not sorted")
	}
}
''')

add('c07-nan-inside', 'C07',
    [('sortyF8.go', 'if !(slc[i] >= slc[i-1]) {', 'if slc[i] < slc[i-1] {')],
    'a NaN between ordinary values in order',
    'IsSortedSlice reports such a slice as sorted', '''
func TestDemo(t *testing.T) {
	if IsSortedSlice([]float64{1, math.NaN(), 2}) == 0 {
		t.Fatal("reported as sorted")
	}
}
''')

add('c07-skip-first', 'C07',
    [('sortyLenS.go', 'for i := len(ar) - 1; i > 0; i-- {', 'for i := len(ar) - 1; i > 1; i -= 1 + (i&len(ar))>>20 {')],
    'a slice of strings where only the first two are out of order',
    'IsSortedLen does not compare the first two elements', '''
func TestDemo(t *testing.T) {
	if IsSortedLen([]string{"aa", "b", "cc"}) != 1 {
		t.Fatal("reported as sorted")
	}
}
''')

add('c08-overflow', 'C08',
    [('sorty.go', '		m := sixb.MeanI(l, h)\n', '		m := (l + h) / 2\n'), ('sorty.go', 'func Search(', 'func Search(')],
    'n above half of the largest int, boundary in the upper part',
    'mean overflows, the predicate is called with negative indices', '''
func TestDemo(t *testing.T) {
	n := math.MaxInt
	k := n - 5
	got := Search(n, func(i int) bool {
		if i < 0 || i >= n {
			t.Fatal("index", i)
		}
		return i >= k
	})
	if got != k {
		t.Fatal(got)
	}
}
''')

add('c09-early-decrement', 'C09',
    [('sortyU4.go', '''	longU4(ar, &sv) // we know len(ar) > MaxLenRec

	if atomic.AddUint64(&sv.nGor, ^uint64(0)) != 0 { // decrease goroutine counter
		<-sv.done''', '''	last := atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 // decrease goroutine counter
	longU4(ar, &sv)                                     // we know len(ar) > MaxLenRec

	if !last {
		<-sv.done''')],
    'the last range of the caller is long enough to start further goroutines after all others finished',
    'the call returns while goroutines it started are still sorting, and they stay blocked', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	base := runtime.NumGoroutine()
	for i := 0; i < 3000; i++ {
		s := make([]uint32, 1202+r.Intn(12000))
		for j := range s {
			s[j] = r.Uint32()
		}
		done := make(chan bool)
		go func() { SortSlice(s); done <- true }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("does not return")
		}
		for j := 1; j < len(s); j++ {
			if s[j] < s[j-1] {
				t.Fatal("returned early", i)
			}
		}
	}
	time.Sleep(100 * time.Millisecond)
	if k := runtime.NumGoroutine(); k > base {
		t.Fatal(k-base, "goroutines left")
	}
}
''')

add('c09-lsw-last', 'C09',
    [('sortyLsw.go', '''	long(lsw, lo, hi, sv)

	if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
		sv.done <- 0 // we are the last, all done
	}''', '''	last := atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 // decrease goroutine counter
	long(lsw, lo, hi, sv)

	if last {
		sv.done <- 0 // we are the last, all done
	}''')],
    'a goroutine that starts its range while others have many left, and finishes after them',
    'Sort returns while a goroutine still sorts', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		s := make([]int, 2000+r.Intn(2000))
		for j := range s {
			s[j] = r.Intn(1 << 30)
		}
		var over atomic.Bool
		var late atomic.Bool
		var calls atomic.Int64
		done := make(chan bool)
		go func() {
			Sort(len(s), func(i, k, r, q int) bool {
				if over.Load() {
					late.Store(true)
				}
				if calls.Add(1)%64 == 0 {
					runtime.Gosched()
				}
				if s[i] < s[k] {
					if r != q {
						s[r], s[q] = s[q], s[r]
					}
					return true
				}
				return false
			})
			over.Store(true)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("does not return")
		}
		time.Sleep(time.Millisecond)
		if late.Load() {
			t.Fatal("Lesswap is called after Sort returned")
		}
	}
}
''')

add('c10-shared-element', 'C10',
    [('sortyLsw.go', 'go gPartOne(lsw, l+1, pv, h-1, ch) // mid half range', 'go gPartOne(lsw, l, pv, h-1, ch) // mid half range')],
    'the first element of the middle half is swapped by one goroutine while the other looks at it',
    'both partitioning goroutines access the element at l', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 500; i++ {
		s := make([]int, 700+r.Intn(700))
		for j := range s {
			s[j] = r.Intn(1000)
		}
		Sort(len(s), func(i, k, a, b int) bool {
			if s[i] < s[k] {
				if a != b {
					s[a], s[b] = s[b], s[a]
				}
				return true
			}
			return false
		})
	}
}
''', args='-race')

add('c10-overlap', 'C10',
    [('sortyF4.go', 'go gPartOneF4(slc[l:h:h], pv, ch) // mid half range', 'go gPartOneF4(slc[l:h+1:h+1], pv, ch) // mid half range')],
    'the element after the middle half is moved by both goroutines',
    'ranges of both partitioning goroutines overlap by one element', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		s := make([]float32, 1300+r.Intn(1300))
		for j := range s {
			s[j] = float32(r.Intn(1000))
		}
		SortSlice(s)
	}
}
''', args='-race')

add('c11-no-cas', 'C11',
    [('sortyS.go', '''		if len(aq) > MaxLenInsFC {
			shortS(aq)
		} else {
			insertionS(aq)
		}

		if len(ar) > MaxLenRecFC { // two not-long ranges?
			goto start
		}''', '''		if len(aq) > MaxLenInsFC {
			shortS(aq)
		} else {
			insertionS(aq)
		}

		if len(ar) > MaxLenRecFC { // two not-long ranges?
			if sv != nil && len(ar) > 4*MaxLenRecFC {
				atomic.AddUint64(&sv.nGor, 1)
				go gLongS(ar, sv)
				return
			}
			goto start
		}''')],
    'very uneven partition of strings in a goroutine while all places are taken',
    'a goroutine is started without looking at the quota', '''
func TestDemo(t *testing.T) {
	MaxGor = 2
	s := make([]string, 200000)
	for i := range s {
		s[i] = "same"
		if i%3 == 0 {
			s[i] = "zz" + fmt.Sprint(i%5)
		}
		if i < 1000 {
			s[i] = fmt.Sprint("a", i)
		}
	}
	base := runtime.NumGoroutine() + 1
	var most, stop atomic.Int64
	go func() {
		for stop.Load() == 0 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			k := 0
			for _, g := range strings.Split(string(buf[:n]), "\\n\\n") {
				if strings.Contains(g, "sorty/v2.longS(") || strings.Contains(g, "sorty/v2.partOneS(") {
					k++
				}
			}
			if int64(k) > most.Load() {
				most.Store(int64(k))
			}
		}
	}()
	_ = base
	for i := 0; i < 200; i++ {
		u := append([]string{}, s...)
		rand.New(rand.NewSource(int64(i))).Shuffle(len(u), func(i, k int) { u[i], u[k] = u[k], u[i] })
		SortSlice(u[:5000+i*50])
	}
	stop.Store(1)
	if most.Load() > 2 {
		t.Fatal(most.Load(), "goroutines sort at the same time")
	}
}
''')

add('c11-limit', 'C11',
    [('sortyU8.go', '	if len(aq) <= MaxLenRec { // at least one not-long range?', '	if len(aq) <= MaxLenIns { // at least one not-long range?')],
    'long uint64 range whose shorter part is between MaxLenIns and MaxLenRec, with goroutine quota left',
    'a goroutine may be started for a range that is not longer than MaxLenRec', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	s := make([]uint64, 601)
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 2000; k++ {
		for i := range s {
			s[i] = r.Uint64()
		}
		sv := syncVar{2, make(chan int, 3)}
		longU8(s, &sv)
		if atomic.LoadUint64(&sv.nGor) != 2 {
			t.Fatal("goroutine is started for a short range")
		}
		time.Sleep(time.Microsecond)
		select {
		case <-sv.done:
			t.Fatal("goroutine is started for a short range")
		default:
		}
	}
}
''')

add('c12-all-nan', 'C12',
    [('sortyF8.go', '		for ; l <= h; h-- {', '		for ; ; h-- {')],
    'a float64 slice of NaNs only, or an empty one',
    'IsSortedSlice reads the element before the first one', '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if IsSortedSlice([]float64{math.NaN(), math.NaN()}) != 0 {
		t.Fatal("not sorted?")
	}
	if IsSortedSlice([]float64{}) != 0 {
		t.Fatal("not sorted?")
	}
}
''')

add('c12-nil-slice', 'C12',
    [('sortyLenB.go', '''		} else if len(ar) > MaxLenIns {
			shortLenB(ar)
		} else {
			insertionLenB(ar)
		}
		return''', '''		} else if len(ar) > MaxLenIns {
			shortLenB(ar)
		} else if &ar[0] != &ar[len(ar)-1] {
			insertionLenB(ar)
		}
		return''')],
    'an empty slice of slices',
    'SortLen panics on empty input', '''
func TestDemo(t *testing.T) {
	SortLen([][]int{})
	SortLen([][]byte(nil))
}
''')

add('c13-search', 'C13',
    [('sorty.go', '			l = m + 1\n', '			l = m | 1\n')],
    'boundaries above an odd probe',
    'Search does not make progress when the probe is odd and the answer is larger', '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for n := 0; n < 50; n++ {
			for k := 0; k <= n; k++ {
				Search(n, func(i int) bool { return i >= k })
			}
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not return")
	}
}
''')

add('c14-longer-first', 'C14',
    [('sortyLsw.go', '''		long(lsw, l, h, sv) // recurse on the shorter range
		goto start''', '''		long(lsw, lo, hi, sv) // recurse
		lo, hi = l, h
		goto start''')],
    'very uneven partitions of a long collection',
    'recursion descends into the longer range', '''
func TestDemo(t *testing.T) {
	MaxGor = 1
	n := 60000
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	// 320 smallest at the sampled positions, again and again
	var place func(lo, hi, k int)
	place = func(lo, hi, k int) {}
	place(0, n, 0)
	most := 0
	calls := 0
	pc := make([]uintptr, 2000)
	r := rand.New(rand.NewSource(3))
	r.Shuffle(n, func(i, k int) { s[i], s[k] = s[k], s[i] })
	Sort(n, func(i, k, a, b int) bool {
		if calls++; calls%97 == 0 {
			d := 0
			fr := runtime.CallersFrames(pc[:runtime.Callers(0, pc)])
			for {
				f, more := fr.Next()
				if strings.HasSuffix(f.Function, "sorty/v2.long") {
					d++
				}
				if !more {
					break
				}
			}
			if d > most {
				most = d
			}
		}
		if s[i] < s[k] {
			if a != b {
				s[a], s[b] = s[b], s[a]
			}
			return true
		}
		return false
	})
	if most > 9 { // 60000 / 2^8 < 300
		t.Fatal(most, "nested calls")
	}
}
''')

add('c14-copy', 'C14',
    [('sortyLenS.go', '''	if k < len(ar)-k {
		aq = ar[:k:k]
		ar = ar[k:] // ar is the longer range
	} else {
		aq = ar[k:]
		ar = ar[:k:k]
	}

	// branches below''', '''	if k < len(ar)-k {
		aq = ar[:k:k]
		if len(aq) > 4*MaxLenRec && sv == nil { // sort in close memory
			bq := make([]string, k)
			copy(bq, aq)
			longLenS(bq, nil)
			copy(aq, bq)
			ar = ar[k:]
			goto start
		}
		ar = ar[k:] // ar is the longer range
	} else {
		aq = ar[k:]
		ar = ar[:k:k]
	}

	// branches below''')],
    'more than MaxLenRec strings',
    'memory proportional to the input is allocated', '''
func TestDemo(t *testing.T) {
	MaxGor = 1
	s := make([]string, 40000)
	b := strings.Repeat("x", 50000)
	r := rand.New(rand.NewSource(3))
	for i := range s {
		s[i] = b[:r.Intn(50000)]
	}
	var m, n runtime.MemStats
	runtime.ReadMemStats(&m)
	SortLen(s)
	runtime.ReadMemStats(&n)
	if d := n.TotalAlloc - m.TotalAlloc; d > 50000 {
		t.Fatal(d, "bytes")
	}
}
''')

add('c15-uint-signed', 'C15',
    [('sorty.go', '''		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
	case reflect.Int:''', '''		kind = reflect.Int32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
	case reflect.Int:''')],
    '[]uint with the top bit set in some elements',
    'uint is ordered as signed integer', '''
func TestDemo(t *testing.T) {
	s := []uint{1 << (unsafe.Sizeof(uint(0))*8 - 1), 1}
	SortSlice(s)
	if s[0] != 1 {
		t.Fatal(s)
	}
}
''')

add('c15-int16-slices', 'C15',
    [('sortySlice.go', '''	case sliceBias + reflect.Uint8: // [][]byte
		b := *(*[][]byte)(unsafe.Pointer(&slc))
		sortB(b)''', '''	case sliceBias + reflect.Uint8, sliceBias + reflect.Int8: // [][]byte
		b := *(*[][]byte)(unsafe.Pointer(&slc))
		sortB(b)''')],
    '[][]int8',
    'SortSlice accepts a type it does not document, and orders it as unsigned bytes', '''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	SortSlice([][]int8{{2}, {1}})
}
''')

add('c15-int-32', 'C15',
    [('sorty.go', '		kind = reflect.Int32 + reflect.Kind(unsafe.Sizeof(int(0))>>3)', '		kind = reflect.Int64')],
    '[]int on a 32-bit platform',
    'int is taken as 64 bits wide', '''
func TestDemo(t *testing.T) {
	b := []int{9, 9, 9, 3, 1, 2, 0, 7, 5, 9, 9, 9}
	s := b[3:6:6]
	SortSlice(s)
	for i, x := range []int{9, 9, 9, 1, 2, 3, 0, 7, 5, 9, 9, 9} {
		if b[i] != x {
			t.Fatal(b)
		}
	}
}
''', env='GOARCH=386 CGO_ENABLED=0')

add('c16-header-swap', 'C16',
    [('sortyLenB.go', '''swap:
	slc[l], slc[h] = slc[h], slc[l]
next:
	l++
	h--
start:
	if h <= l {''', '''swap:
	{
		a, b := (*[3]uintptr)(unsafe.Pointer(&slc[l])), (*[3]uintptr)(unsafe.Pointer(&slc[h]))
		*a, *b = *b, *a // without write barriers
	}
next:
	l++
	h--
start:
	if h <= l {'''), ('sortyLenB.go', '''	"sync/atomic"

''', '''	"sync/atomic"
	"unsafe"

''')],
    'garbage collection that marks while a slice of slices is partitioned',
    'pointers are moved as integers, their objects may be freed', '''
type demoNode struct {
	v, w uint64
	p    *demoNode
}

func TestDemo(t *testing.T) {
	var stop atomic.Bool
	var junk [64][]*demoNode
	go func() {
		for !stop.Load() {
			runtime.GC()
		}
	}()
	for i := range junk {
		go func(i int) {
			for !stop.Load() {
				junk[i] = append(junk[i][:0:0], &demoNode{0xdead, 0xdead, nil})
				runtime.Gosched()
			}
		}(i)
	}
	defer stop.Store(true)
	end := time.Now().Add(120 * time.Second)
	for time.Now().Before(end) {
		s := make([][]*demoNode, 1<<18)
		for i := range s {
			s[i] = make([]*demoNode, 1+i*7919%50)
			for k := range s[i] {
				s[i][k] = nil
			}
			s[i][0] = &demoNode{v: uint64(i)}
		}
		SortLen(s)
		seen := make([]bool, len(s))
		for _, x := range s {
			if x[0] == nil || x[0].v >= uint64(len(s)) || seen[x[0].v] {
				t.Fatal("corrupt")
			}
			seen[x[0].v] = true
		}
		if demoQuick && time.Until(end) < 100*time.Second {
			return
		}
	}
}

const demoQuick = true
''')

add('c17-narrow', 'C17',
    [('sorty.go', '	step = slen / n // ≥ 2\n', '	step = uint(uint32(slen) / uint32(n)) // ≥ 2\n')],
    'ranges longer than 2^32 elements',
    'samples lie in the first part of such ranges', '''
func TestDemo(t *testing.T) {
	slen := uint(1) << 33
	f, s, l := minMaxSample(slen, 4)
	if l-f < slen/2 || s < 2 {
		t.Fatal(f, s, l)
	}
}
''')

add('c17-tail', 'C17',
    [('sorty.go', '	if tail > n && tail>>1 > (step+1)>>1 {', '	if tail > n && tail>>1 > (step+1)>>1 && slen < 1<<20 {')],
    'ranges of more than a million elements with many more in the tails than between samples',
    'largest distance to a sample is not minimal for long ranges', '''
func TestDemo(t *testing.T) {
	for n := uint(2); n < 600; n++ {
		for slen := uint(1<<20 - 100); slen < 1<<20+2000; slen++ {
			f, s, l := minMaxSample(slen, n)
			m := func(step uint) uint {
				t := slen - 1 - (n-1)*step
				if a := t - t/2; a > step/2 {
					return a
				}
				return step / 2
			}
			d := s / 2
			if f > d {
				d = f
			}
			if slen-1-l > d {
				d = slen - 1 - l
			}
			if (n-1)*(s+1) < slen && m(s+1) < d || s > 2 && m(s-1) < d {
				t.Fatal(slen, n)
			}
		}
	}
}
''')

add('c18-more-samples', 'C18',
    [('sortyLsw.go', '	pv := pivot(lsw, lo, hi, nsLong-1) // median-of-n pivot', '	pv := pivot(lsw, lo, hi, 5*nsLong-1) // median-of-n pivot')],
    'tuning build with MaxLenRecFC below twice the number of samples',
    'more samples are taken than the shortest long range has', '''
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	MaxLenInsFC, MaxLenIns, MaxLenRecFC, MaxLenRec = 9, 10, 21, 22
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		for k := 0; k < 3000; k++ {
			s := make([]int, 10+r.Intn(200))
			for i := range s {
				s[i] = r.Intn(1000)
			}
			Sort(len(s), func(i, k, a, b int) bool {
				if s[i] < s[k] {
					if a != b {
						s[a], s[b] = s[b], s[a]
					}
					return true
				}
				return false
			})
			for i := 1; i < len(s); i++ {
				if s[i] < s[i-1] {
					panic("not sorted")
				}
			}
		}
	}()
	select {
	case e := <-done:
		if e != nil {
			t.Fatal(e)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
}
''', args='-tags tuneparam')

add('c18-start-up', 'C18',
    [('sorty.go', '2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {', '2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > nsShort) {')],
    'tuning build with MaxLenInsFC between 5 and 8',
    'the start-up check admits limits for which samples are not distinct', '''
func TestDemo(t *testing.T) {
	MaxLenInsFC, MaxLenIns, MaxLenRecFC, MaxLenRec = 6, 10, 21, 22
	defer func() {
		if recover() == nil {
			t.Fatal("admitted")
		}
	}()
	initDemo()
}

//go:linkname initDemo github.com/jfcg/sorty/v2.init.0
func initDemo()
''', args='-tags tuneparam')

add('c18-word', 'C18',
    [('sortyLsw.go', '''	return sixb.MeanI(first, last)
}''', '''	return int(uint32(first+last) >> 1)
}''')],
    'positions above 2^31, or a 32-bit build where the sum overflows',
    'pivot position is wrong for very long collections', '''
func TestDemo(t *testing.T) {
	n := math.MaxInt - 7
	calls := 0
	defer func() {
		if e := recover(); e != nil && e != any("stop") {
			t.Fatal(e)
		}
	}()
	MaxGor = 1
	long(func(i, k, r, s int) bool {
		if calls++; calls > 100 {
			panic("stop")
		}
		if r == s && i == n-2 && k < n/8 { // comparison with pivot
			panic(fmt.Sprint("pivot is at ", k))
		}
		return false
	}, 0, n-1, nil)
}
''')

add('c04-signed-view', 'C04',
    [('sortyLenS.go', '''			if pv < len(slc[r]) {
				k--''', '''			if pv < len(slc[r])&^3 {
				k--''')],
    'concurrent partition of strings by length, gap left in the low range that holds lengths a little above the pivot',
    'longer strings are left on the low side', '''
func TestDemo(t *testing.T) {
	MaxGor = 3
	b := strings.Repeat("x", 1000)
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		s := make([]string, 1202+r.Intn(2000))
		for j := range s {
			k := r.Intn(9)
			if j < len(s)/4 {
				k += 3
			}
			s[j] = b[:k]
		}
		SortLen(s)
		for j := 1; j < len(s); j++ {
			if len(s[j]) < len(s[j-1]) {
				t.Fatal("not sorted", len(s), j)
			}
		}
	}
}
''')

add('c13-no-message', 'C13',
    [('sortyU4.go', """	ch <- partOneU4(ar, pv)
""", """	if k := partOneU4(ar, pv); k > 0 { // nothing to report otherwise
		ch <- k
	}
""")],
    'concurrent partition whose middle half holds only elements above the pivot',
    'the partitioning goroutine does not report, its caller waits for ever', """
func TestDemo(t *testing.T) {
	MaxGor = 4
	done := make(chan bool)
	go func() {
		for n := 2 * (MaxLenRec + 1); n < 2*(MaxLenRec+1)+300; n++ {
			s := make([]uint32, n)
			for i := n / 4; i < (3*n+3)/4; i++ {
				s[i] = 100
			}
			SortSlice(s)
			if s[0] != 0 || s[n-1] != 100 {
				panic("not sorted")
			}
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
}
""")
