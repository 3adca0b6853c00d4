package checks

import (
	"errors"
	"math/bits"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/rt"
)

func init() {
	All["C19"] = Def{Phases: helperChecks,
		Rule: seqRule + " For the difference and sort helpers; plus tens of millions of draws of the random helpers, counted per byte length, per value (1, 2 and 3 bytes) and per range. Non-trivial: at least one value, or a draw.",
		Must: []string{"util.Delta", "util.SortUint32", "util.GenUint32", "util.RandUint32", "util.SilentClose", "draws", "positions of generated sequences", "orders hard to sort"},
	}
}

func helperChecks(th bool) []rt.Phase {
	body := func(w *rt.W, nums []uint32) {
		n := len(nums)
		desc := describe(nums, 0, 0)
		sur := w.R.N(2) * w.R.N(20)
		out := buf32(w, "out", n+sur+8)
		for i := range out {
			out[i] = 0x77777777
		}
		if w.Call("util.Delta", desc, func() { api.Delta(nums, out[:n+sur]) }) {
			var p uint32
			for i, v := range nums {
				if out[i] != v-p {
					w.Violate("util.Delta", "differences", "value %d: got %#x want %#x; %s", i, out[i], v-p, desc())
					break
				}
				p = v
			}
			for i := n; i < len(out); i++ {
				if out[i] != 0x77777777 {
					w.Violate("util.Delta", "overrun", "stored at %d of %d; %s", i, n, desc())
					break
				}
			}
		}
		want := buf32(w, "want", n)
		copy(want, nums)
		gen.Sort(want)
		full := buf32(w, "sortbuf", n+16)
		for i := range full {
			full[i] = 0x01020304
		}
		copy(full[8:], nums)
		if w.Call("util.SortUint32", desc, func() { api.SortUint32(full[8 : 8+n]) }) {
			if k := rt.Diff32(full[8:8+n], want); k >= 0 {
				w.Violate("util.SortUint32", "sort", "position %d: got %#x want %#x; %s", k, full[8+k], want[k], desc())
			}
			for i := range full {
				if (i < 8 || i >= 8+n) && full[i] != 0x01020304 {
					w.Violate("util.SortUint32", "overrun", "changed the value at %d of %d; %s", i-8, n, desc())
					break
				}
			}
		}
	}
	ps := seqPhases(th, scale{Div: 4, MaxBig: 1 << 20}, body)
	ps = append(ps, rt.Phase{Name: "orders", N: len(sortNames) * pick(th, 6, 60), Cost: 1 << 18, Run: func(w *rt.W, i int) {
		n := 1 << 15
		if k := i / len(sortNames); k%3 == 1 {
			n = 1 << (1 + w.R.N(16))
		} else if k%3 == 2 {
			n = 2 + w.R.N(1+w.R.N(1<<18))
		}
		nums := make([]uint32, n)
		sortOrders[sortNames[i%len(sortNames)]](&w.R, nums)
		w.Note(gen.Hash(1<<54, nums))
		w.Count("orders hard to sort", 1)
		body(w, nums)
	}})
	// every permutation of up to 8 values, every sequence of up to 16 zeros and ones
	ps = append(ps, rt.Phase{Name: "permutations", N: 9*40320 + 1<<17, Run: func(w *rt.W, i int) {
		var nums []uint32
		if n := i / 40320; n < 9 {
			i %= 40320
			for k := 0; k < n; k++ {
				at := i % (k + 1)
				i /= k + 1
				nums = append(nums, 0)
				copy(nums[at+1:], nums[at:])
				nums[at] = w.R.U32()>>3 | uint32(k)<<29
			}
			if i > 0 {
				return
			}
		} else {
			for i -= 9 * 40320; i > 1; i >>= 1 {
				nums = append(nums, uint32(i&1)<<31)
			}
		}
		w.Note(gen.Hash(1<<55, nums))
		body(w, nums)
	}})
	ps = append(ps, rt.Phase{Name: "gen", N: 2000, Run: func(w *rt.W, i int) {
		n := i
		if i >= 1990 {
			n = 100000 * (i - 1989)
		}
		var a, b []uint32
		if w.Call("util.GenUint32", func() string { return "" }, func() { a, b = api.GenUint32(n), api.GenUint32(n) }) {
			if len(a) != n || len(b) != n {
				w.Violate("util.GenUint32", "length", "%d and %d values for n=%d", len(a), len(b), n)
				return
			}
			w.Note(uint64(n) | 1<<50)
			if n >= 100 && rt.Diff32(a, b) < 0 {
				w.Violate("util.GenUint32", "repetition", "two calls for %d values gave the same ones", n)
			}
			if n >= 10000 {
				distribution(w, "util.GenUint32", a, 0.05)
			}
		}
	}})
	ps = append(ps, rt.Phase{Name: "positions", N: pick(th, 24, 200), Cost: 1 << 20, Run: positions})
	ps = append(ps, rt.Phase{Name: "close", N: 40, Run: func(w *rt.W, i int) {
		c := &closer{fail: i%2 == 0}
		if w.Call("util.SilentClose", func() string { return "" }, func() { api.SilentClose(c) }) && c.n != 1 {
			w.Violate("util.SilentClose", "calls", "Close was called %d times", c.n)
		}
		w.Note(uint64(i) | 1<<53)
	}})
	// before "draws", which seeds the default source and so makes it slow
	ps = append(ps, rt.Phase{Name: "values", N: 1, Serial: true, Cost: 1 << 30, Run: everyValue})
	ps = append(ps, rt.Phase{Name: "draws", N: pick(th, 1, 20), Serial: true, Cost: 1 << 28, Run: drawTest})
	return ps
}

// distribution checks the shares of the byte lengths.
func distribution(w *rt.W, fn string, d []uint32, tol float64) {
	var n [4]int
	for _, v := range d {
		n[class(v)]++
	}
	for k, c := range n {
		if share := float64(c) / float64(len(d)); share < 0.25-tol || share > 0.25+tol {
			w.Violate(fn, "byte-lengths", "share of %d-byte values is %.5f of %d (all shares should be 0.25 +- %g; counts %v)", k+1, share, len(d), tol, n)
		}
	}
}

func class(v uint32) int {
	switch {
	case v < 1<<8:
		return 0
	case v < 1<<16:
		return 1
	case v < 1<<24:
		return 2
	}
	return 3
}

type closer struct {
	n    int
	fail bool
}

func (c *closer) Close() error {
	c.n++
	if c.fail {
		return errors.New("close failed")
	}
	return nil
}

// positions looks at the distribution at each place of short results, and at
// the places near the ends of longer ones.
func positions(w *rt.W, i int) {
	n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 1000}[i%24]
	const calls = 12000
	ends := min(n, 40)
	counts := make([][4]int, 2*ends)
	var same, last []uint32
	equal := make([]int, 2*ends)
	at := func(k int) int {
		if k < ends {
			return k
		}
		return n - 2*ends + k
	}
	for k := 0; k < calls; k++ {
		var d []uint32
		if !w.Call("util.GenUint32", func() string { return "" }, func() { d = api.GenUint32(n) }) {
			return
		}
		if len(d) != n {
			w.Violate("util.GenUint32", "length", "%d values for n=%d", len(d), n)
			return
		}
		for p := range counts {
			v := d[at(p)]
			counts[p][class(v)]++
			if last != nil && last[p] == v {
				equal[p]++
			}
		}
		same = same[:0]
		for p := range counts {
			same = append(same, d[at(p)])
		}
		last = append(last[:0], same...)
	}
	w.Note(uint64(n) | 1<<52)
	w.Count("positions of generated sequences", len(counts))
	for p, c := range counts {
		for b := range c { // sd 0.004
			if share := float64(c[b]) / calls; share < 0.2 || share > 0.3 {
				w.Violate("util.GenUint32", "byte-lengths", "n=%d: share of %d-byte values at position %d is %.4f of %d (counts %v)", n, b+1, at(p), share, calls, c)
				return
			}
		}
		if equal[p] > calls/100 { // expected: one in 4000
			w.Violate("util.GenUint32", "repetition", "n=%d: position %d holds the same value as in the call before %d times of %d", n, at(p), equal[p], calls)
			return
		}
	}
}

// everyValue draws until every value of 1 to 3 bytes must have occurred: 36
// times each on average, so that a value is missing by chance with a
// probability of 4e-9 (all 2^24 values together). It gives up after a while if
// the generator is too slow for that.
func everyValue(w *rt.W, i int) {
	const average, chunk = 36, 1 << 16
	goal := int64(average) << 26
	stop := time.Now().Add(240 * time.Second)
	var drawn int64
	n := runtime.NumCPU()
	seen := make([][]uint64, n)
	if !w.Call("util.RandUint32", func() string { return "" }, func() {
		var wg sync.WaitGroup
		for k := range seen {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := make([]uint64, 1<<18)
				seen[k] = s
				for atomic.AddInt64(&drawn, chunk) <= goal && time.Now().Before(stop) {
					for j := 0; j < chunk; j++ {
						if v := api.RandUint32(); v < 1<<24 {
							s[v>>6] |= 1 << (v & 63)
						}
					}
				}
			}()
		}
		wg.Wait()
	}) {
		return
	}
	w.Note(1<<51 + uint64(i))
	if drawn < goal { // too slow: only the ends of the ranges
		w.Sample("values: only %d draws in the time", drawn)
		for _, v := range []uint32{0, 1<<8 - 1, 1 << 8, 1<<16 - 1, 1 << 16, 1<<24 - 1} {
			found := drawn < 20<<26
			for k := range seen {
				found = found || seen[k][v>>6]>>(v&63)&1 != 0
			}
			if !found {
				w.Violate("util.RandUint32", "values", "value %#x was never drawn in %d draws", v, drawn)
			}
		}
		return
	}
	w.Count("draws in search of every value", int(goal))
	for x := range seen[0] {
		var m uint64
		for k := range seen {
			m |= seen[k][x]
		}
		if m != 1<<64-1 {
			w.Violate("util.RandUint32", "values", "value %#x was never drawn in %d draws, %d were to be expected", x<<6+bits.TrailingZeros64(^m), drawn, average)
			return
		}
	}
}

// drawTest draws 2^26 numbers. All tolerances are at least 9 standard
// deviations; a reduction of a uniform draw modulo the range is allowed for,
// which makes some 4-byte values twice as likely.
func drawTest(w *rt.W, i int) {
	rand.Seed(int64(w.R.U64() >> 1)) // reproducible if the helper uses the default source
	const total = 1 << 26
	low := make([]uint16, 1<<24)
	var hi [256]int
	var n [4]int
	var after [4][4]int
	repeats := 0
	edge := map[uint32]int{}
	for _, e := range gen.Edges {
		if e >= 1<<24 {
			edge[e] = 0
		}
	}
	recent := make([]uint32, 0, 1<<22)
	const chunk = 1 << 16
	d := make([]uint32, chunk)
	for k := 0; k < total/chunk; k++ {
		if !w.Call("util.RandUint32", func() string { return "" }, func() {
			for j := range d {
				d[j] = api.RandUint32()
			}
		}) {
			return
		}
		for j, v := range d {
			c := class(v)
			n[c]++
			if j > 0 {
				after[class(d[j-1])][c]++
				if v == d[j-1] {
					repeats++
				}
			}
			if c == 3 {
				hi[v>>24]++
				if _, ok := edge[v]; ok {
					edge[v]++
				}
				if len(recent) < cap(recent) {
					recent = append(recent, v)
				}
			} else if low[v] < 65535 {
				low[v]++
			}
		}
		w.Note(gen.Hash(uint64(k), d[:16]))
	}
	w.Count("draws", total)
	w.Sample("draws %d, per byte length %v, first %x", total, n, d[:8])
	fn := "util.RandUint32"
	for k, c := range n {
		if s := float64(c) / total; s < 0.2495 || s > 0.2505 {
			w.Violate(fn, "byte-lengths", "share of %d-byte values is %.5f of %d draws (counts %v)", k+1, s, total, n)
		}
	}
	for a := range after {
		for b, c := range after[a] { // sd 0.00003
			if s := float64(c) / total; s < 0.0615 || s > 0.0635 {
				w.Violate(fn, "byte-lengths", "a %d-byte value follows a %d-byte one in %.5f of %d draws (should be 0.0625)", b+1, a+1, s, total)
			}
		}
	}
	if repeats > total/2048 { // expected: one in 4096
		w.Violate(fn, "repetition", "%d of %d draws are the same as the one before", repeats, total)
	}
	// 1 byte: about 65535 of each (counter saturates there), so look at a share
	// of a second, smaller sample through the sums below
	rangeTest := func(lo, hi, bin int, tol float64) {
		bins := (hi - lo) / bin
		sum := 0
		for v := lo; v < hi; v++ {
			sum += int(low[v])
		}
		avg := float64(sum) / float64(bins)
		for b := 0; b < bins; b++ {
			s := 0
			for v := lo + b*bin; v < lo+(b+1)*bin; v++ {
				s += int(low[v])
			}
			if f := float64(s); f < avg*(1-tol) || f > avg*(1+tol) {
				w.Violate(fn, "values", "values %#x..%#x were drawn %d times, the average is %.0f", lo+b*bin, lo+(b+1)*bin-1, s, avg)
				return
			}
		}
	}
	rangeTest(1<<8, 1<<16, 1, 0.70) // about 257 each, sd 16
	rangeTest(1<<8, 1<<16, 256, 0.05)
	rangeTest(1<<16, 1<<24, 256, 0.70)
	rangeTest(1<<16, 1<<24, 65536, 0.05)
	for v := 1 << 16; v < 1<<24; v++ {
		if low[v] > 40 { // about 1 each
			w.Violate(fn, "values", "value %#x was drawn %d times, the average is 1", v, low[v])
			break
		}
	}
	avg := float64(n[3]) / 255
	for b := 1; b < 256; b++ {
		if f := float64(hi[b]); f < 0.9*avg || f > 2.2*avg {
			w.Violate(fn, "values", "values with top byte %#x were drawn %d times, the average is %.0f", b, hi[b], avg)
			break
		}
	}
	for v, c := range edge {
		if c > 10 { // expected 0.004 to 0.008
			w.Violate(fn, "values", "value %#x was drawn %d times in %d draws", v, c, n[3])
		}
	}
	gen.Sort(recent)
	run := 1
	for k := 1; k < len(recent); k++ {
		if recent[k] == recent[k-1] {
			if run++; run > 10 {
				w.Violate(fn, "values", "value %#x was drawn more than 10 times in %d draws", recent[k], len(recent))
				break
			}
		} else {
			run = 1
		}
	}
	// 1 byte, with counters of their own
	var one [256]int
	m := 0
	for k := 0; k < 1<<23; k++ {
		if v := api.RandUint32(); v < 256 {
			one[v]++
			m++
		}
	}
	w.Called(fn, 1<<23)
	for v, c := range one { // about 8192 each, sd 90
		if f := float64(c) * 256 / float64(m); f < 0.88 || f > 1.12 {
			w.Violate(fn, "values", "value %#x was drawn %d times in %d draws of 1 byte", v, c, m)
			break
		}
	}
}
