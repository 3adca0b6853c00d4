package checks

import (
	"runtime"
	"runtime/debug"
	"time"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	All["C23"] = Def{
		Phases: func(th bool) []rt.Phase {
			return []rt.Phase{
				{Name: "time", N: pick(th, 3, 20), Serial: true, Cost: 1 << 30, Run: timeUse},
				{Name: "memory", N: pick(th, 24, 200), Serial: true, Cost: 1 << 28, Run: memoryUse},
				{Name: "retention", N: pick(th, 12, 80), Serial: true, Cost: 1 << 28, Run: retention},
				{Name: "surplus", N: pick(th, 2, 10), Serial: true, Cost: 1 << 28, Run: surplusTime},
			}
		},
		Rule: "Every function on inputs of 0 to 4 million values of several patterns. Observed: bytes allocated during the call (runtime.MemStats), heap still in use after results were dropped and collected, time per value for short and long inputs and for different patterns (best of several repetitions), and time to decode few values with long surplus stream and output. Non-trivial: a call on at least one value; distinct by function, length and pattern.",
		Must: []string{"allocations measured", "retention measured", "times measured", "writer.WriteAll", "reader.ReadAll", "util.GetVarint", "util.SortUint32", "util.GenUint32", "encode.Put8uint32", "decode.Get8uint32Delta"},
	}
}

// job is one call with its arguments prepared.
type job struct {
	fn  string
	n   int
	per int // bytes that may be allocated per value
	run func()
}

// jobs prepares a call of each function on nums.
func jobs(nums []uint32, prev uint32) (js []job) {
	n := len(nums)
	out := make([]uint32, n)
	add := func(fn string, per int, f func()) {
		if !slow[fn] || n <= 1<<12 {
			js = append(js, job{fn, n, per, f})
		}
	}
	vb := make([]byte, 5*n)
	for d := 0; d < 2; d++ {
		enc := nums
		if d == 1 {
			enc = ref.Deltas(nil, nums, prev)
		}
		for i := range api.Writers[d] {
			wr := &api.Writers[d][i]
			add(wr.Name, 16, func() { sink = wr.Fn(nums, prev) })
		}
		st := ref.Encode(nil, enc)
		for i := range api.Readers[d] {
			rd := &api.Readers[d][i]
			add(rd.Name, 0, func() { rd.Fn(n, st, out, prev) })
		}
		var v []byte
		for _, x := range enc {
			v = ref.Uvarint(v, x)
		}
		if d == 0 {
			add(putV[d], 0, func() { api.PutVarint(nums, vb) })
			add(getV[d], 0, func() { api.GetVarint(v, out) })
		} else {
			add(putV[d], 0, func() { api.PutDeltaVarint(nums, vb, prev) })
			add(getV[d], 0, func() { api.GetDeltaVarint(v, out, prev) })
		}
		if n >= 8 {
			blocks := n &^ 7
			for i := range api.Encs8[d] {
				e := &api.Encs8[d][i]
				add(e.Name, 1, func() {
					for k := 0; k < blocks; k += 8 {
						e.Fn(nums[k:k+8], vb[:32], prev)
					}
				})
			}
			for i := range api.Decs8[d] {
				e := &api.Decs8[d][i]
				add(e.Name, 1, func() {
					for k := 0; k < blocks; k += 8 {
						e.Fn(vb[:32], out[k:k+8], uint16(k), prev)
					}
				})
			}
		}
	}
	add("util.Delta", 0, func() { api.Delta(nums, out) })
	tmp := make([]uint32, n)
	add("util.SortUint32", 16, func() { copy(tmp, nums); api.SortUint32(tmp) })
	add("util.GenUint32", 16, func() { sink32 = api.GenUint32(n) })
	return js
}

// slow functions took too long for their input, and get no more long ones.
var slow = map[string]bool{}

var (
	sink   []byte
	sink32 []uint32
)

const memorySlack = 128 << 10

// memoryUse: the bytes allocated by a call.
func memoryUse(w *rt.W, i int) {
	n := []int{0, 1, 7, 100, 1000, 4096, 1<<15 + 3, 100000, 1 << 18, 1<<20 + 5, 1 << 21, 3000000}[i%12]
	nums := make([]uint32, n)
	p := w.R.N(len(gen.Patterns))
	gen.Patterns[p].Fill(&w.R, nums)
	prev := w.R.Prev(nums)
	for _, j := range jobs(nums, prev) {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		ok := w.Call(j.fn, describe(nums, prev, 1), j.run)
		runtime.ReadMemStats(&b)
		sink, sink32 = nil, nil
		if !ok {
			continue
		}
		w.Count("allocations measured", 1)
		if n > 0 {
			w.Note(gen.HashBytes(uint64(n)<<8|uint64(p), []byte(j.fn)))
		}
		got, limit := b.TotalAlloc-a.TotalAlloc, uint64(j.per*n+memorySlack)
		if i%12 == 11 && j.per == 16 {
			w.Sample("%s on %d values of pattern %s allocated %d bytes", j.fn, n, gen.Patterns[p].Name, got)
		}
		if got > limit {
			w.Violate(j.fn, "allocation", "allocated %d bytes for %d values, at most %d are expected; prev=%#x %s", got, n, limit, prev, rt.Nums(nums))
		}
		if b.StackSys > a.StackSys+(1<<20) {
			w.Violate(j.fn, "stack", "the stack memory grew from %d to %d bytes during a call on %d values", a.StackSys, b.StackSys, n)
		}
	}
}

func liveHeap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// retention: nothing that calls allocated or were given stays reachable.
func retention(w *rt.W, i int) {
	debug.FreeOSMemory()
	base := liveHeap()
	var calls int
	many := i%2 == 1
	func() {
		if many { // many calls of differing lengths
			for k := 0; k < 300; k++ {
				nums := make([]uint32, w.R.N(1+w.R.N(3000)))
				gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
				for _, j := range jobs(nums, 7) {
					if w.Call(j.fn, describe(nums, 7, 1), j.run) {
						calls++
					}
					sink, sink32 = nil, nil
				}
			}
			return
		}
		nums := make([]uint32, 1<<21+i)
		gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
		w.Note(gen.Hash(3, nums[:64]))
		for _, j := range jobs(nums, 7) {
			if w.Call(j.fn, describe(nums, 7, 1), j.run) {
				calls++
			}
			sink, sink32 = nil, nil
		}
	}()
	var now uint64
	for k := 0; k < 40; k++ {
		deepen(64)
		if now = liveHeap(); now <= base+(2<<20) {
			w.Count("retention measured", calls)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	w.Violate("codec and helpers", "retention", "%d bytes are still in use after %d calls whose arguments and results were all dropped; before, %d were", now, calls, base)
}

//go:noinline
func deepen(n int) int { // overwrites dead stack slots
	var pad [256]int
	for i := range pad {
		pad[i] = n
	}
	if n == 0 {
		return pad[n]
	}
	return deepen(n-1) + pad[n]
}

// best is the shortest of several runs.
func best(reps int, f func()) time.Duration {
	b := time.Duration(1 << 62)
	for k := 0; k < reps; k++ {
		t := time.Now()
		f()
		b = min(b, time.Since(t))
	}
	return b
}

// timeUse: time per value does not grow with the length, nor much with the values.
func timeUse(w *rt.W, i int) {
	const short, long, factor = 1 << 12, 1 << 21, 40
	base := map[string]time.Duration{}
	per := map[string]float64{}
	small := make([]uint32, short)
	gen.Patterns[gen.PatternIndex("class")].Fill(&w.R, small)
	for _, j := range jobs(small, 3) {
		if !w.Call(j.fn, describe(small, 3, 1), j.run) {
			return
		}
		base[j.fn] = best(30, j.run)
		per[j.fn] = float64(base[j.fn]) / short
	}
	for _, name := range append([]string{"class", "zeros", "max", "sorted", "reverse", "alternate", "sawtooth", "walk"}, sortNames...) {
		nums := make([]uint32, long)
		order := sortOrders[name]
		if order == nil {
			gen.Patterns[gen.PatternIndex(name)].Fill(&w.R, nums)
		}
		var js []job
		for n := 1 << 13; n <= long; n *= 4 { // a quadratic one is found out before it takes ages
			if order != nil { // orders that are hard for some ways to sort
				if slow["util.SortUint32"] {
					break
				}
				in, tmp := make([]uint32, n), nums[:n:n]
				if order(&w.R, in); in[0] == 0 && in[n-1] == 0 && in[n/2] == 0 {
					break // no longer ones of this kind
				}
				js = append(js, job{"util.SortUint32", n, 16, func() { copy(tmp, in); api.SortUint32(tmp) }})
				continue
			}
			js = append(js, jobs(nums[:n], 3)...)
		}
		for _, j := range js {
			fn, run, m := j.fn, j.run, j.n
			if slow[fn] {
				continue
			}
			var got float64
			var d time.Duration
			for try := 0; try < 4; try++ {
				if !w.Call(fn, describe(nums, 3, 1), func() { d = best(1+3*min(try, 1), run) }) {
					return
				}
				got = float64(d) / float64(m)
				if got <= factor*per[fn]+20 {
					break
				}
			}
			sink, sink32 = nil, nil
			w.Count("times measured", 1)
			w.Note(gen.HashBytes(uint64(m)<<8, []byte(fn+name)))
			if name == "class" && i == 0 {
				w.Sample("%s: %.2f ns per value for %d values, %.2f for %d", fn, per[fn], short, got, m)
			}
			if got > factor*per[fn]+20 {
				w.Violate(fn, "time", "%.1f ns per value for %d values of pattern %s, but %.1f ns for %d values", got, m, name, per[fn], short)
				slow[fn] = true
			}
		}
	}
}

// surplusTime: decoding a few values does not depend on what follows them.
func surplusTime(w *rt.W, i int) {
	nums := make([]uint32, 5+40*i)
	gen.Patterns[gen.PatternIndex("class")].Fill(&w.R, nums)
	stream := make([]byte, 1<<26)
	out := make([]uint32, 1<<24)
	for d := 0; d < 2; d++ {
		enc := nums
		if d == 1 {
			enc = ref.Deltas(nil, nums, 9)
		}
		ref.Encode(stream[:0], enc)
		for k := range stream[5*len(nums)+1:] {
			stream[5*len(nums)+1+k] = 1
		}
		for r := range api.Readers[d] {
			rd := &api.Readers[d][r]
			var t time.Duration
			if !w.Call(rd.Name, describe(nums, 9, d), func() { t = best(40, func() { rd.Fn(len(nums), stream, out, 9) }) }) {
				continue
			}
			w.Count("times measured", 1)
			w.Note(gen.HashBytes(uint64(i), []byte(rd.Name+"surplus")))
			if t > time.Millisecond {
				slow[rd.Name] = true
				w.Violate(rd.Name, "time", "decoding %d values took %v at best, with a stream of %d bytes and room for %d values", len(nums), t, len(stream), len(out))
			}
		}
	}
}
