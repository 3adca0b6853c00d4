//go:build linux && amd64

package checks

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"sync"
	"time"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/guard"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	All["C25"] = Def{
		Phases: func(th bool) []rt.Phase {
			return []rt.Phase{
				{Name: "history", N: pick(th, 6000, 200000), Cost: 1 << 20, Run: failHistory},
				{Name: "concurrent", N: pick(th, 60, 2000), Serial: true, Cost: 1 << 24, Run: failConcurrent},
				{Name: "retention", N: pick(th, 2, 20), Serial: true, Cost: 1 << 28, Run: failRetention},
				{Name: "first", N: 0, Serial: true, Cost: 1 << 20, Run: failFirst},
			}
		},
		Rule: "Histories of failing calls (streams that end early or whose memory becomes inaccessible after a random number of bytes, inputs likewise, outputs that are too short, read-only or inaccessible behind a random point, nil slices, negative lengths of generated slices) and proper ones. After each failing call the same function and some others get a proper call, on another goroutine for some; results are compared with the reference model. Some failing calls are the first call of a fresh process. Also compared: goroutines and live heap before and after. Non-trivial: a call that failed; distinct by function, way of failing and arguments.",
		Must: append([]string{"calls that failed by a run-time panic", "calls that failed by a memory fault", "proper calls of the function that failed", "proper calls on another goroutine after a failure", "proper calls of other functions after a failure", "goroutines counted", "retained heap measured"}, failNames()...),
	}
}

func failNames() (s []string) {
	for d := 0; d < 2; d++ {
		for _, x := range api.Writers[d] {
			s = append(s, "failed: "+x.Name)
		}
		for _, x := range api.Readers[d] {
			s = append(s, "failed: "+x.Name)
		}
		for _, x := range api.Encs8[d] {
			s = append(s, "failed: "+x.Name)
		}
		for _, x := range api.Decs8[d] {
			s = append(s, "failed: "+x.Name)
		}
		s = append(s, "failed: "+api.Put4Name[d], "failed: "+api.PutNName[d], "failed: "+api.Get4Name[d], "failed: "+api.GetNName[d])
	}
	return append(s, "failed: util.PutVarint", "failed: util.GetVarint", "failed: util.PutDeltaVarint", "failed: util.GetDeltaVarint", "failed: util.Delta", "failed: util.SortUint32")
}

// failer makes failing and proper calls on one goroutine.
type failer struct {
	r      gen.Rng
	in, ro *guard.Region // read-only views
	out    *guard.Region
	max    int
	calls  map[string]int
	counts map[string]int
	notes  []uint64
	viol   [][3]string
	after  string // the failure before
}

func newFailer(seed uint64, max int) *failer {
	return &failer{r: gen.New(seed), max: max, in: guard.New("in", 5*max+4096, true), ro: guard.New("ro", 5*max+4096, true), out: guard.New("out", 5*max+4096, false)}
}

func (f *failer) reset(seed uint64) {
	f.r, f.calls, f.counts, f.notes, f.viol, f.after = gen.New(seed), map[string]int{}, map[string]int{}, nil, nil, ""
}

func (f *failer) report(w *rt.W) {
	for k, n := range f.calls {
		w.Called(k, n)
	}
	for k, n := range f.counts {
		w.Count(k, n)
	}
	for _, h := range f.notes {
		w.Note(h)
	}
	for _, v := range f.viol {
		w.Violate(v[0], v[1], "%s", v[2])
	}
}

func (f *failer) wrong(fn, kind, format string, args ...any) {
	if len(f.viol) < 5 {
		f.viol = append(f.viol, [3]string{fn, kind, "after " + f.after + ": " + fmt.Sprintf(format, args...)})
	}
}

// fails makes a call that may fail.
func (f *failer) fails(fn, how string, h uint64, call func()) {
	f.calls[fn]++
	f.after = "the failure of " + fn + " (" + how + ")"
	defer func() {
		p := recover()
		if p == nil {
			f.counts["calls that were expected to fail and did not"]++
			return
		}
		f.counts["failed: "+fn]++
		if rt.IsFault(p) {
			f.counts["calls that failed by a memory fault"]++
		} else {
			f.counts["calls that failed by a run-time panic"]++
		}
		if len(f.notes) < 1<<18 {
			f.notes = append(f.notes, h^gen.HashBytes(h, []byte(fn+how)))
		}
	}()
	call()
}

// proper makes a call that must succeed.
func (f *failer) proper(fn string, call func()) (ok bool) {
	f.calls[fn]++
	defer func() {
		if p := recover(); p != nil {
			kind := "panic"
			if rt.IsFault(p) {
				kind = "memory-fault"
			}
			f.wrong(fn, kind, "a proper call: %v%s", p, rt.FaultAddr(p))
			ok = false
		}
	}()
	call()
	return true
}

func (f *failer) nums(max int) ([]uint32, uint32) {
	n := make([]uint32, 1+f.r.N(1+f.r.N(max)))
	gen.Patterns[f.r.N(len(gen.Patterns))].Fill(&f.r, n)
	return n, f.r.Prev(n)
}

// lay puts b at the end of r's memory; the slice is stretched beyond by more bytes.
func lay(r *guard.Region, b []byte, more int) []byte {
	x := r.Place(len(b), true, 0)
	copy(x.W, b)
	return guard.Stretch(x.V, len(b)+more)[: len(b)+more : len(b)+more]
}

func lay32(r *guard.Region, v []uint32, more int) []uint32 {
	x := r.Place(4*len(v), true, 0)
	copy(guard.U32(x.W), v)
	return guard.Stretch(guard.U32(x.V), len(v)+more)[: len(v)+more : len(v)+more]
}

// target is a function with a way to break a call of it and a proper call.
type target struct {
	fn   string
	bad  func()
	good func()
}

const kinds = 11

func (f *failer) target(kind int) target {
	d := f.r.N(2)
	switch kind {
	case 0, 1:
		wr := &api.Writers[d][f.r.N(len(api.Writers[d]))]
		return target{wr.Name, func() {
			nums, prev := f.nums(f.max)
			k := f.r.N(len(nums))
			in := lay32(f.in, nums[:k], len(nums)-k)
			f.fails(wr.Name, fmt.Sprintf("input of %d values inaccessible from value %d", len(nums), k), gen.Hash(uint64(k), nums), func() { wr.Fn(in, prev) })
		}, func() {
			nums, prev := f.nums(f.max)
			enc := nums
			if d == 1 {
				enc = ref.Deltas(nil, nums, prev)
			}
			var st []byte
			if f.proper(wr.Name, func() { st = wr.Fn(nums, prev) }) {
				if j := rt.DiffB(st, ref.Encode(nil, enc)); j >= 0 {
					f.wrong(wr.Name, "result", "byte %d of the stream differs from the reference; %s", j, describe(nums, prev, d)())
				}
			}
		}}
	case 2, 3, 4:
		rd := &api.Readers[d][f.r.N(len(api.Readers[d]))]
		return target{rd.Name, func() {
			nums, prev := f.nums(f.max)
			enc := nums
			if d == 1 {
				enc = ref.Deltas(nil, nums, prev)
			}
			st := ref.Encode(nil, enc)
			n := len(nums)
			count, in, out, how := n, lay(f.in, st, 0), lay32(f.out, make([]uint32, n), 0), ""
			switch f.r.N(8) {
			case 0:
				k := f.r.N(len(st))
				in, how = lay(f.in, st[:k], 0), fmt.Sprintf("stream of %d bytes cut to %d", len(st), k)
			case 1:
				k := f.r.N(len(st))
				in, how = lay(f.in, st[:k], len(st)-k), fmt.Sprintf("stream of %d bytes inaccessible from byte %d", len(st), k)
			case 2:
				k := f.r.N(n)
				out, how = lay32(f.out, make([]uint32, k), 0), fmt.Sprintf("output of %d values for %d", k, n)
			case 3:
				k := f.r.N(n)
				out, how = lay32(f.out, make([]uint32, k), n-k), fmt.Sprintf("output of %d values inaccessible from value %d", n, k)
			case 4:
				out, how = lay32(f.ro, make([]uint32, n), 0), "read-only output"
			case 5:
				in, how = nil, "nil stream"
			case 6:
				out, how = nil, "nil output"
			case 7:
				count += 1 + f.r.N(2000)
				how = fmt.Sprintf("count %d for a stream of %d values", count, n)
			}
			f.fails(rd.Name, how, gen.Hash(uint64(count), nums), func() { rd.Fn(count, in, out, prev) })
		}, func() {
			nums, prev := f.nums(f.max)
			enc := nums
			if d == 1 {
				enc = ref.Deltas(nil, nums, prev)
			}
			st := ref.Encode(nil, enc)
			if f.r.N(3) == 0 {
				for f.r.N(3) != 0 {
					st = append(st, byte(f.r.U32()))
				}
			}
			out := make([]uint32, len(nums)+f.r.N(2)*f.r.N(40))
			if f.proper(rd.Name, func() { rd.Fn(len(nums), st, out, prev) }) {
				if j := rt.Diff32(out[:len(nums)], nums); j >= 0 {
					f.wrong(rd.Name, "result", "value %d: got %#x want %#x; %s", j, out[j], nums[j], describe(nums, prev, d)())
				}
			}
		}}
	case 5, 6:
		return f.encoder(d)
	case 7, 8:
		return f.decoder(d)
	case 9:
		return f.varint(d)
	default:
		return f.helper()
	}
}

func (f *failer) encoder(d int) target {
	type enc struct {
		fn    string
		n     int
		short bool // stops at the length of the slices by itself
		call  func(in []uint32, out []byte, prev uint32) uint16
	}
	e8 := &api.Encs8[d][f.r.N(len(api.Encs8[d]))]
	e := enc{e8.Name, 8, e8.Scalar, e8.Fn}
	switch f.r.N(4) {
	case 0:
		e = enc{api.Put4Name[d], 4, true, func(in []uint32, out []byte, p uint32) uint16 { return uint16(api.Put4(d, in, out, p)) }}
	case 1:
		n := 1 + f.r.N(4)
		e = enc{api.PutNName[d], n, true, func(in []uint32, out []byte, p uint32) uint16 { return uint16(api.PutN(d, in, out, n, p)) }}
	}
	values := func() ([]uint32, uint32, []uint32) {
		nums := make([]uint32, e.n)
		gen.Patterns[f.r.N(len(gen.Patterns))].Fill(&f.r, nums)
		prev := f.r.Prev(nums)
		if d == 1 {
			return nums, prev, ref.Deltas(nil, nums, prev)
		}
		return nums, prev, nums
	}
	return target{e.fn, func() {
		nums, prev, vals := values()
		size := len(ref.Data(nil, vals))
		in, out, how := lay32(f.in, nums, 0), lay(f.out, make([]byte, 4*e.n), 0), ""
		ways := 4
		if e.short {
			ways = 6
		}
		switch f.r.N(ways) {
		case 0:
			in, how = nil, "nil input"
			if !e.short {
				in, how = lay32(f.in, nil, e.n), "inaccessible input"
			}
		case 1:
			k := f.r.N(e.n)
			in, how = lay32(f.in, nums[:k], e.n-k), fmt.Sprintf("input inaccessible from value %d", k)
		case 2:
			k := f.r.N(size)
			out, how = lay(f.out, make([]byte, k), 4*e.n-k), fmt.Sprintf("output inaccessible from byte %d of %d", k, size)
		case 3:
			out, how = lay(f.ro, make([]byte, 4*e.n), 0), "read-only output"
		case 4:
			k := f.r.N(e.n)
			in, how = lay32(f.in, nums[:k], 0), fmt.Sprintf("input of %d values", k)
		case 5:
			k := f.r.N(size)
			out, how = lay(f.out, make([]byte, k), 0), fmt.Sprintf("output of %d bytes for %d", k, size)
		}
		f.fails(e.fn, how, gen.Hash(uint64(prev), nums), func() { e.call(in, out, prev) })
	}, func() {
		nums, prev, vals := values()
		want := ref.Data(nil, vals)
		out := make([]byte, 4*e.n)
		var c uint16
		if f.proper(e.fn, func() { c = e.call(nums, out, prev) }) {
			ctrl := uint16(ref.Ctrl(vals[:min(4, e.n)]))
			if e.n == 8 {
				ctrl = ref.Ctrl8(vals)
			}
			if c != ctrl || string(out[:len(want)]) != string(want) {
				f.wrong(e.fn, "result", "control %#x data %x, want %#x %x; prev=%#x values %s", c, out, ctrl, want, prev, rt.Nums(nums))
			}
		}
	}}
}

func (f *failer) decoder(d int) target {
	type dec struct {
		fn    string
		n     int
		short bool
		call  func(in []byte, out []uint32, ctrl uint16, prev uint32)
	}
	d8 := &api.Decs8[d][f.r.N(len(api.Decs8[d]))]
	e := dec{d8.Name, 8, d8.Scalar, d8.Fn}
	switch f.r.N(4) {
	case 0:
		e = dec{api.Get4Name[d], 4, true, func(in []byte, out []uint32, c uint16, p uint32) { api.Get4(d, in, out, uint8(c), p) }}
	case 1:
		n := 1 + f.r.N(4)
		e = dec{api.GetNName[d], n, true, func(in []byte, out []uint32, c uint16, p uint32) { api.GetN(d, in, out, uint8(c), n, p) }}
	}
	values := func() (nums []uint32, prev uint32, data []byte, ctrl uint16) {
		nums = make([]uint32, e.n)
		gen.Patterns[f.r.N(len(gen.Patterns))].Fill(&f.r, nums)
		prev = f.r.Prev(nums)
		vals := nums
		if d == 1 {
			vals = ref.Deltas(nil, nums, prev)
		}
		ctrl = uint16(ref.Ctrl(vals[:min(4, e.n)]))
		if e.n == 8 {
			ctrl = ref.Ctrl8(vals)
		}
		return nums, prev, ref.Data(nil, vals), ctrl
	}
	return target{e.fn, func() {
		nums, prev, data, ctrl := values()
		in, out, how := lay(f.in, append(data, make([]byte, 4*e.n)...)[:4*e.n], 0), lay32(f.out, make([]uint32, e.n), 0), ""
		ways := 4
		if e.short {
			ways = 6
		}
		switch f.r.N(ways) {
		case 0:
			in, how = nil, "nil data"
			if !e.short {
				in, how = lay(f.in, nil, 4*e.n), "inaccessible data"
			}
		case 1:
			k := f.r.N(len(data))
			in, how = lay(f.in, data[:k], 4*e.n-k), fmt.Sprintf("data inaccessible from byte %d of %d", k, len(data))
		case 2:
			k := f.r.N(e.n)
			out, how = lay32(f.out, make([]uint32, k), e.n-k), fmt.Sprintf("output inaccessible from value %d", k)
		case 3:
			out, how = lay32(f.ro, make([]uint32, e.n), 0), "read-only output"
		case 4:
			k := f.r.N(len(data))
			in, how = lay(f.in, data[:k], 0), fmt.Sprintf("data of %d bytes for %d", k, len(data))
		case 5:
			k := f.r.N(e.n)
			out, how = lay32(f.out, make([]uint32, k), 0), fmt.Sprintf("output of %d values", k)
		}
		f.fails(e.fn, how, gen.Hash(uint64(prev), nums), func() { e.call(in, out, ctrl, prev) })
	}, func() {
		nums, prev, data, ctrl := values()
		in := append(data, make([]byte, 4*e.n)...)[:4*e.n]
		out := make([]uint32, e.n)
		if f.proper(e.fn, func() { e.call(in, out, ctrl, prev) }) {
			if j := rt.Diff32(out, nums); j >= 0 {
				f.wrong(e.fn, "result", "value %d: got %#x want %#x; control %#x prev=%#x values %s", j, out[j], nums[j], ctrl, prev, rt.Nums(nums))
			}
		}
	}}
}

func (f *failer) varint(d int) target {
	name := [2]string{"Varint", "DeltaVarint"}[d]
	encode := func(nums []uint32, prev uint32) (b []byte) {
		if d == 1 {
			nums = ref.Deltas(nil, nums, prev)
		}
		for _, v := range nums {
			b = ref.Uvarint(b, v)
		}
		return
	}
	if f.r.N(2) == 0 {
		put := func(nums []uint32, out []byte, prev uint32) int {
			if d == 1 {
				return api.PutDeltaVarint(nums, out, prev)
			}
			return api.PutVarint(nums, out)
		}
		return target{"util.Put" + name, func() {
			nums, prev := f.nums(200)
			b := encode(nums, prev)
			k := f.r.N(len(b))
			in, out, how := nums, lay(f.out, b[:k], 0), fmt.Sprintf("output of %d bytes for %d", k, len(b))
			switch f.r.N(3) {
			case 0:
				out, how = lay(f.ro, make([]byte, 5*len(nums)), 0), "read-only output"
			case 1:
				k := f.r.N(len(nums))
				in, out, how = lay32(f.in, nums[:k], len(nums)-k), lay(f.out, make([]byte, 5*len(nums)), 0), fmt.Sprintf("input inaccessible from value %d", k)
			}
			f.fails("util.Put"+name, how, gen.Hash(uint64(k), nums), func() { put(in, out, prev) })
		}, func() {
			nums, prev := f.nums(200)
			want, out, n := encode(nums, prev), make([]byte, 5*len(nums)), 0
			if f.proper("util.Put"+name, func() { n = put(nums, out, prev) }) && (n != len(want) || string(out[:n]) != string(want)) {
				f.wrong("util.Put"+name, "result", "%d bytes differ from the reference; %s", n, describe(nums, prev, d)())
			}
		}}
	}
	get := func(data []byte, out []uint32, prev uint32) int {
		if d == 1 {
			return api.GetDeltaVarint(data, out, prev)
		}
		return api.GetVarint(data, out)
	}
	return target{"util.Get" + name, func() {
		nums, prev := f.nums(200)
		b := encode(nums, prev)
		k := f.r.N(len(nums))
		in, out, how := b, lay32(f.out, nums[:k], 0), fmt.Sprintf("output of %d values for %d", k, len(nums))
		switch f.r.N(3) {
		case 0:
			out, how = lay32(f.ro, make([]uint32, len(nums)), 0), "read-only output"
		case 1:
			k := f.r.N(len(b))
			in, out, how = lay(f.in, b[:k], len(b)-k), make([]uint32, len(nums)), fmt.Sprintf("data inaccessible from byte %d of %d", k, len(b))
		}
		f.fails("util.Get"+name, how, gen.Hash(uint64(k), nums), func() { get(in, out, prev) })
	}, func() {
		nums, prev := f.nums(200)
		out := make([]uint32, len(nums))
		in := encode(nums, prev)
		if f.proper("util.Get"+name, func() { get(in, out, prev) }) {
			if j := rt.Diff32(out, nums); j >= 0 {
				f.wrong("util.Get"+name, "result", "value %d: got %#x want %#x; %s", j, out[j], nums[j], describe(nums, prev, d)())
			}
		}
	}}
}

func (f *failer) helper() target {
	switch f.r.N(3) {
	case 0:
		return target{"util.Delta", func() {
			nums, _ := f.nums(200)
			k := f.r.N(len(nums))
			in, out, how := nums, lay32(f.out, nums[:k], 0), fmt.Sprintf("output of %d values for %d", k, len(nums))
			switch f.r.N(3) {
			case 0:
				out, how = lay32(f.ro, nums, 0), "read-only output"
			case 1:
				in, out, how = lay32(f.in, nums[:k], len(nums)-k), make([]uint32, len(nums)), fmt.Sprintf("input inaccessible from value %d", k)
			}
			f.fails("util.Delta", how, gen.Hash(uint64(k), nums), func() { api.Delta(in, out) })
		}, func() {
			nums, _ := f.nums(200)
			out := make([]uint32, len(nums))
			if f.proper("util.Delta", func() { api.Delta(nums, out) }) {
				if j := rt.Diff32(out, ref.Deltas(nil, nums, 0)); j >= 0 {
					f.wrong("util.Delta", "result", "value %d differs; %s", j, rt.Nums(nums))
				}
			}
		}}
	case 1:
		return target{"util.SortUint32", func() {
			nums, _ := f.nums(200)
			k := f.r.N(len(nums))
			nums = append(nums, nums...)
			d, how := lay32(f.out, nums[:k], len(nums)-k), fmt.Sprintf("memory inaccessible from value %d of %d", k, len(nums))
			if f.r.N(3) == 0 {
				nums[len(nums)-1], nums[0] = 0, 1
				d, how = lay32(f.ro, nums, 0), "read-only memory"
			}
			f.fails("util.SortUint32", how, gen.Hash(uint64(k), nums), func() { api.SortUint32(d) })
		}, func() {
			nums, _ := f.nums(200)
			want := slices.Clone(nums)
			gen.Sort(want)
			if f.proper("util.SortUint32", func() { api.SortUint32(nums) }) {
				if j := rt.Diff32(nums, want); j >= 0 {
					f.wrong("util.SortUint32", "result", "value %d: got %#x want %#x", j, nums[j], want[j])
				}
			}
		}}
	}
	return target{"util.GenUint32", func() {
		n := -1 - f.r.N(1000)
		f.fails("util.GenUint32", fmt.Sprintf("n=%d", n), uint64(n), func() { api.GenUint32(n) })
	}, func() {
		n := f.r.N(200)
		var g []uint32
		if f.proper("util.GenUint32", func() { g = api.GenUint32(n) }) && len(g) != n {
			f.wrong("util.GenUint32", "result", "%d values for n=%d", len(g), n)
		}
		f.proper("util.RandUint32", func() { api.RandUint32() })
	}}
}

// elsewhere runs g on a new goroutine.
func elsewhere(g func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		debug.SetPanicOnFault(true)
		g()
	}()
	<-done
}

func (f *failer) work(n int) {
	for ; n > 0; n-- {
		t := f.target(f.r.N(kinds))
		for k := f.r.N(3); k >= 0; k-- {
			if f.r.N(8) == 0 {
				elsewhere(t.bad)
			} else {
				t.bad()
			}
		}
		f.counts["proper calls of the function that failed"]++
		if f.r.N(6) == 0 {
			f.counts["proper calls on another goroutine after a failure"]++
			elsewhere(t.good)
		} else {
			t.good()
		}
		for k := f.r.N(4); k > 0; k-- {
			f.counts["proper calls of other functions after a failure"]++
			f.target(f.r.N(kinds)).good()
		}
		if f.r.N(3) == 0 {
			t.good()
		}
	}
}

func failHistory(w *rt.W, i int) {
	f := rt.State(w, "failer", func() *failer { return newFailer(0, 500) })
	f.reset(w.R.U64())
	f.work(20)
	f.report(w)
}

func failFirst(w *rt.W, i int) {
	f := newFailer(0, 500)
	f.reset(w.R.U64())
	t := f.target(i % kinds)
	t.bad()
	t.good()
	f.counts["proper calls of the function that failed"]++
	f.counts["failing calls at the start of a process"]++
	for k := 0; k < kinds; k++ {
		f.target(k).good()
	}
	f.work(5)
	f.report(w)
}

// failConcurrent has several goroutines at once, some only making proper calls.
func failConcurrent(w *rt.W, i int) {
	before := runtime.NumGoroutine()
	fs := rt.State(w, "failers", func() (fs []*failer) {
		for k := 0; k < 12; k++ {
			fs = append(fs, newFailer(0, 500))
		}
		return
	})
	n := 2 + w.R.N(len(fs)-1)
	old := runtime.GOMAXPROCS([]int{runtime.NumCPU(), 2, 4, 1, 32}[i%5])
	defer runtime.GOMAXPROCS(old)
	var wg sync.WaitGroup
	for k, f := range fs[:n] {
		f.reset(w.R.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			if k%3 == 1 {
				f.after = "failures on other goroutines"
				for j := 0; j < 300; j++ {
					f.target(f.r.N(kinds)).good()
				}
				return
			}
			f.work(100)
		}()
	}
	wg.Wait()
	for _, f := range fs[:n] {
		f.report(w)
	}
	var now int
	for k := 0; k < 300; k++ {
		if now = runtime.NumGoroutine(); now <= before {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	w.Count("goroutines counted", 1)
	if now > before {
		w.Violate("failing calls", "goroutine-leak", "%d goroutines after calls that failed, %d before", now, before)
	}
}

func failRetention(w *rt.W, i int) {
	f := newFailer(0, 1<<20)
	f.reset(w.R.U64())
	round := func(n int) {
		for k := 0; k < n; k++ {
			for kind := 0; kind < kinds; kind++ {
				f.target(kind).bad()
			}
		}
	}
	round(8)
	f.notes = make([]uint64, 0, 1<<18)
	deepen(200)
	h0 := liveHeap()
	round(40)
	h1 := h0
	for k := 0; k < 40; k++ {
		deepen(200)
		if h1 = liveHeap(); h1 <= h0+1<<20 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	w.Count("retained heap measured", 1)
	w.Sample("live heap %d before, %d after %d failing calls", h0, h1, 40*kinds)
	if h1 > h0+1<<20 {
		w.Violate("failing calls", "retention", "%d bytes are still in use after %d calls that failed; before, %d were", h1, 40*kinds, h0)
	}
	f.report(w)
}
