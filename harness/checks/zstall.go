//go:build linux && amd64

package checks

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"syscall"
	"time"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
	"svbverif/stall"
)

func init() {
	d := All["C13"]
	base := d.Phases
	d.Phases = func(th bool) []rt.Phase {
		if _, err := stall.New(1); err != nil {
			return base(th) // no userfaultfd here
		}
		n := pick(th, 2500, 50000)
		if raceBuild {
			n /= 4
		}
		return append(base(th), rt.Phase{Name: "stalled", N: n, Serial: true, Cost: 1 << 20, Run: stalled})
	}
	d.Rule += " In other rounds calls come to a halt at a random byte of their input or output (userfaultfd), while hundreds of other calls begin and end, and then go on."
	All["C13"] = d
}

// halted is a call that touches memory which makes it wait.
type halted struct {
	fn    string
	where string
	nums  []uint32
	prev  uint32
	d     int
	run   func()
	check func() string
	own   []byte // a returned stream
	done  chan any
	area  *stall.Area
}

// which is a function and what of it halts.
type which struct{ kind, d, variant, side int }

func someFunction(r *gen.Rng) which { return which{r.N(13), r.N(2), r.N(12), r.N(2)} }

// halt prepares a call, which does not halt if area is nil.
func halt(r *gen.Rng, area *stall.Area, f which) *halted {
	h := &halted{area: area, done: make(chan any, 1), d: f.d}
	n := 1 + r.N(1+r.N([]int{20, 300, 4000}[r.N(3)]))
	if area == nil {
		n = 1 + r.N(40)
	}
	block := func(k int) { n = k }
	switch f.kind {
	case 5, 6, 7, 8:
		block(8)
	case 9:
		block(1 + r.N(4))
		if f.variant%2 == 1 {
			block(4)
		}
	}
	h.nums = make([]uint32, n)
	gen.Patterns[r.N(len(gen.Patterns))].Fill(r, h.nums)
	h.prev = r.Prev(h.nums)
	enc := h.nums
	if h.d == 1 {
		enc = ref.Deltas(nil, h.nums, h.prev)
	}
	at := func(what string, size int) int {
		k := r.N(size)
		switch r.N(4) { // more often in the last groups than their number suggests
		case 0:
			k = size - 1 - r.N(min(size, 16))
		case 1:
			k = size - 1 - r.N(min(size, 140))
		}
		h.where = fmt.Sprintf("%s of %d bytes, halted at byte %d", what, size, k)
		return k
	}
	lay := func(b []byte, k int) []byte { return area.Lay(b, k) }
	lay32 := func(v []uint32, k int) []uint32 { return area.Lay32(v, k) }
	if area == nil {
		lay = func(b []byte, _ int) []byte { return b }
		lay32 = func(v []uint32, _ int) []uint32 { return slices.Clone(v) }
	}
	in32 := func() []uint32 { return lay32(h.nums, at("input", 4*n)) }
	out32 := func() []uint32 { return lay32(make([]uint32, n), at("output", 4*n)) }
	outB := func(size, room int) []byte { return lay(make([]byte, room), at("output", size)) }
	inB := func(b []byte, size int) []byte { return lay(b, at("input", size)) }
	values := func(out *[]uint32) func() string {
		return func() string {
			if j := rt.Diff32(*out, h.nums); j >= 0 {
				return fmt.Sprintf("value %d: got %#x want %#x", j, (*out)[j], h.nums[j])
			}
			return ""
		}
	}
	switch f.kind {
	case 0, 1:
		wr := &api.Writers[h.d][f.variant%len(api.Writers[h.d])]
		in, want := in32(), ref.Encode(nil, enc)
		h.fn, h.run = wr.Name, func() { h.own = wr.Fn(in, h.prev) }
		h.check = func() string {
			if j := rt.DiffB(h.own, want); j >= 0 {
				return fmt.Sprintf("byte %d of the stream differs from the reference", j)
			}
			return ""
		}
	case 2, 3, 4:
		rd := &api.Readers[h.d][f.variant%len(api.Readers[h.d])]
		st, out := ref.Encode(nil, enc), make([]uint32, n)
		if f.side == 0 {
			st = inB(st, len(st))
		} else {
			out = out32()
		}
		h.fn, h.run, h.check = rd.Name, func() { rd.Fn(n, st, out, h.prev) }, values(&out)
	case 5, 6:
		e := &api.Encs8[h.d][f.variant%len(api.Encs8[h.d])]
		in, out, want := h.nums, make([]byte, 32), ref.Data(nil, enc)
		if f.side == 0 {
			in = in32()
		} else {
			out = outB(len(want), 32)
		}
		var c uint16
		h.fn, h.run = e.Name, func() { c = e.Fn(in, out, h.prev) }
		h.check = func() string {
			if c != ref.Ctrl8(enc) || string(out[:len(want)]) != string(want) {
				return fmt.Sprintf("control %#x data %x, want %#x %x", c, out, ref.Ctrl8(enc), want)
			}
			return ""
		}
	case 7, 8:
		e := &api.Decs8[h.d][f.variant%len(api.Decs8[h.d])]
		data, out, ctrl := ref.Data(nil, enc), make([]uint32, 8), ref.Ctrl8(enc)
		size := len(data)
		data = append(data, make([]byte, 32)...)[:32]
		if f.side == 0 {
			data = inB(data, size)
		} else {
			out = out32()
		}
		h.fn, h.run, h.check = e.Name, func() { e.Fn(data, out, ctrl, h.prev) }, values(&out)
	case 9:
		if f.side == 0 {
			in, out, want := in32(), make([]byte, 16), ref.Data(nil, enc)
			var c uint8
			h.fn, h.run = api.PutNName[h.d], func() { c = api.PutN(h.d, in, out, n, h.prev) }
			if f.variant%2 == 1 {
				h.fn, h.run = api.Put4Name[h.d], func() { c = api.Put4(h.d, in, out, h.prev) }
			}
			h.check = func() string {
				if c != ref.Ctrl(enc) || string(out[:len(want)]) != string(want) {
					return fmt.Sprintf("control %#x data %x, want %#x %x", c, out, ref.Ctrl(enc), want)
				}
				return ""
			}
		} else {
			data, out, ctrl := ref.Data(nil, enc), make([]uint32, n), ref.Ctrl(enc)
			data = inB(append(data, make([]byte, 16)...)[:16], len(data))
			h.fn, h.run, h.check = api.GetNName[h.d], func() { api.GetN(h.d, data, out, ctrl, n, h.prev) }, values(&out)
			if f.variant%2 == 1 {
				h.fn, h.run = api.Get4Name[h.d], func() { api.Get4(h.d, data, out, ctrl, h.prev) }
			}
		}
	case 10:
		var b []byte
		for _, v := range enc {
			b = ref.Uvarint(b, v)
		}
		if f.side == 0 {
			in, out, size := in32(), make([]byte, 5*n), 0
			h.fn = putV[h.d]
			h.run = func() {
				if h.d == 1 {
					size = api.PutDeltaVarint(in, out, h.prev)
				} else {
					size = api.PutVarint(in, out)
				}
			}
			h.check = func() string {
				if size != len(b) || rt.DiffB(out[:size], b) >= 0 {
					return "differs from the reference"
				}
				return ""
			}
		} else {
			in, out := inB(b, len(b)), make([]uint32, n)
			h.fn = getV[h.d]
			h.run = func() {
				if h.d == 1 {
					api.GetDeltaVarint(in, out, h.prev)
				} else {
					api.GetVarint(in, out)
				}
			}
			h.check = values(&out)
		}
	case 11:
		h.d, h.prev = 1, 0
		in, out := in32(), make([]uint32, n)
		want := ref.Deltas(nil, h.nums, 0)
		h.fn, h.run = "util.Delta", func() { api.Delta(in, out) }
		h.check = func() string {
			if j := rt.Diff32(out, want); j >= 0 {
				return fmt.Sprintf("difference %d: got %#x want %#x", j, out[j], want[j])
			}
			return ""
		}
	default:
		h.d = 0
		mem := in32()
		want := slices.Clone(h.nums)
		gen.Sort(want)
		h.fn, h.run = "util.SortUint32", func() { api.SortUint32(mem) }
		h.check = func() string {
			if j := rt.Diff32(mem, want); j >= 0 {
				return fmt.Sprintf("value %d: got %#x want %#x", j, mem[j], want[j])
			}
			return ""
		}
	}
	return h
}

func (h *halted) start() {
	go func() {
		defer func() { h.done <- recover() }()
		debug.SetPanicOnFault(true)
		h.run()
	}()
}

type stalling struct {
	areas []*stall.Area
	waits int
}

// stalled has calls halt half-way, runs many others meanwhile, and lets the former go on.
func stalled(w *rt.W, i int) {
	st := rt.State(w, "stalling", func() *stalling {
		s := &stalling{}
		for k := 0; k < 4; k++ {
			a, err := stall.New(1 << 15)
			if err != nil {
				panic(err)
			}
			s.areas = append(s.areas, a)
		}
		return s
	})
	if st.waits >= 8 {
		// calls of the library wait for each other, which nobody forbids
		w.Count("rounds left out since calls wait for each other", 1)
		return
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	if i%16 == 15 {
		runtime.GC()
	}
	if n := max(8, runtime.NumCPU()); runtime.GOMAXPROCS(0) < n {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(n))
	}
	// until reports whether it came about before the process fell idle, or within half a minute
	until := func(cond func() bool) bool {
		start := time.Now()
		for t, c := start, cpuTime(); !cond(); {
			if time.Since(start) > 30*time.Second {
				return false
			}
			if time.Since(t) > 700*time.Millisecond {
				now := cpuTime()
				if now-c < 50*time.Millisecond {
					return false
				}
				t, c = time.Now(), now
			}
			if time.Since(t) < 5*time.Millisecond {
				time.Sleep(10 * time.Microsecond)
			} else {
				time.Sleep(2 * time.Millisecond)
			}
		}
		return true
	}
	s := newSession(w, i, 3)
	s.actors[2].work(w.R.N(30))
	var hs []*halted
	most := []int{20, 100, 600}[i%3]
	if i%50 == 49 {
		most = 8000
	}
	// others makes calls on goroutines of their own while some are halted
	others := func(as ...func()) {
		ready := make(chan bool, len(as))
		for _, f := range as {
			go func() { f(); ready <- true }()
		}
		got := 0
		if !until(func() bool {
			select {
			case <-ready:
				got++
			default:
			}
			return got == len(as)
		}) {
			st.waits++
			w.Count("rounds in which calls waited for a halted one", 1)
			for _, a := range st.areas {
				a.Release()
			}
			for ; got < len(as); got++ {
				<-ready
			}
		}
		w.Count("series of calls while others were halted", 1)
	}
	var f which
	few := func() {
		n := 1 + w.R.N(10)
		others(func() { s.actors[2].work(n) })
	}
	for k := 1 + w.R.N(len(st.areas)-1)*w.R.N(2); k > 0; k-- {
		if len(hs) == 0 || w.R.N(2) == 0 {
			f = someFunction(&w.R)
		}
		h := halt(&w.R, st.areas[len(hs)], f)
		h.start()
		hs = append(hs, h)
		var finished any
		ended := false
		if !until(func() bool {
			select {
			case finished = <-h.done:
				ended = true
			default:
			}
			return ended || h.area.Hit()
		}) {
			st.waits++
			break
		}
		w.Called(h.fn, 1)
		if ended {
			w.Count("calls that were to halt and did not", 1)
			h.done <- finished
			continue
		}
		w.Count("calls halted half-way", 1)
		w.Count("halted: "+h.fn, 1)
		if k := uint64(len(h.where)); len(h.nums) > 0 {
			w.Note(gen.Hash(k|1<<40, h.nums) ^ gen.HashBytes(uint64(h.prev), []byte(h.fn+h.where)))
		}
		if w.R.N(3) == 0 {
			few()
		}
	}
	n := 1 + w.R.N(most)
	besides := []func(){func() { s.actors[0].work(n) }, func() { s.actors[1].work(n) }}
	others(besides[w.R.N(2):]...)
	// and those of the function that halted last
	r := gen.New(w.R.U64())
	made, fn, wrong := 0, "", ""
	others(func() {
		defer func() {
			if p := recover(); p != nil {
				wrong = fmt.Sprint(p)
			}
		}()
		for n := 1 + r.N([]int{20, 600, 20, 20, 3000, 20, 600}[i%7]); made < n && wrong == ""; made++ {
			h := halt(&r, nil, f)
			fn = h.fn
			h.run()
			if text := h.check(); text != "" {
				wrong = fmt.Sprintf("%s; %s", text, describe(h.nums, h.prev, h.d)())
			}
		}
	})
	w.Called(fn, made)
	w.Count("further calls of a function that is halted", made)
	if wrong != "" {
		w.Violate(fn, "result", "while another call is halted: %s", wrong)
	}
	// in any order
	for len(hs) > 0 {
		k := w.R.N(len(hs))
		h := hs[k]
		hs = append(hs[:k], hs[k+1:]...)
		h.area.Release()
		var p any
		if !until(func() bool {
			select {
			case p = <-h.done:
				return true
			default:
				return false
			}
		}) {
			st.waits++
			for _, o := range hs {
				o.area.Release()
			}
			p = <-h.done
		}
		desc := func() string {
			return fmt.Sprintf("%s while other calls were made; %s", h.where, describe(h.nums, h.prev, h.d)())
		}
		if p != nil {
			kind := "panic"
			if rt.IsFault(p) {
				kind = "memory-fault"
			}
			w.Violate(h.fn, kind, "%v; %s", p, desc())
			continue
		}
		if text := h.check(); text != "" {
			w.Violate(h.fn, "result", "%s; %s", text, desc())
			continue
		}
		w.Count("halted calls that went on and were right", 1)
		if h.own != nil {
			a := s.actors[2]
			a.kept = append(a.kept, kept{h.fn, h.own, slices.Clone(h.own)})
		}
		if w.R.N(3) == 0 {
			few()
		}
	}
	s.finish()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}
