package checks

import (
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"runtime/trace"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	All["C13"] = Def{
		Phases: func(th bool) []rt.Phase {
			d := 1
			if raceBuild {
				d = 5
			}
			return []rt.Phase{
				{Name: "concurrent", N: pick(th, 160, 6000) / d, Serial: true, Cost: 1 << 24, Run: concurrent},
				{Name: "large", N: pick(th, 14, 105), Serial: true, Cost: 1 << 26, Run: large},
				{Name: "collector", N: pick(th, 60, 600) / d, Serial: true, Cost: 1 << 24, Run: collector},
				{Name: "history", N: pick(th, 1200, 40000) / d, Cost: 1 << 20, Run: func(w *rt.W, i int) {
					g := newSession(w, i, 1)
					g.actors[0].work(pick(raceBuild, 700, 300))
					g.finish()
				}},
			}
		},
		Rule: "A round shares a set of input sequences and reference streams among 1..24 goroutines, each of which makes hundreds of calls of random stream, block, varint and data helper functions at random stack depths, on heap and stack buffers, on recycled buffers whose contents change between calls, with garbage collections, Gosched and other GOMAXPROCS in between. Further rounds call each function on long inputs while the collector runs without a pause and overwrites what it frees. Every result is compared with the reference model; returned streams are kept, some of them overwritten by their owner, and compared again later and at the end; their memory must not overlap. Non-trivial: a call on at least one value; distinct by function and arguments.",
		Must: []string{"calls overlapping another in time", "results kept", "results checked again", "results overwritten by their owner", "calls on a stack buffer", "calls on reused buffers with other contents", "calls of data helpers", "garbage collections", "stack growths", "calls during which a collection began and ended", "rounds with an execution trace"},
	}
}

type item struct {
	nums    []uint32 // shared, never written by the harness after set-up
	prev    uint32
	streams [2][]byte // canonical plain and delta streams
	wide    [2][]byte // non-minimal streams of the same values
	vars    [2][]byte
	sum     uint64
}

type session struct {
	w      *rt.W
	items  []*item
	actors []*actor
	base   time.Time
}

type kept struct {
	fn   string
	data []byte
	want []byte
}

// mine are buffers of one goroutine that it uses again and again with other
// contents, as a caller would that recycles its memory.
type mine struct {
	nums, out []uint32
	stream    []byte
	prev      uint32
}

// keptOut is an output that no call may touch any more.
type keptOut struct {
	fn        string
	out, want []uint32
}

type span struct {
	start, end int64
	id         int
}

type actor struct {
	s       *session
	id      int
	r       gen.Rng
	kept    []kept
	spans   []span
	viol    [][3]string
	out     []uint32
	buf     []byte
	calls   map[string]int
	notes   []uint64
	mine    [3]mine
	outs    []keptOut
	reused  int
	helpers int
	checked int
	owned   int
	onstack int
	grown   int
}

func newSession(w *rt.W, i, actors int) *session {
	s := &session{w: w, base: time.Now()}
	for k := 0; k < 10; k++ {
		n := w.R.N(1 + w.R.N(420))
		if k == 0 {
			n = 8 + w.R.N(30)
		}
		if k == 1 && w.R.N(4) == 0 {
			n = 3000 + w.R.N(3000)
		}
		it := &item{nums: make([]uint32, n)}
		gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, it.nums)
		it.prev = w.R.Prev(it.nums)
		for d := 0; d < 2; d++ {
			enc := it.nums
			if d == 1 {
				enc = ref.Deltas(nil, it.nums, it.prev)
			}
			it.streams[d] = ref.Encode(nil, enc)
			it.wide[d] = ref.EncodeSizes(nil, enc, widths(w, enc, false), byte(w.R.U32()))
			for _, v := range enc {
				it.vars[d] = ref.Uvarint(it.vars[d], v)
			}
		}
		it.sum = gen.Hash(1, it.nums)
		s.items = append(s.items, it)
	}
	for a := 0; a < actors; a++ {
		s.actors = append(s.actors, &actor{s: s, id: a, r: gen.New(w.R.U64(), uint64(a)), calls: map[string]int{}, out: make([]uint32, 6100), buf: make([]byte, 5*6100)})
	}
	return s
}

func (a *actor) fail(fn, kind, format string, args ...any) {
	if len(a.viol) < 5 {
		a.viol = append(a.viol, [3]string{fn, kind, fmt.Sprintf("goroutine %d of %d, call %d: ", a.id, len(a.s.actors), len(a.spans)) + fmt.Sprintf(format, args...)})
	}
}

// call runs one call of the library; nothing here synchronises goroutines.
func (a *actor) call(fn string, desc func() string, f func()) (ok bool) {
	a.calls[fn]++
	t := int64(time.Since(a.s.base))
	defer func() {
		a.spans = append(a.spans, span{t, int64(time.Since(a.s.base)), a.id})
		if p := recover(); p != nil {
			kind := "panic"
			if rt.IsFault(p) {
				kind = "memory-fault"
			}
			a.fail(fn, kind, "%v; %s", p, desc())
			ok = false
		}
	}()
	f()
	return true
}

//go:noinline
func deep(n int, f func()) byte {
	var pad [512]byte
	if n == 0 {
		f()
		return pad[n]
	}
	pad[n%512] = byte(n)
	return deep(n-1, f) + pad[(n*7)%512]
}

func (a *actor) work(n int) {
	for k := 0; k < n; k++ {
		it := a.s.items[a.r.N(len(a.s.items))]
		op := a.r.N(10)
		f := func() { a.step(it, op) }
		switch a.r.N(40) {
		case 0: // on a stack that has to grow during the call
			a.grown++
			done := make(chan struct{})
			go func() { defer close(done); deep(a.r.N(60), f) }()
			<-done
		case 1:
			deep(a.r.N(200), f)
		case 2:
			runtime.Gosched()
			f()
		default:
			f()
		}
		if len(a.outs) > 0 && a.r.N(8) == 0 {
			a.recheckOut(a.r.N(len(a.outs)), "later")
		}
		if len(a.kept) > 0 && a.r.N(4) == 0 {
			a.recheck(a.r.N(len(a.kept)), "later")
		}
	}
}

func (a *actor) recheck(i int, when string) {
	k := &a.kept[i]
	a.checked++
	if j := rt.DiffB(k.data, k.want); j >= 0 {
		a.fail(k.fn, "result-changed", "byte %d of a returned stream of %d bytes changed (seen %s): got %#x want %#x", j, len(k.data), when, k.data[j], k.want[j])
		k.want = slices.Clone(k.data)
	}
}

func (a *actor) recheckOut(i int, when string) {
	k := &a.outs[i]
	a.checked++
	if j := rt.Diff32(k.out, k.want); j >= 0 {
		a.fail(k.fn, "output-changed", "value %d of an output of %d values changed after the call (seen %s): got %#x want %#x", j, len(k.out), when, k.out[j], k.want[j])
		k.want = slices.Clone(k.out)
	}
}

// recycle writes and reads through buffers whose addresses and lengths stay the
// same while a few values, or just the base, change between the calls.
func (a *actor) recycle() {
	m := &a.mine[a.r.N(len(a.mine))]
	if m.nums == nil || a.r.N(60) == 0 {
		most := 300
		if a.r.N(8) == 0 {
			most = 9000
		}
		m.nums = make([]uint32, 1+a.r.N(1+a.r.N(most)))
		m.out = make([]uint32, len(m.nums))
		m.stream = make([]byte, 0, 5*len(m.nums)+1)
		gen.Patterns[a.r.N(len(gen.Patterns))].Fill(&a.r, m.nums)
	}
	n := len(m.nums)
	a.reused++
	for k := a.r.N(3); k > 0; k-- {
		m.nums[a.r.N(n)] = a.r.Class()
	}
	if a.r.N(3) == 0 {
		// what checksums do not notice
		pairs := 1
		if a.r.N(4) == 0 {
			pairs = n
		}
		for swap := a.r.N(2) == 0; pairs > 0; pairs-- {
			i, j := a.r.N(n), a.r.N(n)
			switch x := a.r.Class(); {
			case i == j:
			case swap:
				m.nums[i], m.nums[j] = m.nums[j], m.nums[i]
			case m.nums[i] > x && m.nums[j]+x > x:
				m.nums[i], m.nums[j] = m.nums[i]-x, m.nums[j]+x
			}
		}
	}
	if a.r.N(3) == 0 {
		m.prev = a.r.Prev(m.nums)
	}
	if a.r.N(8) == 0 {
		gen.Patterns[a.r.N(len(gen.Patterns))].Fill(&a.r, m.nums)
	}
	d := a.r.N(2)
	desc := func() string { return "reused buffers, " + describe(m.nums, m.prev, d)() }
	enc := m.nums
	if d == 1 {
		enc = ref.Deltas(nil, m.nums, m.prev)
	}
	m.stream = ref.Encode(m.stream[:0], enc) // same address, same length or nearly
	wr := &api.Writers[d][a.r.N(len(api.Writers[d]))]
	var st []byte
	if a.call(wr.Name, desc, func() { st = wr.Fn(m.nums, m.prev) }) {
		if j := rt.DiffB(st, m.stream); j >= 0 {
			a.fail(wr.Name, "result", "byte %d of the stream differs from the reference; %s", j, desc())
		}
	}
	rd := &api.Readers[d][a.r.N(len(api.Readers[d]))]
	out := m.out
	if len(a.outs) < 200 && a.r.N(4) == 0 {
		out = make([]uint32, n)
	}
	if a.call(rd.Name, desc, func() { rd.Fn(n, m.stream, out, m.prev) }) {
		if j := rt.Diff32(out, m.nums); j >= 0 {
			a.fail(rd.Name, "result", "value %d: got %#x want %#x; %s", j, out[j], m.nums[j], desc())
		} else if &out[0] != &m.out[0] {
			a.outs = append(a.outs, keptOut{rd.Name, out, slices.Clone(out)})
		}
	}
	// the buffers are the caller's: what it does to them now must not matter
	for i := range m.stream {
		m.stream[i] = 0xcc
	}
}

// helper calls one of the data helpers.
func (a *actor) helper(it *item) {
	n := len(it.nums)
	a.helpers++
	desc := describe(it.nums, 0, 0)
	out := a.out[:n]
	switch a.r.N(4) {
	case 0:
		if a.call("util.Delta", desc, func() { api.Delta(it.nums, out) }) {
			if j := rt.Diff32(out, ref.Deltas(nil, it.nums, 0)); j >= 0 {
				a.fail("util.Delta", "result", "value %d differs; %s", j, desc())
			}
		}
	case 1:
		copy(out, it.nums)
		if a.call("util.SortUint32", desc, func() { api.SortUint32(out) }) {
			want := slices.Clone(it.nums)
			gen.Sort(want)
			if j := rt.Diff32(out, want); j >= 0 {
				a.fail("util.SortUint32", "result", "value %d differs; %s", j, desc())
			}
		}
	case 2:
		k := a.r.N(200)
		var g []uint32
		if a.call("util.GenUint32", desc, func() { g = api.GenUint32(k) }) {
			if len(g) != k {
				a.fail("util.GenUint32", "result", "%d values for n=%d", len(g), k)
			} else if k > 0 && len(a.outs) < 200 {
				a.outs = append(a.outs, keptOut{"util.GenUint32", g, slices.Clone(g)})
			}
		}
	case 3:
		a.call("util.RandUint32", desc, func() {
			for k := 0; k < 20; k++ {
				api.RandUint32()
			}
		})
	}
}

func (a *actor) step(it *item, op int) {
	d := a.r.N(2)
	n := len(it.nums)
	desc := func() string { return describe(it.nums, it.prev, 1)() }
	note := func(fn string) {
		if n > 0 && len(a.notes) < 1<<16 {
			a.notes = append(a.notes, it.sum^gen.HashBytes(uint64(it.prev), []byte(fn)))
		}
	}
	switch op {
	case 7, 8:
		a.recycle()
	case 9:
		a.helper(it)
	case 0, 1: // a writer; the result is kept
		wr := &api.Writers[d][a.r.N(len(api.Writers[d]))]
		var st []byte
		if !a.call(wr.Name, desc, func() { st = wr.Fn(it.nums, it.prev) }) {
			return
		}
		note(wr.Name)
		if j := rt.DiffB(st, it.streams[d]); j >= 0 {
			a.fail(wr.Name, "result", "byte %d of the stream differs from the reference; %s", j, desc())
			return
		}
		k := kept{wr.Name, st, it.streams[d]}
		if a.r.N(3) == 0 { // it is the caller's, with its spare capacity
			a.owned++
			full := st[:cap(st)]
			for i := range full {
				full[i] ^= byte(0x55 + i)
			}
			k.data, k.want = full, slices.Clone(full)
		}
		if len(a.kept) < 1500 {
			a.kept = append(a.kept, k)
		} else {
			a.kept[a.r.N(len(a.kept))] = k
		}
	case 2, 3: // a reader
		rd := &api.Readers[d][a.r.N(len(api.Readers[d]))]
		st := it.streams[d]
		if a.r.N(2) == 0 {
			st = it.wide[d]
		}
		out := a.out[:n]
		for i := range out {
			out[i] = 0x99999999
		}
		note(rd.Name)
		if a.call(rd.Name, desc, func() { rd.Fn(n, st, out, it.prev) }) {
			if j := rt.Diff32(out, it.nums); j >= 0 {
				a.fail(rd.Name, "result", "value %d: got %#x want %#x; %s", j, out[j], it.nums[j], desc())
			}
		}
	case 4: // block functions with buffers on the stack
		if n < 8 {
			return
		}
		a.onstack++
		var tmp [8]uint32
		var data [40]byte
		var back [8]uint32
		o := a.r.N(n - 7)
		copy(tmp[:], it.nums[o:])
		e := &api.Encs8[d][a.r.N(len(api.Encs8[d]))]
		dc := &api.Decs8[d][a.r.N(len(api.Decs8[d]))]
		prev := it.prev + uint32(o)
		var enc [8]uint32
		copy(enc[:], tmp[:])
		if d == 1 {
			ref.Deltas(enc[:0], tmp[:], prev)
		}
		var ctrl uint16
		note(e.Name)
		note(dc.Name)
		in := tmp[:]
		if a.r.N(2) == 0 {
			in = it.nums[o : o+8]
		}
		if !a.call(e.Name, desc, func() { ctrl = e.Fn(in, data[:32], prev) }) {
			return
		}
		var wb [32]byte
		want := ref.Data(wb[:0], enc[:])
		if ctrl != ref.Ctrl8(enc[:]) || string(data[:len(want)]) != string(want) {
			a.fail(e.Name, "result", "control %#04x data %x, want %#04x %x; prev=%#x values %s", ctrl, data[:len(want)], ref.Ctrl8(enc[:]), want, prev, rt.Nums(tmp[:]))
			return
		}
		if a.call(dc.Name, desc, func() { dc.Fn(data[:], back[:], ctrl, prev) }) && back != tmp {
			a.fail(dc.Name, "result", "got %x want %x; prev=%#x", back, tmp, prev)
		}
	case 5: // varint
		p := 0
		buf := a.buf[:5*n]
		if a.call(putV[d], desc, func() {
			if d == 1 {
				p = api.PutDeltaVarint(it.nums, buf, it.prev)
			} else {
				p = api.PutVarint(it.nums, buf)
			}
		}) && (p != len(it.vars[d]) || rt.DiffB(buf[:p], it.vars[d]) >= 0) {
			a.fail(putV[d], "result", "differs from the reference; %s", desc())
		}
		note(putV[d])
		out := a.out[:n]
		if a.call(getV[d], desc, func() {
			if d == 1 {
				api.GetDeltaVarint(it.vars[d], out, it.prev)
			} else {
				api.GetVarint(it.vars[d], out)
			}
		}) && rt.Diff32(out, it.nums) >= 0 {
			a.fail(getV[d], "result", "differs from the reference; %s", desc())
		}
		note(getV[d])
	case 6: // small scalar functions
		if n < 4 {
			return
		}
		var data [16]byte
		var back [4]uint32
		o := a.r.N(n - 3)
		c := 1 + a.r.N(4)
		in := it.nums[o : o+c]
		prev := it.prev - uint32(o)
		enc := append([]uint32(nil), in...)
		if d == 1 {
			ref.Deltas(enc[:0], in, prev)
		}
		var ctrl uint8
		if !a.call(api.PutNName[d], desc, func() { ctrl = api.PutN(d, in, data[:], c, prev) }) {
			return
		}
		note(api.PutNName[d])
		if ctrl != ref.Ctrl(enc) {
			a.fail(api.PutNName[d], "result", "control %#02x want %#02x; prev=%#x values %s", ctrl, ref.Ctrl(enc), prev, rt.Nums(in))
			return
		}
		if a.call(api.GetNName[d], desc, func() { api.GetN(d, data[:], back[:], ctrl, c, prev) }) && rt.Diff32(back[:c], in) >= 0 {
			a.fail(api.GetNName[d], "result", "got %x want %x; prev=%#x", back[:c], in, prev)
		}
		note(api.GetNName[d])
	}
}

// finish checks all kept results, their memory and the shared inputs, and
// merges what the actors recorded.
func (s *session) finish() {
	w := s.w
	type block struct {
		lo, hi uintptr
		fn     string
	}
	var bs []block
	add := func(p unsafe.Pointer, n int, fn string) {
		if n > 0 {
			bs = append(bs, block{uintptr(p), uintptr(p) + uintptr(n), fn})
		}
	}
	var spans []span
	for _, a := range s.actors {
		for i := range a.kept {
			a.recheck(i, "at the end")
			d := a.kept[i].data
			add(unsafe.Pointer(unsafe.SliceData(d)), cap(d), a.kept[i].fn)
		}
		for i := range a.outs {
			a.recheckOut(i, "at the end")
			add(unsafe.Pointer(unsafe.SliceData(a.outs[i].out)), 4*cap(a.outs[i].out), a.outs[i].fn)
		}
		w.Count("calls on reused buffers with other contents", a.reused)
		w.Count("calls of data helpers", a.helpers)
		w.Count("results kept", len(a.kept))
		w.Count("results checked again", a.checked)
		w.Count("results overwritten by their owner", a.owned)
		w.Count("calls on a stack buffer", a.onstack)
		w.Count("stack growths", a.grown)
		for fn, c := range a.calls {
			w.Called(fn, c)
		}
		for _, h := range a.notes {
			w.Note(h)
		}
		for _, v := range a.viol {
			w.Violate(v[0], v[1], "%s", v[2])
		}
		spans = append(spans, a.spans...)
	}
	for _, it := range s.items {
		add(unsafe.Pointer(unsafe.SliceData(it.nums)), 4*len(it.nums), "an input")
		for d := 0; d < 2; d++ {
			add(unsafe.Pointer(unsafe.SliceData(it.streams[d])), cap(it.streams[d]), "an input")
		}
		if gen.Hash(1, it.nums) != it.sum {
			w.Violate("inputs", "input-changed", "a shared input changed: %s", rt.Nums(it.nums))
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].lo < bs[j].lo })
	for i := 1; i < len(bs); i++ {
		if bs[i].lo < bs[i-1].hi {
			w.Violate(bs[i].fn, "overlap", "memory of a result (%#x..%#x) overlaps that of a result of %s (%#x..%#x)", bs[i].lo, bs[i].hi, bs[i-1].fn, bs[i-1].lo, bs[i-1].hi)
			break
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].start < spans[j].start })
	order := uint64(1)
	var end int64
	last := -1
	for _, x := range spans {
		if x.start < end && x.id != last {
			w.Count("calls overlapping another in time", 1)
		}
		if x.end > end {
			end, last = x.end, x.id
		}
		order = (order ^ uint64(x.id)) * 0x100000001b3
	}
	orders := rt.State(w, "orders", func() map[uint64]bool { return map[uint64]bool{} })
	if len(s.actors) > 1 && !orders[order] {
		orders[order] = true
		w.Count("distinct interleavings (order of call starts)", 1)
	}
}

func concurrent(w *rt.W, i int) {
	s := newSession(w, i, 2+w.R.N(23))
	old := runtime.GOMAXPROCS([]int{runtime.NumCPU(), 2, 4, 1, 32}[i%5])
	defer runtime.GOMAXPROCS(old)
	quit, gcs := make(chan struct{}), make(chan int)
	go func() {
		n := 0
		for {
			select {
			case <-quit:
				gcs <- n
				return
			default:
				runtime.GC()
				n++
				time.Sleep(time.Millisecond)
			}
		}
	}()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, a := range s.actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			a.work(pick(raceBuild, 900, 400))
		}()
	}
	close(start)
	wg.Wait()
	close(quit)
	w.Count("garbage collections", <-gcs)
	w.Sample("%d goroutines, %d inputs, GOMAXPROCS %d", len(s.actors), len(s.items), runtime.GOMAXPROCS(0))
	s.finish()
}

// large makes two concurrent calls of each stream function on the same long input.
func large(w *rt.W, i int) {
	old := runtime.GOMAXPROCS([]int{40, 3, 17, 1, 5, 64, 24}[i%7])
	defer runtime.GOMAXPROCS(old)
	n := []int{1<<22 + 16, 1<<21 + 1, 1000003, 262144 + 5, 100000}[i%5] + w.R.N(40)
	nums := make([]uint32, n)
	gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
	d, prev := i%2, w.R.Prev(nums)
	enc := nums
	if d == 1 {
		enc = ref.Deltas(nil, nums, prev)
	}
	want := ref.Encode(nil, enc)
	w.Note(gen.Hash(uint64(d), nums))
	var wg sync.WaitGroup
	for _, wr := range api.Writers[d] {
		var got [2][]byte
		for k := range got {
			wg.Add(1)
			go func() { defer wg.Done(); got[k] = wr.Fn(nums, prev) }()
		}
		wg.Wait()
		w.Called(wr.Name, 2)
		for k := range got {
			if j := rt.DiffB(got[k], want); j >= 0 {
				w.Violate(wr.Name, "result", "byte %d of %d of the stream differs; %s", j, len(want), describe(nums, prev, d)())
			}
		}
	}
	for _, rd := range api.Readers[d] {
		var got [2][]uint32
		for k := range got {
			got[k] = make([]uint32, n)
			wg.Add(1)
			go func() { defer wg.Done(); rd.Fn(n, want, got[k], prev) }()
		}
		wg.Wait()
		w.Called(rd.Name, 2)
		for k := range got {
			if j := rt.Diff32(got[k], nums); j >= 0 {
				w.Violate(rd.Name, "result", "value %d: got %#x want %#x; %s", j, got[k][j], nums[j], describe(nums, prev, d)())
			}
		}
	}
}

// collector makes calls on long inputs while collections follow each other, so
// that memory which a call refers to in ways that the collector does not see is freed.
//
// Every second round also writes an execution trace and a CPU profile, for which
// the runtime unwinds the stacks of whatever is running.
func collector(w *rt.W, i int) {
	if i%2 == 1 {
		runtime.SetBlockProfileRate(1)
		defer runtime.SetBlockProfileRate(0)
		if pprof.StartCPUProfile(io.Discard) == nil {
			defer pprof.StopCPUProfile()
		}
		if trace.Start(io.Discard) == nil {
			defer trace.Stop()
			w.Count("rounds with an execution trace", 1)
		}
	}
	old := debug.SetGCPercent(1)
	defer debug.SetGCPercent(old)
	stop := make(chan bool)
	var stopped sync.WaitGroup
	var cycles atomic.Int64
	stopped.Add(1)
	go func() {
		defer stopped.Done()
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
				cycles.Add(1)
			}
		}
	}()
	defer stopped.Wait()
	defer close(stop)
	n := []int{30000, 300000, 100000, 1000000, 5000, 200003}[i%6] + w.R.N(40)
	if raceBuild {
		n /= 10
	}
	nums := make([]uint32, n)
	gen.Patterns[i*7%len(gen.Patterns)].Fill(&w.R, nums)
	prev := w.R.Prev(nums)
	want := [2][]byte{ref.Encode(nil, nums), ref.Encode(nil, ref.Deltas(nil, nums, prev))}
	var vars [2][]byte
	for d := range vars {
		enc := nums
		if d == 1 {
			enc = ref.Deltas(nil, nums, prev)
		}
		for _, x := range enc {
			vars[d] = ref.Uvarint(vars[d], x)
		}
	}
	sorted := append([]uint32(nil), nums...)
	gen.Sort(sorted)
	w.Note(gen.Hash(uint64(prev)|1<<52, nums))
	call := func(fn string, d int, f func()) bool {
		before := cycles.Load()
		ok := w.Call(fn, describe(nums, prev, d), f)
		if cycles.Load() > before+1 {
			w.Count("calls during which a collection began and ended", 1)
		}
		return ok
	}
	values := func(fn string, d int, got, want []uint32) {
		if k := rt.Diff32(got, want); k >= 0 {
			w.Violate(fn, "result", "under garbage collection: value %d: got %#x want %#x; %s", k, got[k], want[k], describe(nums, prev, d)())
		}
	}
	for round := 0; round < 3; round++ {
		for d := 0; d < 2; d++ {
			for k := range api.Writers[d] {
				wr := &api.Writers[d][k]
				var st []byte
				if call(wr.Name, d, func() { st = wr.Fn(nums, prev) }) {
					runtime.GC()
					if j := rt.DiffB(st, want[d]); j >= 0 {
						w.Violate(wr.Name, "result", "under garbage collection: byte %d of %d of the stream differs; %s", j, len(want[d]), describe(nums, prev, d)())
					}
				}
			}
			for k := range api.Readers[d] {
				rd := &api.Readers[d][k]
				out := make([]uint32, n)
				if call(rd.Name, d, func() { rd.Fn(n, want[d], out, prev) }) {
					values(rd.Name, d, out, nums)
				}
			}
			buf, out := make([]byte, len(vars[d])+8), make([]uint32, n)
			size := 0
			if call(putV[d], d, func() {
				if d == 0 {
					size = api.PutVarint(nums, buf)
				} else {
					size = api.PutDeltaVarint(nums, buf, prev)
				}
			}) && (size != len(vars[d]) || rt.DiffB(buf[:size], vars[d]) >= 0) {
				w.Violate(putV[d], "result", "under garbage collection: the bytes differ; %s", describe(nums, prev, d)())
			}
			if call(getV[d], d, func() {
				if d == 0 {
					api.GetVarint(vars[d], out)
				} else {
					api.GetDeltaVarint(vars[d], out, prev)
				}
			}) {
				values(getV[d], d, out, nums)
			}
		}
	}
	tmp := append([]uint32(nil), nums...)
	if call("util.SortUint32", 0, func() { api.SortUint32(tmp) }) {
		values("util.SortUint32", 0, tmp, sorted)
	}
	if call("util.Delta", 0, func() { api.Delta(nums, tmp) }) {
		values("util.Delta", 0, tmp, ref.Deltas(nil, nums, 0))
	}
	if call("util.GenUint32", 0, func() { tmp = api.GenUint32(n) }) {
		runtime.GC()
		if len(tmp) != n {
			w.Violate("util.GenUint32", "result", "%d values for n=%d", len(tmp), n)
		} else if n >= 10000 {
			distribution(w, "util.GenUint32", tmp, 0.05)
		}
	}
}
