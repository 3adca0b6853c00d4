//go:build linux && amd64

package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"slices"
	"sync"
	"unsafe"

	"svbverif/api"
	"svbverif/guard"
	"svbverif/ref"
	"svbverif/rt"
)

// Sequences of more than 2^30 values, whose streams exceed 2^32 bytes, made of
// one period that is mapped over and over.

func init() {
	add := func(id string, f func(w *rt.W, h *huge, delta int)) {
		d := All[id]
		base := d.Phases
		delta := int(id[2]-'1') & 1
		d.Phases = func(th bool) []rt.Phase {
			return append(base(th), rt.Phase{Name: "huge", N: pick(th, 1, 3), Serial: true, Cost: 1 << 31, Run: func(w *rt.W, i int) {
				n := 1<<30 + hugePeriod*3
				if !th && id <= "C02" {
					n = 1<<29 + 1<<26
				}
				h := newHuge(w, delta, i, n)
				defer h.free()
				w.Note(uint64(h.n))
				w.Count("values in huge sequences", h.n)
				w.Sample("%d values, stream of %d bytes, period of %d values %s", h.n, h.ctrlLen()+h.dataLen(h.n), len(h.enc), rt.Nums(h.enc[:16]))
				f(w, h, delta)
			}})
		}
		d.Rule += " One sequence of more than 2^30 values, stream beyond 2^32 bytes (round trips in the quick tier: 2^29 and 2^31), made of one period repeated."
		d.Must = append(d.Must, "values in huge sequences")
		All[id] = d
	}
	for _, id := range []string{"C01", "C02"} {
		add(id, hugeRoundTrip)
	}
	for _, id := range []string{"C03", "C04"} {
		add(id, hugeCanonical)
	}
	for _, id := range []string{"C05", "C06"} {
		add(id, hugeDecode)
	}
}

const hugePeriod = 1 << 22

type huge struct {
	n     int
	prev  uint32
	enc   []uint32 // one period of encoded values
	vals  []uint32 // one period of values
	data  []byte   // their encoding
	ctrls []byte
	in    *guard.Tiled
	out   *guard.Anon
}

func newHuge(w *rt.W, delta, i, n int) *huge {
	r := &w.R
	h := &huge{n: n + 37 + 5*i, enc: make([]uint32, hugePeriod)}
	if delta == 1 {
		h.prev = r.U32()
	}
	for k := range h.enc {
		if r.N(64) == 0 {
			h.enc[k] = r.Class()
		} else {
			h.enc[k] = r.OfLen(4, 2)
		}
	}
	// whole pages of data, and (for differences) sum zero
	size := len(ref.Data(nil, h.enc))
	for k := 0; size%4096 != 0; k += 7 {
		if h.enc[k] >= 1<<24 {
			h.enc[k] &= 0xffffff
			h.enc[k] |= 0x10000
			size--
		}
	}
	var sum uint32
	for _, v := range h.enc {
		sum += v
	}
	for k := range h.enc {
		if v := h.enc[k] - sum; h.enc[k] >= 1<<24 && v >= 1<<24 {
			h.enc[k] = v
			break
		}
	}
	h.vals = h.enc
	if delta == 1 {
		h.vals = ref.Sums(nil, h.enc, h.prev)
	}
	h.data = ref.Data(nil, h.enc)
	for k := 0; k < len(h.enc); k += 4 {
		h.ctrls = append(h.ctrls, ref.Ctrl(h.enc[k:k+4]))
	}
	return h
}

func (h *huge) free() {
	if h.in != nil {
		h.in.Free()
	}
	if h.out != nil {
		h.out.Free()
	}
	debug.FreeOSMemory()
}
func (h *huge) ctrlLen() int { return (h.n + 3) / 4 }

// dataLen is the encoded length of the first k values.
func (h *huge) dataLen(k int) int {
	l := k / hugePeriod * len(h.data)
	for _, v := range h.enc[:k%hugePeriod] {
		l += ref.Len(v)
	}
	return l
}

func (h *huge) input() []uint32 {
	if h.in == nil {
		h.in = guard.NewTiled(0, unsafe.Slice((*byte)(unsafe.Pointer(&h.vals[0])), 4*hugePeriod), 4*h.n)
	}
	return h.in.U32(h.n)
}
func (h *huge) output() []uint32 {
	if h.out == nil {
		h.out = guard.NewAnon(4 * h.n)
	}
	out := h.out.U32(h.n)
	h.parallel(func(lo, hi int) int { // dirty
		for i := range out[lo:hi] {
			out[lo+i] = 0x5a5a5a5a
		}
		return -1
	})
	return out
}

// ctrl fills in the expected control bytes.
func (h *huge) ctrl(dst []byte) {
	for off := 0; off < len(dst); off += len(h.ctrls) {
		copy(dst[off:], h.ctrls)
	}
	if k := h.n % 4; k != 0 {
		last := h.n % hugePeriod
		dst[len(dst)-1] = ref.Ctrl(h.enc[last-k : last])
	}
}

// parallel runs f for pieces of a period each and returns the first result >= 0.
func (h *huge) parallel(f func(lo, hi int) int) int {
	var wg sync.WaitGroup
	var mu sync.Mutex
	first := -1
	sem := make(chan struct{}, 8)
	for lo := 0; lo < h.n; lo += hugePeriod {
		wg.Add(1)
		sem <- struct{}{}
		go func(lo int) {
			defer func() { <-sem; wg.Done() }()
			if k := f(lo, min(h.n, lo+hugePeriod)); k >= 0 {
				mu.Lock()
				if first < 0 || k < first {
					first = k
				}
				mu.Unlock()
			}
		}(lo)
	}
	wg.Wait()
	return first
}

// wrong is the first wrong value of out, or -1.
func (h *huge) wrong(out []uint32) int {
	return h.parallel(func(lo, hi int) int {
		if slices.Equal(out[lo:hi], h.vals[:hi-lo]) {
			return -1
		}
		return lo + rt.Diff32(out[lo:hi], h.vals[:hi-lo])
	})
}

func (h *huge) desc() string {
	return fmt.Sprintf("%d values of period %d, prev=%#x, first values %s", h.n, hugePeriod, h.prev, rt.Nums(h.vals[:32]))
}

func hugeCanonical(w *rt.W, h *huge, delta int) {
	in := h.input()
	cl, dl := h.ctrlLen(), h.dataLen(h.n)
	want := make([]byte, cl)
	h.ctrl(want)
	for i := range api.Writers[delta] {
		wr := &api.Writers[delta][i]
		var st []byte
		if !w.Call(wr.Name, h.desc, func() { st = wr.Fn(in, h.prev) }) {
			continue
		}
		if len(st) != cl+dl {
			w.Violate(wr.Name, "format", "stream of %d bytes, want %d; %s", len(st), cl+dl, h.desc())
		} else if !bytes.Equal(st[:cl], want) {
			w.Violate(wr.Name, "format", "control byte %d differs; %s", rt.DiffB(st[:cl], want), h.desc())
		} else if k := h.parallel(func(lo, hi int) int {
			p := cl + lo/hugePeriod*len(h.data)
			piece := h.data
			if hi-lo < hugePeriod {
				piece = h.data[:h.dataLen(hi-lo)]
			}
			if bytes.Equal(st[p:p+len(piece)], piece) {
				return -1
			}
			return p + rt.DiffB(st[p:p+len(piece)], piece)
		}); k >= 0 {
			w.Violate(wr.Name, "format", "byte %d of the stream differs; %s", k, h.desc())
		}
		st = nil
		debug.FreeOSMemory()
	}
}

func hugeRoundTrip(w *rt.W, h *huge, delta int) {
	in := h.input()
	for i := range api.Writers[delta] {
		wr := &api.Writers[delta][i]
		var st []byte
		if !w.Call(wr.Name, h.desc, func() { st = wr.Fn(in, h.prev) }) {
			continue
		}
		for k := range api.Readers[delta] {
			rd := &api.Readers[delta][k]
			if k != 2-i%3 { // not all pairs
				continue
			}
			out := h.output()
			if !w.Call(rd.Name, h.desc, func() { rd.Fn(h.n, st, out, h.prev) }) {
				continue
			}
			if k := h.wrong(out); k >= 0 {
				w.Violate(wr.Name+"->"+rd.Name, "round-trip", "value %d: got %#x want %#x; %s", k, out[k], h.vals[k%hugePeriod], h.desc())
			}
		}
		st = nil
		debug.FreeOSMemory()
	}
}

func hugeDecode(w *rt.W, h *huge, delta int) {
	cl, dl := h.ctrlLen(), h.dataLen(h.n)
	t := guard.NewTiled(cl, h.data, dl)
	defer t.Free()
	st := t.Bytes(cl, dl)
	h.ctrl(st[:cl])
	for k := range api.Readers[delta] {
		rd := &api.Readers[delta][k]
		out := h.output()
		if !w.Call(rd.Name, h.desc, func() { rd.Fn(h.n, st, out, h.prev) }) {
			continue
		}
		if k := h.wrong(out); k >= 0 {
			w.Violate(rd.Name, "decoding", "value %d: got %#x want %#x; %s", k, out[k], h.vals[k%hugePeriod], h.desc())
		}
	}
}
