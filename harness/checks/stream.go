package checks

import (
	"fmt"

	"svbverif/api"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	for d, ids := range [2][3]string{{"C01", "C03", "C05"}, {"C02", "C04", "C06"}} {
		d := d
		body := func(f func(w *rt.W, delta int, nums []uint32, prev uint32)) func(w *rt.W, nums []uint32) {
			if d == 0 {
				return func(w *rt.W, nums []uint32) { f(w, 0, nums, 0) }
			}
			return func(w *rt.W, nums []uint32) {
				deltaVariants(&w.R, nums, func(n []uint32, p uint32) { f(w, 1, n, p) })
			}
		}
		All[ids[0]] = Def{Phases: func(th bool) []rt.Phase { return seqPhases(th, scale{}, body(roundTrip)) }, Rule: seqRule, Must: append(names(api.Writers[d]), rnames(api.Readers[d])...)}
		All[ids[1]] = Def{Phases: func(th bool) []rt.Phase { return seqPhases(th, scale{}, body(canonical)) }, Rule: seqRule, Must: names(api.Writers[d])}
		All[ids[2]] = Def{Phases: func(th bool) []rt.Phase { return seqPhases(th, scale{}, body(wellFormed)) },
			Rule: seqRule + " Each is put into several streams by the reference encoder: minimal, widened at random, all 4 bytes, one value widened; unused control bits and trailing bytes random; output dirty, with surplus, at different alignments.",
			Must: append(rnames(api.Readers[d]), "streams non-minimal", "streams with trailing bytes", "streams with garbage control bits", "outputs with surplus")}
	}
}

func names(ws []api.Writer) (s []string) {
	for _, w := range ws {
		s = append(s, w.Name)
	}
	return
}
func rnames(ws []api.Reader) (s []string) {
	for _, w := range ws {
		s = append(s, w.Name)
	}
	return
}

// roundTrip: every writer and every reader restore the sequence.
func roundTrip(w *rt.W, delta int, nums []uint32, prev uint32) {
	desc := describe(nums, prev, delta)
	orig := buf32(w, "orig", len(nums))
	copy(orig, nums)
	out := buf32(w, "out", len(nums))
	if len(nums) == 0 { // nil, empty, or empty with capacity
		switch w.R.N(3) {
		case 0:
			nums, out = nil, nil
			w.Count("empty sequences in nil slices", 1)
		case 1:
			nums, out = []uint32{}, []uint32{}
		}
	}
	for wi := range api.Writers[delta] {
		wr := &api.Writers[delta][wi]
		var stream []byte
		copy(nums, orig)
		if !w.Call(wr.Name, desc, func() { stream = wr.Fn(nums, prev) }) {
			continue
		}
		for ri := range api.Readers[delta] {
			rd := &api.Readers[delta][ri]
			for i := range out {
				out[i] = ^orig[i] ^ 0x5a
			}
			if !w.Call(rd.Name, func() string { return "stream of " + wr.Name + ", " + desc() }, func() { rd.Fn(len(orig), stream, out, prev) }) {
				continue
			}
			w.Count("round trips", 1)
			if k := rt.Diff32(out, orig); k >= 0 {
				w.Violate(wr.Name+"->"+rd.Name, "round-trip", "value %d of %d: got %#x want %#x; %s", k, len(orig), out[k], orig[k], describe(orig, prev, delta)())
			}
		}
	}
	copy(nums, orig)
}

// canonical: every writer returns the reference encoding.
func canonical(w *rt.W, delta int, nums []uint32, prev uint32) {
	orig := buf32(w, "orig", len(nums))
	copy(orig, nums)
	desc := describe(orig, prev, delta)
	enc := orig
	if delta == 1 {
		enc = ref.Deltas(buf32(w, "deltas", len(nums))[:0], orig, prev)
	}
	want := ref.Encode(buf8(w, "want", 5*len(nums)+1)[:0], enc)
	for wi := range api.Writers[delta] {
		wr := &api.Writers[delta][wi]
		var stream []byte
		copy(nums, orig)
		if !w.Call(wr.Name, desc, func() { stream = wr.Fn(nums, prev) }) {
			continue
		}
		w.Count("streams compared", 1)
		w.Count("stream bytes compared", len(want))
		if k := rt.DiffB(stream, want); k >= 0 {
			g, x := "none", "none"
			if k < len(stream) {
				g = fmt.Sprintf("%#x", stream[k])
			}
			if k < len(want) {
				x = fmt.Sprintf("%#x", want[k])
			}
			w.Violate(wr.Name, "format", "byte %d: got %s want %s (lengths %d and %d); %s", k, g, x, len(stream), len(want), desc())
		}
	}
	copy(nums, orig)
}

// wellFormed: every reader decodes streams of the reference encoder.
func wellFormed(w *rt.W, delta int, nums []uint32, prev uint32) {
	n := len(nums)
	want := nums
	if delta == 1 {
		// nums are the encoded differences
		want = ref.Sums(buf32(w, "sums", n)[:0], nums, prev)
	}
	variants := 2
	if n > 4096 {
		variants = 1
	}
	sizes := buf8(w, "sizes", n)
	for v := 0; v < variants; v++ {
		mode := w.R.N(6)
		if v == 0 && n < 2000 {
			mode = 0
		}
		widen := false
		one := w.R.N(n)
		for i, x := range nums {
			m := ref.Len(x)
			s := m
			switch mode {
			case 1: // any admissible size
				s = m + w.R.N(5-m)
			case 2:
				s = 4
			case 3: // one wide value
				if i == one {
					s = 4
				}
			case 4: // at least 2 or 3 bytes, the same for all
				s = max(m, 2+one%2)
			case 5: // widened now and then
				if w.R.N(8) == 0 {
					s = m + w.R.N(5-m)
				}
			}
			widen = widen || s != m
			sizes[i] = uint8(s)
		}
		pad := byte(0)
		if w.R.N(2) == 0 {
			pad = byte(w.R.U32())
			if w.R.N(3) == 0 {
				pad = 0xff
			}
		}
		trail := 0
		switch w.R.N(3) {
		case 0:
			trail = 1 + w.R.N(8)
		case 1:
			trail = w.R.N(100)
		}
		if w.R.N(16) == 0 {
			trail = w.R.N(64 + 4*min(n, 5000))
		}
		align := w.R.N(64)
		raw := buf8(w, "raw", align+5*n+1+trail+64)
		st := ref.EncodeSizes(raw[:align], nums, sizes, pad)
		enc := len(st) - align
		for i := 0; i < trail; i++ {
			st = append(st, byte(w.R.U32()))
		}
		stream := st[align:len(st):len(st)]
		if len(stream) == 0 && w.R.N(2) == 0 {
			stream = nil
		}
		if widen {
			w.Count("streams non-minimal", 1)
		}
		if trail > 0 {
			w.Count("streams with trailing bytes", 1)
		}
		if n%4 != 0 && pad>>(2*uint(n%4)) != 0 {
			w.Count("streams with garbage control bits", 1)
		}
		surplus := 0
		if w.R.N(2) == 0 {
			surplus = w.R.N(50)
			w.Count("outputs with surplus", 1)
		}
		oa := w.R.N(16)
		dirt := w.R.U32()
		for ri := range api.Readers[delta] {
			rd := &api.Readers[delta][ri]
			ob := buf32(w, "ob", oa+n+surplus+16)
			for i := range ob {
				ob[i] = dirt ^ uint32(i)*0x9e3779b1
			}
			out := ob[oa : oa+n+surplus : oa+n+surplus]
			desc := func() string {
				d := fmt.Sprintf("count=%d encoded=%d trailing=%d surplus=%d widening=%d pad=%#x", n, enc, trail, surplus, mode, pad)
				if delta == 1 {
					d += fmt.Sprintf(" prev=%#x", prev)
				}
				return d + " stream " + rt.Bytes(stream)
			}
			if !w.Call(rd.Name, desc, func() { rd.Fn(n, stream, out, prev) }) {
				continue
			}
			w.Count("streams decoded", 1)
			if k := rt.Diff32(out[:n], want); k >= 0 {
				w.Violate(rd.Name, "decoding", "value %d of %d: got %#x want %#x; %s", k, n, out[k], want[k], desc())
			}
			for i := range ob {
				if (i < oa || i >= oa+n) && ob[i] != dirt^uint32(i)*0x9e3779b1 {
					w.Violate(rd.Name, "surplus", "stored %#x at out[%d], count is %d; %s", ob[i], i-oa, n, desc())
					break
				}
			}
		}
	}
}
