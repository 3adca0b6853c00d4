//go:build linux && amd64

package checks

import (
	"fmt"
	"runtime"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/guard"
	"svbverif/ref"
	"svbverif/rt"
)

func e8names() (s []string) {
	for d := 0; d < 2; d++ {
		for _, e := range api.Encs8[d] {
			s = append(s, e.Name)
		}
		s = append(s, api.Put4Name[d], api.PutNName[d])
	}
	return
}
func d8names() (s []string) {
	for d := 0; d < 2; d++ {
		for _, e := range api.Decs8[d] {
			s = append(s, e.Name)
		}
		s = append(s, api.Get4Name[d], api.GetNName[d])
	}
	return
}

func init() {
	All["C10"] = Def{Phases: blockEncoders, Must: append(e8names(), "lane sweep blocks", "inaccessible surplus", "inaccessible capacity"),
		Rule: "Every 16-bit control value, with values of those byte lengths (minima, maxima, random), on every 8-value encoder, as values and as wrapped differences from a random prev; every 8-bit control value on the 4-value ones, counts 0..7 and large ones on the partial ones; a sweep of all lanes through a permutation of the 32-bit values. Input read-only; input and output end or begin at an inaccessible page or have any alignment; surplus length or capacity of either may be inaccessible. Non-trivial: any block with at least one value; distinct by values and prev.",
	}
	All["C11"] = Def{Phases: blockDecoders, Must: append(d8names(), "inaccessible surplus", "inaccessible capacity"),
		Rule: "Every 16-bit control value with random, zero, all-ones and sparse data bytes on every 8-value decoder, every 8-bit one on the 4-value and partial decoders with counts 0..7 and large ones, random prev. Input and output end or begin at an inaccessible page or have any alignment; surplus length or capacity of either may be inaccessible; dirty output. Non-trivial: any block with at least one value; distinct by control, data and prev.",
	}
	All["C12"] = Def{Phases: shortBuffers, Must: []string{"encode.Put8uint32Scalar", "encode.Put8uint32DeltaScalar", "encode.Put4uint32Scalar", "encode.Put4uint32DeltaScalar", "encode.PutUint32Scalar", "encode.PutUint32DeltaScalar",
		"decode.Get8uint32Scalar", "decode.Get8uint32DeltaScalar", "decode.Get4uint32Scalar", "decode.Get4uint32DeltaScalar", "decode.GetUint32Scalar", "decode.GetUint32DeltaScalar", "reader.ReadAllScalar", "reader.ReadAllDeltaScalar", "util.PutVarint", "util.PutDeltaVarint", "util.GetVarint", "util.GetDeltaVarint", "util.Delta", "varint data cut within a value", "panics observed"},
		Rule: "Every scalar block function with every shortfall of input and of output (both with and without spare capacity behind len, guarded by canaries and inaccessible pages), for byte lengths from every control value; scalar stream readers with every truncation of streams of up to 70 values and with every shortfall of the output; varint and difference helpers with short outputs and with data cut within a value. Non-trivial: the buffer is shorter than needed; distinct by function, control or values, and shortfall.",
	}
	All["C21"] = Def{Phases: composition, Must: append(append(e8names(), d8names()...), "segmented histories", "block histories"),
		Rule: "A sequence is encoded and decoded block by block (8, then 4, then a partial group, the split chosen at random where the format allows) with a random mix of automatic, accelerated and scalar block functions, cursors advanced by the size helpers and prev chained by the caller; and split at random points into segments that are written and read by the stream functions with chained prev. Non-trivial: at least one value; distinct by content hash.",
	}
}

type blockRegs struct{ in, out *guard.Region }

func blockRegions(w *rt.W) *blockRegs {
	return rt.State(w, "blockregs", func() *blockRegs {
		return &blockRegs{guard.New("in", 4096, true), guard.New("out", 4096, false)}
	})
}

// place puts n bytes at one end of the region, or at any alignment near it. The
// second result is the number of bytes up to its end, which may serve as surplus
// length or capacity that cannot be touched.
func place(w *rt.W, r *guard.Region, n, unit int) (b guard.Buf, surplus int) {
	end, shift := w.R.N(2) == 0, 0
	switch w.R.N(4) {
	case 0:
		shift = unit * w.R.N(64/unit)
	case 1:
		if end {
			surplus = 1 + w.R.N(40)
		}
	}
	return r.Place(n, end, shift), surplus
}

// stretch gives s inaccessible surplus length or capacity.
func stretch[T any](w *rt.W, s []T, n int) []T {
	switch {
	case n == 0:
	case w.R.N(2) == 0:
		w.Count("inaccessible surplus", 1)
		return guard.Stretch(s, len(s)+n)
	default:
		w.Count("inaccessible capacity", 1)
		return guard.Spare(s, n)
	}
	return s
}

func encoderBlock(w *rt.W, delta int, nums []uint32, prev uint32) {
	rs := blockRegions(w)
	enc := nums
	if delta == 1 {
		enc = ref.Deltas(buf32(w, "bd", 8)[:0], nums, prev)
	}
	want := ref.Data(buf8(w, "bw", 32)[:0], enc)
	ctrl := ref.Ctrl8(enc)
	w.Note(gen.Hash(uint64(prev)<<1|uint64(delta), nums))
	fill := byte(w.R.U32())
	for k := range api.Encs8[delta] {
		e := &api.Encs8[delta][k]
		ib, more := place(w, rs.in, 32, 4)
		copy(guard.U32(ib.W), nums)
		in := stretch(w, guard.U32(ib.V), more)
		n := 32
		if e.Scalar && w.R.N(2) == 0 {
			n = len(want)
		}
		ob, more := place(w, rs.out, n, 1)
		for i := range ob.W {
			ob.W[i] = fill
		}
		out := stretch(w, ob.V, more)
		if more == 0 && w.R.N(4) == 0 {
			w.Count("slices of the encoded length", 1)
			out = out[:len(want)]
		}
		desc := func() string {
			return fmt.Sprintf("len(in)=%d len(out)=%d cap(out)=%d, %d bytes accessible; prev=%#x values %s", len(in), len(out), cap(out), n, prev, rt.Nums(nums))
		}
		var got uint16
		if !guarded(w, e.Name, desc, func() { got = e.Fn(in, out, prev) }, rs.in, rs.out) {
			continue
		}
		if got != ctrl {
			w.Violate(e.Name, "control", "returned %#04x want %#04x; %s", got, ctrl, desc())
		}
		checkData(w, e.Name, ob, want, e.Scalar, fill, desc)
	}
}

func checkData(w *rt.W, fn string, ob guard.Buf, want []byte, exact bool, fill byte, desc func() string) {
	if k := rt.DiffB(ob.W[:len(want)], want); k >= 0 {
		w.Violate(fn, "data", "byte %d: got %#x want %#x; %s", k, ob.W[k], want[k], desc())
	}
	if exact {
		for k := len(want); k < len(ob.W); k++ {
			if ob.W[k] != fill {
				w.Violate(fn, "overrun", "changed byte %d of out, only %d are encoded; %s", k, len(want), desc())
				break
			}
		}
	}
	if rel, ok := ob.Intact(); !ok {
		w.Violate(fn, "overrun", "changed byte %d relative to out of %d bytes; %s", rel, len(ob.W), desc())
	}
}

// small encodes n values (0..4) with the 4-value or partial function.
func encoderSmall(w *rt.W, delta, count int, four bool, nums []uint32, prev uint32) {
	rs := blockRegions(w)
	n := min(max(count, 0), 4)
	vals := nums[:n]
	enc := vals
	if delta == 1 {
		enc = ref.Deltas(buf32(w, "bd", 8)[:0], vals, prev)
	}
	want := ref.Data(buf8(w, "bw", 32)[:0], enc)
	ctrl := ref.Ctrl(enc)
	if n > 0 {
		w.Note(gen.Hash(uint64(prev)<<3|uint64(delta)<<2|uint64(count)<<40, vals))
	}
	fill := byte(w.R.U32())
	ib, more := place(w, rs.in, 4*n, 4)
	copy(guard.U32(ib.W), vals)
	in := stretch(w, guard.U32(ib.V), more)
	on := len(want)
	if w.R.N(2) == 0 {
		on = 16 + w.R.N(20)
	}
	ob, more := place(w, rs.out, on, 1)
	for i := range ob.W {
		ob.W[i] = fill
	}
	out := stretch(w, ob.V, more)
	fn := api.PutNName[delta]
	if four {
		fn = api.Put4Name[delta]
	}
	desc := func() string {
		return fmt.Sprintf("count=%d len(in)=%d len(out)=%d cap(out)=%d, %d bytes accessible; prev=%#x values %s", count, len(in), len(out), cap(out), on, prev, rt.Nums(vals))
	}
	var got uint8
	ok := guarded(w, fn, desc, func() {
		if four {
			got = api.Put4(delta, in, out, prev)
		} else {
			got = api.PutN(delta, in, out, count, prev)
		}
	}, rs.in, rs.out)
	if !ok {
		return
	}
	if got != ctrl {
		w.Violate(fn, "control", "returned %#02x want %#02x; %s", got, ctrl, desc())
	}
	checkData(w, fn, ob, want, true, fill, desc)
}

var counts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 255, 256, 257, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 3, 1<<63 - 1}

func blockEncoders(th bool) []rt.Phase {
	var ps []rt.Phase
	modes := pick(th, 6, 60)
	ps = append(ps, rt.Phase{Name: "enc8", N: 65536 * modes, Run: func(w *rt.W, i int) {
		c, mode := i&0xffff, i>>16
		nums := buf32(w, "nums8", 8)
		for k := range nums {
			nums[k] = w.R.OfLen(c>>(2*uint(k))&3+1, mode)
		}
		if mode == 2 || mode > 3 { // mix of minima, maxima and others
			for k := range nums {
				nums[k] = w.R.OfLen(c>>(2*uint(k))&3+1, w.R.N(4))
			}
		}
		encoderBlock(w, 0, nums, 0)
		prev := w.R.U32()
		sums := ref.Sums(buf32(w, "sums8", 8)[:0], nums, prev)
		encoderBlock(w, 1, sums, prev)
		encoderBlock(w, 1, nums, w.R.Prev(nums))
		if i%65521 == 3 {
			w.Sample("control %#04x values %s prev %#x", c, rt.Nums(nums), prev)
		}
	}})
	ps = append(ps, rt.Phase{Name: "edges8", N: pick(th, 200000, 10000000), Run: func(w *rt.W, i int) {
		nums := buf32(w, "nums8", 8)
		gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
		if w.R.N(2) == 0 {
			for k := range nums {
				nums[k] = gen.Edges[w.R.N(len(gen.Edges))]
			}
		}
		encoderBlock(w, 0, nums, 0)
		encoderBlock(w, 1, nums, w.R.Prev(nums))
	}})
	ps = append(ps, rt.Phase{Name: "enc4", N: 256 * len(counts) * pick(th, 12, 400), Run: func(w *rt.W, i int) {
		c := i & 0xff
		cnt := counts[i>>8%len(counts)]
		nums := buf32(w, "nums8", 8)[:4]
		m := w.R.N(5)
		for k := range nums {
			nums[k] = w.R.OfLen(c>>(2*uint(k))&3+1, m)
		}
		prev := w.R.U32()
		sums := ref.Sums(buf32(w, "sums8", 8)[:0], nums, prev)
		encoderSmall(w, 0, cnt, false, nums, 0)
		encoderSmall(w, 1, cnt, false, sums, prev)
		encoderSmall(w, 1, cnt, false, nums, w.R.Prev(nums))
		encoderSmall(w, 0, 4, true, nums, 0)
		encoderSmall(w, 1, 4, true, sums, prev)
		encoderSmall(w, 1, 4, true, nums, w.R.Prev(nums))
	}})
	// all lanes at once run through a permutation of the 32-bit values; only
	// results are compared here
	const per = 1 << 12
	total := pick(th, 1<<14, 1<<20) // cases of 4096 blocks: 2^26, or all 2^32
	ps = append(ps, rt.Phase{Name: "lanes", N: total, Cost: per * 8, Run: func(w *rt.W, i int) {
		out := buf8(w, "lane-out", 64)
		nums := buf32(w, "lane-in", 8)
		want := buf8(w, "lane-want", 32)
		sums := buf32(w, "lane-sums", 8)
		mul := [8]uint32{0x9e3779b1, 0x85ebca6b, 0xc2b2ae35, 0x27d4eb2f, 0x165667b1, 0xfd7046c5, 0xb55a4f09, 1}
		if !th {
			mul[7] = 0x01000193
		}
		for j := 0; j < per; j++ {
			c := uint32(i*per + j)
			for k := range nums {
				nums[k] = c*mul[k] + uint32(k)*0x11111111
				if j&1 == 1 { // of a byte length of its own
					nums[k] >>= 8 * (c >> (2 * uint(k)) & 3)
				}
			}
			ctrl := uint16(0)
			pos := 0
			p := uint32(c * 77)
			for k, v := range nums {
				l := 1
				want[pos] = byte(v)
				if v > 0xff {
					l = 2
					want[pos+1] = byte(v >> 8)
					if v > 0xffff {
						l = 3
						want[pos+2] = byte(v >> 16)
						if v > 0xffffff {
							l = 4
							want[pos+3] = byte(v >> 24)
						}
					}
				}
				pos += l
				ctrl |= uint16(l-1) << (2 * uint(k))
				p += v
				sums[k] = p
			}
			for d := 0; d < 2; d++ {
				in := nums
				if d == 1 {
					in = sums
				}
				for k := range api.Encs8[d] {
					e := &api.Encs8[d][k]
					got := e.Fn(in, out[:32], c*77)
					if got != ctrl || string(out[:pos]) != string(want[:pos]) {
						w.Violate(e.Name, "data", "control %#04x want %#04x, data %s want %s; prev=%#x values %s", got, ctrl, rt.Bytes(out[:pos]), rt.Bytes(want[:pos]), c*77, rt.Nums(in))
					}
				}
			}
		}
		w.Count("lane sweep blocks", per)
		for d := 0; d < 2; d++ {
			for k := range api.Encs8[d] {
				w.Called(api.Encs8[d][k].Name, per)
			}
		}
	}})
	return ps
}

func blockDecoders(th bool) []rt.Phase {
	var ps []rt.Phase
	fillData := func(w *rt.W, b []byte, mode int) {
		for i := range b {
			switch mode {
			case 0:
				b[i] = byte(w.R.U32())
			case 1:
				b[i] = 0xff
			case 2:
				b[i] = byte(i + 1)
			case 3:
				b[i] = [4]byte{0, 1, 0x80, 0xff}[w.R.N(4)]
			default:
				b[i] = byte(w.R.U32())
			}
		}
	}
	decode := func(w *rt.W, fn string, scalar bool, ctrl uint16, groups, n int, delta int, data []byte, prev uint32, call func(in []byte, out []uint32) int, wantRet bool) {
		rs := blockRegions(w)
		var vals [8]uint32
		pos := 0
		for k := 0; k < n; k++ {
			l := int(ctrl>>(2*uint(k))&3) + 1
			vals[k] = ref.LE(data[pos : pos+l])
			pos += l
		}
		want := vals[:n]
		if delta == 1 {
			want = ref.Sums(buf32(w, "wd", 8)[:0], want, prev)
		}
		size := 32
		if scalar && w.R.N(3) > 0 {
			size = pos
		}
		ib, more := place(w, rs.in, size, 1)
		copy(ib.W, data[:size])
		in := stretch(w, ib.V, more)
		if more == 0 && w.R.N(4) == 0 {
			w.Count("slices of the encoded length", 1)
			in = in[:pos]
		}
		ob, more := place(w, rs.out, 4*n, 4)
		fill := w.R.U32()
		o32 := guard.U32(ob.W)
		for i := range o32 {
			o32[i] = fill
		}
		out := stretch(w, guard.U32(ob.V), more)
		desc := func() string {
			return fmt.Sprintf("ctrl=%#04x values=%d prev=%#x len(in)=%d cap(in)=%d len(out)=%d out at %p, data %s", ctrl, n, prev, len(in), cap(in), len(out), out, rt.Bytes(data[:size]))
		}
		ret := 0
		if !guarded(w, fn, desc, func() { ret = call(in, out) }, rs.in, rs.out) {
			return
		}
		if wantRet && ret != pos {
			w.Violate(fn, "consumed", "returned %d, %d bytes are encoded; %s", ret, pos, desc())
		}
		if k := rt.Diff32(o32, want); k >= 0 {
			w.Violate(fn, "values", "value %d: got %#x want %#x; %s", k, o32[k], want[k], desc())
		}
		if rel, ok := ob.Intact(); !ok {
			w.Violate(fn, "overrun", "changed byte %d relative to the %d values; %s", rel, n, desc())
		}
	}
	ps = append(ps, rt.Phase{Name: "dec8", N: 65536 * pick(th, 8, 200), Run: func(w *rt.W, i int) {
		ctrl := uint16(i)
		data := buf8(w, "data", 32)
		fillData(w, data, i>>16)
		prev := w.R.U32()
		if w.R.N(4) == 0 {
			prev = gen.Edges[w.R.N(len(gen.Edges))]
		}
		w.Note(gen.HashBytes(uint64(ctrl)<<32|uint64(prev), data))
		if i%65521 == 3 {
			w.Sample("control %#04x prev %#x data %s", ctrl, prev, rt.Bytes(data))
		}
		for d := 0; d < 2; d++ {
			for k := range api.Decs8[d] {
				e := &api.Decs8[d][k]
				decode(w, e.Name, e.Scalar, ctrl, 2, 8, d, data, prev, func(in []byte, out []uint32) int { e.Fn(in, out, ctrl, prev); return 0 }, false)
			}
		}
	}})
	ps = append(ps, rt.Phase{Name: "dec4", N: 256 * len(counts) * pick(th, 24, 800), Run: func(w *rt.W, i int) {
		ctrl := uint8(i)
		cnt := counts[i>>8%len(counts)]
		data := buf8(w, "data", 32)
		fillData(w, data, w.R.N(6))
		prev := w.R.U32()
		n := min(cnt, 4)
		if n > 0 {
			w.Note(gen.HashBytes(uint64(ctrl)<<32|uint64(prev)|uint64(cnt)<<40, data))
		}
		for d := 0; d < 2; d++ {
			decode(w, api.Get4Name[d], true, uint16(ctrl), 1, 4, d, data, prev, func(in []byte, out []uint32) int { api.Get4(d, in, out, ctrl, prev); return 0 }, false)
			decode(w, api.GetNName[d], true, uint16(ctrl), 1, n, d, data, prev, func(in []byte, out []uint32) int { return api.GetN(d, in, out, ctrl, cnt, prev) }, true)
		}
	}})
	return ps
}

// shortBuffers expects run-time panics.
func shortBuffers(th bool) []rt.Phase {
	expect := func(w *rt.W, fn string, desc func() string, f func(), rs *blockRegs, bufs ...guard.Buf) {
		w.Note(gen.HashBytes(uint64(w.Index)<<8, []byte(fn)) ^ uint64(w.R))
		p := w.Try(fn, f)
		switch {
		case p == nil:
			w.Violate(fn, "no-panic", "returned normally; %s", desc())
		case rt.IsFault(p):
			where := ""
			if a, ok := p.(interface{ Addr() uintptr }); ok {
				where = " (" + guard.Where(a.Addr(), rs.in, rs.out) + ")"
			}
			w.Violate(fn, "memory-fault", "%v%s; %s", p, where, desc())
		default:
			if _, ok := p.(runtime.Error); !ok {
				w.Violate(fn, "wrong-panic", "panic value %v is not a run-time error; %s", p, desc())
			}
			w.Count("panics observed", 1)
		}
		for _, b := range bufs {
			if rel, ok := b.Intact(); !ok {
				w.Violate(fn, "overrun", "changed byte %d relative to a buffer of %d bytes; %s", rel, len(b.W), desc())
			}
		}
	}
	// view is the buffer's slice, at the guard page or with canary capacity
	view := func(b guard.Buf, spare int) []byte {
		if spare > 0 {
			return b.Grow(spare)
		}
		return b.V
	}
	place := func(w *rt.W, r *guard.Region, n int) (guard.Buf, int) {
		if w.R.N(2) == 0 {
			return r.Place(n, true, 0), 0
		}
		return r.Place(n, true, 256), 128
	}
	fill := func(w *rt.W, b guard.Buf) {
		for i := range b.W {
			b.W[i] = byte(w.R.U32())
		}
	}
	var ps []rt.Phase
	ps = append(ps, rt.Phase{Name: "encoders", N: 65536 * pick(th, 1, 8), Run: func(w *rt.W, i int) {
		rs := blockRegions(w)
		nums := buf32(w, "nums8", 8)
		for k := range nums {
			nums[k] = w.R.OfLen(i>>(2*uint(k))&3+1, 2)
		}
		for d := 0; d < 2; d++ {
			prev := w.R.U32()
			vals := nums
			if d == 1 {
				vals = ref.Sums(buf32(w, "sums8", 8)[:0], nums, prev)
			}
			kinds := []struct {
				fn string
				n  int
				f  func(in []uint32, out []byte)
			}{
				{api.Encs8[d][1].Name, 8, func(in []uint32, out []byte) { api.Encs8[d][1].Fn(in, out, prev) }},
				{api.Put4Name[d], 4, func(in []uint32, out []byte) { api.Put4(d, in, out, prev) }},
				{api.PutNName[d], 1 + w.R.N(4), nil},
			}
			kinds[2].f = func(in []uint32, out []byte) { api.PutN(d, in, out, kinds[2].n, prev) }
			for _, k := range kinds {
				need := len(ref.Data(buf8(w, "bw", 32)[:0], nums[:k.n]))
				// short output
				short := w.R.N(need)
				if w.R.N(2) == 0 {
					short = need - 1
				}
				ib, isp := place(w, rs.in, 4*k.n)
				copy(guard.U32(ib.W), vals)
				ob, osp := place(w, rs.out, short)
				in, out := guard.U32(view(ib, isp)), view(ob, osp)
				expect(w, k.fn, func() string {
					return fmt.Sprintf("out of %d bytes (cap %d), %d needed; prev=%#x values %s", short, cap(out), need, prev, rt.Nums(vals[:k.n]))
				}, func() { k.f(in, out) }, rs, ob)
				// short input
				sn := w.R.N(k.n)
				ib, isp = place(w, rs.in, 4*sn)
				copy(guard.U32(ib.W), vals)
				ob, osp = place(w, rs.out, 32)
				in, out = guard.U32(view(ib, isp)), view(ob, osp)
				expect(w, k.fn, func() string {
					return fmt.Sprintf("in of %d values (cap %d), %d needed; prev=%#x values %s", sn, cap(in), k.n, prev, rt.Nums(vals[:sn]))
				}, func() { k.f(in, out) }, rs, ob)
			}
		}
	}})
	ps = append(ps, rt.Phase{Name: "decoders", N: 65536 * pick(th, 1, 8), Run: func(w *rt.W, i int) {
		rs := blockRegions(w)
		ctrl := uint16(i)
		for d := 0; d < 2; d++ {
			prev := w.R.U32()
			cnt := 1 + w.R.N(4)
			if w.R.N(4) == 0 {
				cnt = 5 + w.R.N(10)
			}
			kinds := []struct {
				fn string
				n  int
				f  func(in []byte, out []uint32)
			}{
				{api.Decs8[d][1].Name, 8, func(in []byte, out []uint32) { api.Decs8[d][1].Fn(in, out, ctrl, prev) }},
				{api.Get4Name[d], 4, func(in []byte, out []uint32) { api.Get4(d, in, out, uint8(ctrl), prev) }},
				{api.GetNName[d], min(cnt, 4), func(in []byte, out []uint32) { api.GetN(d, in, out, uint8(ctrl), cnt, prev) }},
			}
			for _, k := range kinds {
				need := 0
				for v := 0; v < k.n; v++ {
					need += int(ctrl>>(2*uint(v))&3) + 1
				}
				short := w.R.N(need)
				if w.R.N(2) == 0 {
					short = need - 1
				}
				ib, isp := place(w, rs.in, short)
				fill(w, ib)
				ob, osp := place(w, rs.out, 32)
				in, out := view(ib, isp), guard.U32(view(ob, osp))
				expect(w, k.fn, func() string {
					return fmt.Sprintf("in of %d bytes (cap %d), %d needed; ctrl=%#04x values=%d prev=%#x data %s", short, cap(in), need, ctrl, k.n, prev, rt.Bytes(in))
				}, func() { k.f(in, out) }, rs, ob)
				sn := w.R.N(k.n)
				ib, isp = place(w, rs.in, 32)
				fill(w, ib)
				ob, osp = place(w, rs.out, 4*sn)
				in, out = view(ib, isp), guard.U32(view(ob, osp))
				expect(w, k.fn, func() string {
					return fmt.Sprintf("out of %d values (cap %d), %d needed; ctrl=%#04x prev=%#x", sn, cap(out), k.n, ctrl, prev)
				}, func() { k.f(in, out) }, rs, ob)
			}
		}
	}})
	ps = append(ps, rt.Phase{Name: "streams", N: pick(th, 3000, 40000), Run: func(w *rt.W, i int) {
		rs := rt.State(w, "sb", func() *blockRegs { return &blockRegs{guard.New("stream", 8192, true), guard.New("out", 8192, false)} })
		n := 1 + i%70
		nums := buf32(w, "sn", n)
		gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
		enc := ref.EncodeSizes(buf8(w, "enc", 5*n+1)[:0], nums, widths(w, nums, w.R.N(2) == 0), byte(w.R.U32()))
		prev := w.R.U32()
		for d := 0; d < 2; d++ {
			rd := &api.Readers[d][1]
			for s := 0; s < len(enc); s++ {
				if s > 40 && s < len(enc)-24 && w.R.N(8) > 0 {
					continue
				}
				sb := rs.in.Place(s, true, 0)
				copy(sb.W, enc)
				ob := rs.out.Place(4*n, w.R.N(2) == 0, 0)
				expect(w, rd.Name, func() string {
					return fmt.Sprintf("stream cut to %d of %d bytes; count=%d prev=%#x stream %s", s, len(enc), n, prev, rt.Bytes(enc))
				}, func() { rd.Fn(n, sb.V, guard.U32(ob.V), prev) }, rs, ob)
			}
			sb := rs.in.Place(len(enc), true, 0)
			copy(sb.W, enc)
			for s := 0; s < n; s++ {
				ob := rs.out.Place(4*s, w.R.N(2) == 0, 0)
				expect(w, rd.Name, func() string {
					return fmt.Sprintf("out of %d values, count=%d; prev=%#x stream %s", s, n, prev, rt.Bytes(enc))
				}, func() { rd.Fn(n, sb.V, guard.U32(ob.V), prev) }, rs, ob)
			}
		}
	}})
	ps = append(ps, rt.Phase{Name: "helpers", N: pick(th, 30000, 600000), Run: func(w *rt.W, i int) {
		rs := rt.State(w, "sb", func() *blockRegs { return &blockRegs{guard.New("stream", 8192, true), guard.New("out", 8192, false)} })
		n := 1 + i%40
		nums := buf32(w, "hn", n)
		gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
		prev := w.R.U32()
		desc := func(what string, len, need int) func() string {
			return func() string {
				return fmt.Sprintf("%s of %d, %d needed; prev=%#x values %s", what, len, need, prev, rt.Nums(nums))
			}
		}
		for d := 0; d < 2; d++ {
			put, get := api.PutVarint, api.GetVarint
			if d == 1 {
				put = func(in []uint32, out []byte) int { return api.PutDeltaVarint(in, out, prev) }
				get = func(in []byte, out []uint32) int { return api.GetDeltaVarint(in, out, prev) }
			}
			enc := nums
			if d == 1 {
				enc = ref.Deltas(buf32(w, "hd", n)[:0], nums, prev)
			}
			data := buf8(w, "hv", 5*n)[:0]
			for _, v := range enc {
				data = ref.Uvarint(data, v)
			}
			short := w.R.N(len(data))
			if w.R.N(2) == 0 {
				short = len(data) - 1
			}
			ib, isp := place(w, rs.in, 4*n)
			copy(guard.U32(ib.W), nums)
			ob, osp := place(w, rs.out, short)
			in, out := guard.U32(view(ib, isp)), view(ob, osp)
			expect(w, putV[d], desc("out", short, len(data)), func() { put(in, out) }, rs, ob)

			ib, isp = place(w, rs.in, len(data))
			copy(ib.W, data)
			sn := w.R.N(n)
			ob, osp = place(w, rs.out, 4*sn)
			vin, vout := view(ib, isp), guard.U32(view(ob, osp))
			expect(w, getV[d], desc("out", sn, n), func() { get(vin, vout) }, rs, ob)

			// data that ends within a value
			cut := 0
			for k := range data {
				if data[k] >= 0x80 && (cut == 0 || w.R.N(4) > 0) {
					cut = k + 1
				}
			}
			if cut > 0 {
				ib, isp = place(w, rs.in, cut)
				copy(ib.W, data)
				m := n + w.R.N(30)
				ob, osp = place(w, rs.out, 4*m)
				vin, vout = view(ib, isp), guard.U32(view(ob, osp))
				expect(w, getV[d], desc("data", cut, len(data)), func() { get(vin, vout) }, rs, ob)
				w.Count("varint data cut within a value", 1)
			}
		}
		sn := w.R.N(n)
		ib, isp := place(w, rs.in, 4*n)
		copy(guard.U32(ib.W), nums)
		ob, osp := place(w, rs.out, 4*sn)
		in, out := guard.U32(view(ib, isp)), guard.U32(view(ob, osp))
		expect(w, "util.Delta", desc("out", sn, n), func() { api.Delta(in, out) }, rs, ob)
	}})
	return ps
}

// composition: histories of block calls against the stream format.
func composition(th bool) []rt.Phase {
	ps := seqPhases(th, scale{Div: 2, MaxBig: 1 << 18}, func(w *rt.W, nums []uint32) {
		blockHistory(w, 0, nums, 0)
		deltaVariants(&w.R, nums, func(v []uint32, p uint32) { blockHistory(w, 1, v, p) })
		segments(w, nums, w.R.Prev(nums))
	})
	return ps
}

func blockHistory(w *rt.W, delta int, nums []uint32, prev uint32) {
	n := len(nums)
	enc := nums
	if delta == 1 {
		enc = ref.Deltas(buf32(w, "cd", n)[:0], nums, prev)
	}
	want := ref.Encode(buf8(w, "cw", 5*n+1)[:0], enc)
	ctrlLen := (n + 3) / 4
	ctrls := buf8(w, "cc", ctrlLen+2)[:0]
	data := buf8(w, "cdata", 4*n+64)
	for i := range data {
		data[i] = 0xee
	}
	desc := describe(nums, prev, delta)
	pos, p, i := 0, prev, 0
	steps := 0
	mixed := w.R.N(5) > 0
	var fns string
	for i < n {
		steps++
		left := n - i
		kind := 0 // 8 values
		if left < 8 || mixed && w.R.N(4) == 0 {
			kind = 1
			if left < 4 || mixed && w.R.N(3) == 0 {
				kind = 2
			}
		}
		var fn string
		ok := false
		switch kind {
		case 0:
			e := &api.Encs8[delta][w.R.N(len(api.Encs8[delta]))]
			fn = e.Name
			var c uint16
			room := data[pos : pos+32]
			if w.R.N(4) == 0 {
				room = data[pos : 4*n]
			}
			ok = w.Call(fn, desc, func() { c = e.Fn(nums[i:i+8], room, p) })
			ctrls = append(ctrls, byte(c), byte(c>>8))
			pos += api.SizeTwo(c)
			p = nums[i+7]
			i += 8
		default:
			k := min(left, 4)
			var c uint8
			if kind == 1 {
				fn = api.Put4Name[delta]
				ok = w.Call(fn, desc, func() { c = api.Put4(delta, nums[i:i+4], data[pos:], p) })
			} else {
				fn = api.PutNName[delta]
				ok = w.Call(fn, desc, func() { c = api.PutN(delta, nums[i:], data[pos:], k, p) })
			}
			ctrls = append(ctrls, c)
			pos += api.Size(c) - (4 - k)
			p = nums[i+k-1]
			i += k
		}
		if !ok {
			return
		}
		if steps < 40 {
			fns += " " + fn
		}
		// online: the prefix so far agrees with the format
		nc := len(ctrls)
		if pos < 0 || pos > len(want)-ctrlLen || ctrls[nc-1] != want[nc-1] || nc > 1 && ctrls[nc-2] != want[nc-2] {
			w.Violate(fn, "composition", "after %d values: control bytes %x want %x, data size %d; history%s; %s", i, ctrls[max(0, nc-2):], want[max(0, nc-2):nc], pos, fns, desc())
			return
		}
	}
	if k := rt.DiffB(data[:pos], want[ctrlLen:]); k >= 0 {
		w.Violate("block encoders", "composition", "data byte %d differs (%d and %d bytes); history%s; %s", k, pos, len(want)-ctrlLen, fns, desc())
		return
	}
	w.Count("block histories", 1)
	w.Count("block steps", steps)

	// and back
	stream := want
	out := buf32(w, "co", n+8)
	for i := range out {
		out[i] = 0xdeadbeef
	}
	pos, p, i = 0, prev, 0
	fns = ""
	padded := append(data[:0], stream[ctrlLen:]...)
	dl := len(padded)
	padded = append(padded, make([]byte, 32)...)
	for i < n {
		left := n - i
		kind := 0
		ci := i / 4
		if left < 8 || mixed && w.R.N(4) == 0 {
			kind = 1
			if left < 4 || mixed && w.R.N(3) == 0 {
				kind = 2
			}
		}
		var fn string
		ok := false
		switch kind {
		case 0:
			e := &api.Decs8[delta][w.R.N(len(api.Decs8[delta]))]
			fn = e.Name
			c := uint16(stream[ci]) | uint16(stream[ci+1])<<8
			rest := padded[pos:]
			if w.R.N(2) == 0 { // the padding is capacity only
				rest = padded[pos:dl]
			}
			ok = w.Call(fn, desc, func() { e.Fn(rest, out[i:i+8], c, p) })
			pos += api.SizeTwo(c)
			i += 8
		default:
			c := stream[ci]
			k := min(left, 4)
			if kind == 1 {
				fn = api.Get4Name[delta]
				ok = w.Call(fn, desc, func() { api.Get4(delta, padded[pos:dl], out[i:i+4], c, p) })
				pos += api.Size(c)
			} else {
				fn = api.GetNName[delta]
				r := 0
				ok = w.Call(fn, desc, func() { r = api.GetN(delta, padded[pos:dl], out[i:], c, k, p) })
				pos += r
			}
			i += k
		}
		if !ok {
			return
		}
		p = out[i-1]
		if len(fns) < 1000 {
			fns += " " + fn
		}
		if out[i-1] != nums[i-1] {
			w.Violate(fn, "composition", "value %d: got %#x want %#x; history%s; %s", i-1, out[i-1], nums[i-1], fns, desc())
			return
		}
	}
	if k := rt.Diff32(out[:n], nums); k >= 0 {
		w.Violate("block decoders", "composition", "value %d: got %#x want %#x; history%s; %s", k, out[k], nums[k], fns, desc())
	}
	if n > 0 && pos != dl {
		w.Violate("block decoders", "composition", "%d bytes consumed of %d; history%s; %s", pos, dl, fns, desc())
	}
}

// segments: chained prev over separately encoded pieces.
func segments(w *rt.W, nums []uint32, prev uint32) {
	n := len(nums)
	out := buf32(w, "so", n)
	p, q := prev, prev
	for i := 0; i < n; {
		k := 1 + w.R.N(1+w.R.N(min(n-i, 200)))
		if n > 4096 {
			k = min(n-i, k*32)
		}
		seg := nums[i : i+k]
		wr := &api.Writers[1][w.R.N(len(api.Writers[1]))]
		rd := &api.Readers[1][w.R.N(len(api.Readers[1]))]
		var st []byte
		desc := func() string {
			return fmt.Sprintf("segment [%d:%d] prev=%#x of %s", i, i+k, p, rt.Nums(nums))
		}
		if !w.Call(wr.Name, desc, func() { st = wr.Fn(seg, p) }) || !w.Call(rd.Name, desc, func() { rd.Fn(k, st, out[i:i+k], q) }) {
			return
		}
		if j := rt.Diff32(out[i:i+k], seg); j >= 0 {
			w.Violate(wr.Name+"->"+rd.Name, "segments", "value %d: got %#x want %#x; %s", i+j, out[i+j], nums[i+j], desc())
			return
		}
		i += k
		p, q = nums[i-1], out[i-1]
	}
	w.Count("segmented histories", 1)
}
