package checks

import (
	"fmt"
	"runtime"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

// Monitors that need nothing but Go, for other architectures and for
// processors without the accelerated routines' features.

func init() {
	must := []string{"util.PutVarint", "util.GetVarint", "util.PutDeltaVarint", "util.GetDeltaVarint", "control bytes", "control pairs", "modes checked", "panics observed", "random numbers"}
	for d := 0; d < 2; d++ {
		must = append(must, names(api.Writers[d])...)
		must = append(must, rnames(api.Readers[d])...)
		for _, e := range api.Encs8[d] {
			must = append(must, e.Name)
		}
		for _, e := range api.Decs8[d] {
			must = append(must, e.Name)
		}
		must = append(must, api.Put4Name[d], api.PutNName[d], api.Get4Name[d], api.GetNName[d])
	}
	All["C15"] = Def{Phases: portable, Must: must,
		Rule: seqRule + " (with fewer repetitions). Each goes through all writers and readers, the varint and difference helpers, and is compared with the reference; random blocks through all block functions incl. partial groups, counts above 4 and short buffers; all table rows and size helpers. Non-trivial: at least one value."}
}

func init() {
	d := All["C15"]
	d.Phases = func(th bool) []rt.Phase { return portable(th)[1:] }
	d.Must = slices.DeleteFunc(slices.Clone(d.Must), func(s string) bool { return s == "modes checked" })
	All["C17"] = d
}

func portable(th bool) []rt.Phase {
	sc := scale{Div: 24, MaxBig: 1 << 17}
	if th {
		sc.MaxBig = 1 << 21
	}
	switch runtime.GOARCH {
	case "wasm":
		sc.Div *= 4
	case "mips", "mips64": // emulated
		sc = scale{Div: pick(th, 24*16, 24), MaxBig: pick(th, 1<<14, 1<<18)}
	}
	return portableScaled(th, sc)
}

func portableScaled(th bool, sc scale) []rt.Phase {
	ps := []rt.Phase{{Name: "mode", N: 1, Run: func(w *rt.W, i int) {
		w.Note(1)
		w.Count("modes checked", 2)
		want := shared.Normal
		if m := encode.GetMode(); m != want {
			w.Violate("encode.GetMode", "mode", "got %v want %v (%s)", m, want, runtime.GOARCH)
		}
		if m := decode.GetMode(); m != want {
			w.Violate("decode.GetMode", "mode", "got %v want %v (%s)", m, want, runtime.GOARCH)
		}
	}}}
	seq := seqPhases(th, sc, func(w *rt.W, nums []uint32) {
		canonical(w, 0, nums, 0)
		roundTrip(w, 0, nums, 0)
		wellFormed(w, 0, nums, 0)
		deltaVariants(&w.R, nums, func(v []uint32, p uint32) {
			canonical(w, 1, v, p)
			roundTrip(w, 1, v, p)
			wellFormed(w, 1, v, p)
		})
		if w.R.N(4) == 0 {
			varint(w, 0, nums, 0)
			deltaVariants(&w.R, nums, func(v []uint32, p uint32) { varint(w, 1, v, p) })
		}
	})
	for _, p := range seq {
		if p.Name == "grid" { // as large in every setting of scale
			p.N = max(161*len(gen.Patterns), p.N/sc.Div)
		}
		ps = append(ps, p)
	}
	ps = append(ps, rt.Phase{Name: "blocks", N: pick(th, 65536, 65536*16) / max(1, sc.Div/24), Run: plainBlocks})
	ps = append(ps, rt.Phase{Name: "short", N: pick(th, 8192, 65536), Run: plainShort})
	ps = append(ps, tableChecks(false)...)
	ps = append(ps, rt.Phase{Name: "helpers", N: 300, Run: func(w *rt.W, i int) {
		d := api.GenUint32(i)
		if len(d) != i {
			w.Violate("util.GenUint32", "length", "%d values for n=%d", len(d), i)
			return
		}
		w.Note(uint64(i) | 1<<44)
		w.Count("random numbers", i)
		out := make([]uint32, i)
		api.Delta(d, out)
		if i > 0 {
			if k := rt.Diff32(ref.Sums(nil, out, 0), d); k >= 0 {
				w.Violate("util.Delta", "differences", "value %d: got %#x; %s", k, out[k], rt.Nums(d))
			}
		}
		s := append([]uint32(nil), d...)
		gen.Sort(s)
		api.SortUint32(d)
		if k := rt.Diff32(d, s); k >= 0 {
			w.Violate("util.SortUint32", "sort", "position %d: got %#x want %#x", k, d[k], s[k])
		}
	}})
	ps = append(ps, rt.Phase{Name: "lengths", N: 1, Run: func(w *rt.W, i int) {
		n := 1 << 18
		distribution(w, "util.GenUint32", api.GenUint32(n), 0.02)
		w.Count("random numbers", n)
		w.Note(1 << 45)
	}})
	return ps
}

// plainBlocks: a control value, values of its lengths, every block function.
func plainBlocks(w *rt.W, i int) {
	const canary = 0xb7
	c := uint16(i) * 0x9e37
	nums := make([]uint32, 8)
	mode := w.R.N(4)
	for k := range nums {
		nums[k] = w.R.OfLen(int(c>>(2*uint(k))&3)+1, mode)
	}
	prev := w.R.U32()
	w.Note(gen.Hash(uint64(prev), nums))
	ob := make([]byte, 64)
	vb := make([]uint32, 24)
	store := func(fn string, n int, scalar bool, enc []uint32, f func(out []byte) uint16, desc func() string) {
		want := ref.Data(nil, enc)
		for k := range ob {
			ob[k] = canary
		}
		size := n
		if scalar {
			size = len(want)
		}
		var got uint16
		if !w.Call(fn, desc, func() { got = f(ob[16 : 16+size : 16+size]) }) {
			return
		}
		ctrl := uint16(0)
		for k, v := range enc {
			ctrl |= uint16(ref.Len(v)-1) << (2 * uint(k))
		}
		if got != ctrl {
			w.Violate(fn, "control", "returned %#04x want %#04x; %s", got, ctrl, desc())
		}
		if k := rt.DiffB(ob[16:16+len(want)], want); k >= 0 {
			w.Violate(fn, "data", "byte %d: got %x want %x; %s", k, ob[16:16+len(want)], want, desc())
		}
		for k := range ob {
			if (k < 16 || k >= 16+size) && ob[k] != canary {
				w.Violate(fn, "overrun", "changed byte %d of out; %s", k-16, desc())
				break
			}
		}
	}
	load := func(fn string, data []byte, want []uint32, consumed int, f func(in []byte, out []uint32) int, desc func() string) {
		n := len(want)
		for k := range vb {
			vb[k] = 0xc0ffee00
		}
		ret := 0
		if !w.Call(fn, desc, func() { ret = f(data[:len(data):len(data)], vb[8:8+n:8+n]) }) {
			return
		}
		if consumed >= 0 && ret != consumed {
			w.Violate(fn, "consumed", "returned %d want %d; %s", ret, consumed, desc())
		}
		for k, v := range vb {
			x := uint32(0xc0ffee00)
			if k >= 8 && k < 8+n {
				x = want[k-8]
			}
			if v != x {
				w.Violate(fn, "values", "value %d: got %#x want %#x; %s", k-8, v, x, desc())
				break
			}
		}
	}
	for d := 0; d < 2; d++ {
		vals := nums
		if d == 1 {
			vals = ref.Sums(nil, nums, prev)
		}
		desc := func() string { return fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(vals)) }
		data := ref.Data(nil, nums)
		for k := range api.Encs8[d] {
			e := &api.Encs8[d][k]
			store(e.Name, 32, e.Scalar, nums, func(out []byte) uint16 { return e.Fn(vals[:8:8], out, prev) }, desc)
		}
		store(api.Put4Name[d], 16, true, nums[:4], func(out []byte) uint16 { return uint16(api.Put4(d, vals[:4:4], out, prev)) }, desc)
		cnt := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65536, 1<<31 - 1, int(^uint(0) >> 1)}[w.R.N(14)]
		n := min(cnt, 4)
		cdesc := func() string { return fmt.Sprintf("count=%d %s", cnt, desc()) }
		store(api.PutNName[d], 16, true, nums[:n], func(out []byte) uint16 { return uint16(api.PutN(d, vals[:n:n], out, cnt, prev)) }, cdesc)
		ctrl := ref.Ctrl8(nums)
		for k := range api.Decs8[d] {
			e := &api.Decs8[d][k]
			in := data
			if !e.Scalar {
				in = append(append([]byte(nil), data...), make([]byte, 32-len(data))...)
			}
			load(e.Name, in, vals, -1, func(in []byte, out []uint32) int { e.Fn(in, out, ctrl, prev); return 0 }, desc)
		}
		load(api.Get4Name[d], ref.Data(nil, nums[:4]), vals[:4], -1, func(in []byte, out []uint32) int { api.Get4(d, in, out, uint8(ctrl), prev); return 0 }, desc)
		part := ref.Data(nil, nums[:n])
		load(api.GetNName[d], part, vals[:n], len(part), func(in []byte, out []uint32) int { return api.GetN(d, in, out, uint8(ctrl), cnt, prev) }, cdesc)
	}
}

// plainShort: a scalar function panics on a buffer one to some bytes short.
func plainShort(w *rt.W, i int) {
	nums := make([]uint32, 8)
	for k := range nums {
		nums[k] = w.R.OfLen(1+w.R.N(4), 2)
	}
	ctrl := ref.Ctrl8(nums)
	w.Note(gen.Hash(uint64(i), nums))
	expect := func(fn string, f func()) {
		p := w.Try(fn, f)
		if _, ok := p.(runtime.Error); !ok {
			w.Violate(fn, "no-panic", "panic value %v; values %s", p, rt.Nums(nums))
			return
		}
		w.Count("panics observed", 1)
	}
	for d := 0; d < 2; d++ {
		prev := w.R.U32()
		vals := nums
		if d == 1 {
			vals = ref.Sums(nil, nums, prev)
		}
		data := ref.Data(nil, nums)
		cut := w.R.N(len(data))
		short := make([]byte, cut)
		in := append([]byte(nil), data[:cut]...)
		in = in[:cut:cut]
		sv := vals[:w.R.N(8)]
		sv = sv[:len(sv):len(sv)]
		expect("encode.Put8uint32*Scalar", func() { api.Encs8[d][1].Fn(vals, short, prev) })
		expect("encode.Put8uint32*Scalar", func() { api.Encs8[d][1].Fn(sv, make([]byte, 32), prev) })
		expect("decode.Get8uint32*Scalar", func() { api.Decs8[d][1].Fn(in, make([]uint32, 8), ctrl, prev) })
		expect("decode.Get8uint32*Scalar", func() { api.Decs8[d][1].Fn(data, make([]uint32, w.R.N(8)), ctrl, prev) })
	}
}
