package checks

import (
	"slices"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

// Monitors for builds with other compilers, options and sanitizers.

func init() {
	d := All["C17"]
	d.Phases = func(th bool) []rt.Phase {
		ps := portableScaled(th, scale{Div: pick(th, 160, 24), MaxBig: pick(th, 1<<15, 1<<18)})[1:]
		for i := range ps {
			if ps[i].Name == "blocks" || ps[i].Name == "short" {
				ps[i].N = pick(th, 6000, 65536)
			}
		}
		return append(ps, rt.Phase{Name: "exact", N: pick(th, 6000, 100000), Run: exactAllocations})
	}
	d.Must = append(slices.Clone(d.Must), "calls on allocations of the exact size")
	d.Rule += " Also calls on fresh heap allocations of the exact size, for the address sanitizer."
	All["C26"] = d
}

// exactAllocations: every buffer is a heap object of just the documented size.
func exactAllocations(w *rt.W, i int) {
	nums := make([]uint32, i%131)
	gen.Patterns[w.R.N(len(gen.Patterns))].Fill(&w.R, nums)
	prev := w.R.Prev(nums)
	n := len(nums)
	w.Note(gen.Hash(uint64(prev), nums))
	exact := func(b []byte) []byte {
		e := make([]byte, len(b))
		copy(e, b)
		return e
	}
	for d := 0; d < 2; d++ {
		enc := nums
		if d == 1 {
			enc = ref.Deltas(nil, nums, prev)
		}
		want := ref.Encode(nil, enc)
		desc := describe(nums, prev, d)
		for k := range api.Writers[d] {
			wr := &api.Writers[d][k]
			in := append(make([]uint32, 0, n), nums...)
			var st []byte
			if w.Call(wr.Name, desc, func() { st = wr.Fn(in, prev) }) {
				if j := rt.DiffB(st, want); j >= 0 {
					w.Violate(wr.Name, "format", "byte %d differs from the reference; %s", j, desc())
				}
			}
		}
		for k := range api.Readers[d] {
			rd := &api.Readers[d][k]
			st, out := exact(want), make([]uint32, n)
			if w.Call(rd.Name, desc, func() { rd.Fn(n, st, out, prev) }) {
				if j := rt.Diff32(out, nums); j >= 0 {
					w.Violate(rd.Name, "values", "value %d: got %#x want %#x; %s", j, out[j], nums[j], desc())
				}
			}
		}
		w.Count("calls on allocations of the exact size", len(api.Writers[d])+len(api.Readers[d]))
		if n >= 8 {
			data := ref.Data(nil, enc[:8])
			for k := range api.Encs8[d] {
				e := &api.Encs8[d][k]
				in, out := append(make([]uint32, 0, 8), nums[:8]...), make([]byte, 32)
				if e.Scalar {
					out = make([]byte, len(data))
				}
				var c uint16
				if w.Call(e.Name, desc, func() { c = e.Fn(in, out, prev) }) && (c != ref.Ctrl8(enc[:8]) || string(out[:len(data)]) != string(data)) {
					w.Violate(e.Name, "data", "control %#04x data %x, want %#04x %x; %s", c, out, ref.Ctrl8(enc[:8]), data, desc())
				}
			}
			for k := range api.Decs8[d] {
				e := &api.Decs8[d][k]
				in, out := make([]byte, 32), make([]uint32, 8)
				if e.Scalar {
					in = make([]byte, len(data))
				}
				copy(in, data)
				if w.Call(e.Name, desc, func() { e.Fn(in, out, ref.Ctrl8(enc[:8]), prev) }) {
					if j := rt.Diff32(out, nums[:8]); j >= 0 {
						w.Violate(e.Name, "values", "value %d: got %#x want %#x; %s", j, out[j], nums[j], desc())
					}
				}
			}
		}
		if n >= 1 {
			m := min(n, 1+w.R.N(4))
			data := ref.Data(nil, enc[:m])
			var c [4]uint32
			copy(c[:], enc[:m])
			ctrl := ref.Ctrl(c[:m])
			in, out := append(make([]uint32, 0, m), nums[:m]...), make([]byte, len(data))
			var got uint8
			if w.Call(api.PutNName[d], desc, func() { got = api.PutN(d, in, out, m, prev) }) && (got != ctrl || string(out) != string(data)) {
				w.Violate(api.PutNName[d], "data", "control %#02x data %x, want %#02x %x; %s", got, out, ctrl, data, desc())
			}
			src, dst := exact(data), make([]uint32, m)
			if w.Call(api.GetNName[d], desc, func() { api.GetN(d, src, dst, ctrl, m, prev) }) {
				if j := rt.Diff32(dst, nums[:m]); j >= 0 {
					w.Violate(api.GetNName[d], "values", "value %d: got %#x want %#x; %s", j, dst[j], nums[j], desc())
				}
			}
		}
		var vb []byte
		for _, v := range enc {
			vb = ref.Uvarint(vb, v)
		}
		vout, vnum := make([]byte, len(vb)), make([]uint32, n)
		src := exact(vb)
		if d == 0 {
			w.Call("util.PutVarint", desc, func() { api.PutVarint(nums, vout) })
			w.Call("util.GetVarint", desc, func() { api.GetVarint(src, vnum) })
		} else {
			w.Call("util.PutDeltaVarint", desc, func() { api.PutDeltaVarint(nums, vout, prev) })
			w.Call("util.GetDeltaVarint", desc, func() { api.GetDeltaVarint(src, vnum, prev) })
		}
		if string(vout) != string(vb) {
			w.Violate("util.PutVarint", "format", "differs from the reference; %s", desc())
		}
		if j := rt.Diff32(vnum, nums); j >= 0 {
			w.Violate("util.GetVarint", "values", "value %d: got %#x want %#x; %s", j, vnum[j], nums[j], desc())
		}
	}
}
