package checks

import (
	"fmt"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	All["C18"] = Def{
		Phases: func(th bool) []rt.Phase {
			ps := seqPhases(th, scale{Div: 2, MaxBig: 1 << 21}, func(w *rt.W, nums []uint32) {
				varint(w, 0, nums, 0)
				deltaVariants(&w.R, nums, func(v []uint32, p uint32) { varint(w, 1, v, p) })
			})
			// values around every varint length boundary
			ps = append(ps, rt.Phase{Name: "boundaries", N: pick(th, 40000, 1000000), Run: func(w *rt.W, i int) {
				nums := make([]uint32, 1+w.R.N(9))
				for k := range nums {
					nums[k] = uint32(1)<<(7*uint(w.R.N(5))) + uint32(w.R.N(5)) - 2
					if w.R.N(4) == 0 {
						nums[k] = w.R.U32() >> uint(w.R.N(32))
					}
				}
				w.Note(gen.Hash(1, nums))
				varint(w, 0, nums, 0)
				deltaVariants(&w.R, nums, func(v []uint32, p uint32) { varint(w, 1, v, p) })
			}})
			return append(ps, varintSweep(th))
		},
		Rule: seqRule + " Plus values around every power of 128 and a sweep of single values. Encoded by the helper and compared byte by byte with a reference LEB128 encoder, decoded from exactly that many bytes into dirty, larger output.",
		Must: []string{"util.PutVarint", "util.GetVarint", "util.PutDeltaVarint", "util.GetDeltaVarint"},
	}
}

var putV = [2]string{"util.PutVarint", "util.PutDeltaVarint"}
var getV = [2]string{"util.GetVarint", "util.GetDeltaVarint"}

func varint(w *rt.W, delta int, nums []uint32, prev uint32) {
	n := len(nums)
	orig := buf32(w, "orig", n)
	copy(orig, nums)
	enc := orig
	if delta == 1 {
		enc = ref.Deltas(buf32(w, "vd", n)[:0], orig, prev)
	}
	want := buf8(w, "vw", 5*n+8)[:0]
	for _, v := range enc {
		want = ref.Uvarint(want, v)
	}
	desc := describe(orig, prev, delta)
	room := len(want)
	if w.R.N(2) == 0 {
		room = 5 * n
	}
	buf := buf8(w, "vb", 5*n+16)
	for i := range buf {
		buf[i] = 0xc3
	}
	ret := 0
	if w.Call(putV[delta], desc, func() {
		if delta == 1 {
			ret = api.PutDeltaVarint(nums, buf[:room:room], prev)
		} else {
			ret = api.PutVarint(nums, buf[:room:room])
		}
	}) {
		if ret != len(want) {
			w.Violate(putV[delta], "length", "returned %d, the encoding has %d bytes; %s", ret, len(want), desc())
		}
		if k := rt.DiffB(buf[:len(want)], want); k >= 0 {
			w.Violate(putV[delta], "format", "byte %d: got %#x want %#x; %s", k, buf[k], want[k], desc())
		}
		for i := len(want); i < len(buf); i++ {
			if buf[i] != 0xc3 {
				w.Violate(putV[delta], "overrun", "changed byte %d behind the %d encoded; %s", i, len(want), desc())
				break
			}
		}
	}
	copy(nums, orig)
	copy(buf, want)
	sur := w.R.N(2) * w.R.N(20)
	ob := buf32(w, "vo", n+sur+8)
	for i := range ob {
		ob[i] = 0x5eadbeef
	}
	ret = 0
	ddesc := func() string {
		return fmt.Sprintf("len(out)=%d prev=%#x data %s", n+sur, prev, rt.Bytes(want))
	}
	if w.Call(getV[delta], ddesc, func() {
		if delta == 1 {
			ret = api.GetDeltaVarint(buf[:len(want):len(want)], ob[:n+sur], prev)
		} else {
			ret = api.GetVarint(buf[:len(want):len(want)], ob[:n+sur])
		}
	}) {
		if ret != len(want) {
			w.Violate(getV[delta], "consumed", "returned %d of %d bytes; %s", ret, len(want), ddesc())
		}
		if k := rt.Diff32(ob[:n], orig); k >= 0 {
			w.Violate(getV[delta], "values", "value %d: got %#x want %#x; %s", k, ob[k], orig[k], ddesc())
		}
		for i := n; i < len(ob); i++ {
			if ob[i] != 0x5eadbeef {
				w.Violate(getV[delta], "overrun", "stored a value at %d, %d are encoded; %s", i, n, ddesc())
				break
			}
		}
	}
}

// varintSweep runs many consecutive and scattered values through the helpers.
func varintSweep(th bool) rt.Phase {
	const per = 1 << 12
	return rt.Phase{Name: "sweep", N: pick(th, 1<<11, 1<<20), Cost: per, Run: func(w *rt.W, i int) {
		nums := buf32(w, "sweep", per)
		for k := range nums {
			nums[k] = uint32(i*per+k) * 0x9e3779b1
		}
		varint(w, i&1, nums, uint32(i))
		w.Count("sweep values", per)
	}}
}
