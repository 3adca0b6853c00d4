package checks

import (
	"fmt"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

func init() {
	All["C16"] = Def{Phases: tableChecks,
		Rule: "All 256 control bytes: lengths, total, and both shuffles applied (by a software model of the 16-byte shuffle instruction) to values of those lengths, packed and unpacked; all 65536 control pairs through the size helper. Non-trivial: every one; distinct by control value and data.",
		Must: []string{"shared.ControlByteToSize", "shared.ControlByteToSizeTwo", "control bytes", "control pairs"},
	}
}

// shuffle16 models PSHUFB: index bytes with the top bit set give zero.
func shuffle16(v, idx [16]byte) (r [16]byte) {
	for i, x := range idx {
		if x < 128 {
			r[i] = v[x%16]
		}
	}
	return
}

func tableChecks(th bool) []rt.Phase {
	return []rt.Phase{
		{Name: "bytes", N: 256 * pick(th, 16, 4096), Run: func(w *rt.W, i int) {
			c := byte(i)
			w.Count("control bytes", 1)
			total := 0
			lens := [4]int{}
			for k := range lens {
				lens[k] = ref.FieldLen(c, k)
				total += lens[k]
			}
			per, tot, enc, dec := api.TableRow(c)
			for k := range lens {
				if int(per[k]) != lens[k] {
					w.Violate("shared.PerNumLenTable", "table", "control %#02x value %d: %d, want %d", c, k, per[k], lens[k])
				}
			}
			if int(tot) != total {
				w.Violate("shared.PerControlLenTable", "table", "control %#02x: %d, want %d", c, tot, total)
			}
			size := -1
			if w.Call("shared.ControlByteToSize", func() string { return fmt.Sprintf("control %#02x", c) }, func() { size = api.Size(c) }) && size != total {
				w.Violate("shared.ControlByteToSize", "size", "control %#02x: %d, want %d", c, size, total)
			}
			var nums [4]uint32
			var wide, packed [16]byte
			for k := range nums {
				nums[k] = w.R.OfLen(lens[k], i>>8)
				copy(wide[4*k:], ref.AppendLE(nil, nums[k], 4))
			}
			copy(packed[:], ref.Data(nil, nums[:]))
			w.Note(gen.Hash(uint64(c), nums[:]))
			if i%997 == 5 {
				w.Sample("control %#02x values %x", c, nums)
			}
			if got := shuffle16(wide, enc); string(got[:total]) != string(packed[:total]) {
				w.Violate("shared.EncodeShuffleTable", "table", "control %#02x packs %x to %x, want %x", c, nums, got[:total], packed[:total])
			}
			for k := total; k < 16; k++ {
				packed[k] = byte(w.R.U32()) // bytes of the next group
			}
			if got := shuffle16(packed, dec); got != wide {
				w.Violate("shared.DecodeShuffleTable", "table", "control %#02x unpacks %x to %x, want %x", c, packed, got, wide)
			}
		}},
		{Name: "pairs", N: 65536, Run: func(w *rt.W, i int) {
			w.Count("control pairs", 1)
			w.Note(uint64(i) | 1<<40)
			c := uint16(i)
			want := ref.CtrlSize(byte(c)) + ref.CtrlSize(byte(c>>8))
			got := -1
			if w.Call("shared.ControlByteToSizeTwo", func() string { return fmt.Sprintf("control %#04x", c) }, func() { got = api.SizeTwo(c) }) && got != want {
				w.Violate("shared.ControlByteToSizeTwo", "size", "control %#04x: %d, want %d", c, got, want)
			}
		}},
	}
}
