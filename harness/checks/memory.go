//go:build linux && amd64

package checks

import (
	"fmt"
	"unsafe"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/guard"
	"svbverif/ref"
	"svbverif/rt"
)

// maxGuarded is the longest sequence that fits the guarded regions.
const maxGuarded = 1<<22 + 64

func init() {
	All["C07"] = Def{
		Phases: func(th bool) []rt.Phase {
			return seqPhases(th, scale{MaxBig: maxGuarded}, func(w *rt.W, nums []uint32) {
				readerMemory(w, 0, nums, 0)
				readerMemory(w, 1, nums, w.R.Prev(nums))
			})
		},
		Rule: seqRule + " The reference encoder puts each (minimal or widened) into a buffer of exactly the encoded length in read-only memory that ends or begins at an inaccessible page; the output likewise, with canaries on the open side; surplus length of the output and capacity of both may reach into inaccessible memory.",
		Must: append(rnames(api.Readers[0]), append(rnames(api.Readers[1]), "stream ends at guard page", "stream begins at guard page", "out ends at guard page", "out begins at guard page", "out reaches into guard page", "stream has inaccessible capacity", "out has inaccessible capacity")...),
	}
	All["C09"] = Def{
		Phases: readOnlyInputs,
		Rule:   seqRule + " Inputs lie in memory that is mapped read-only for the code under test, at varying offsets and with spare capacity; blocks of every control value likewise. The library is given read-only copies of its shared tables; they and the originals are also compared along the way.",
		Must: []string{"table digests", "writer.WriteAll", "writer.WriteAllScalar", "writer.WriteAllDelta", "writer.WriteAllDeltaScalar", "reader.ReadAll", "reader.ReadAllScalar", "reader.ReadAllDelta", "reader.ReadAllDeltaScalar",
			"encode.Put8uint32", "encode.Put8uint32Delta", "decode.Get8uint32", "decode.Get8uint32Delta", "encode.Put4uint32DeltaScalar", "decode.Get4uint32DeltaScalar", "util.PutVarint", "util.GetVarint", "util.PutDeltaVarint", "util.GetDeltaVarint", "util.Delta"},
	}
}

type regions struct{ ro, rw *guard.Region }

func streamRegions(w *rt.W) *regions {
	return rt.State(w, "regions", func() *regions {
		return &regions{guard.New("stream", 5*maxGuarded+8192, true), guard.New("out", 4*maxGuarded+8192, false)}
	})
}

func readerMemory(w *rt.W, delta int, nums []uint32, prev uint32) {
	n := len(nums)
	rs := streamRegions(w)
	enc := ref.EncodeSizes(buf8(w, "enc", 5*n+1)[:0], nums, widths(w, nums, w.R.N(2) == 0), byte(w.R.U32()))
	places := 2
	if n > 2000 {
		places = 1
	}
	for pl := 0; pl < places; pl++ {
		se, oe := true, w.R.N(2) == 0
		if pl == 1 {
			se, oe = w.R.N(3) > 0, !oe
		}
		sb := rs.ro.Place(len(enc), se, 0)
		copy(sb.W, enc)
		stream, spare := sb.V, 0
		if se && w.R.N(2) == 0 {
			// capacity that must not be touched, and cannot be
			spare = 1 + w.R.N(200)
			stream = guard.Spare(stream, spare)
			w.Count("stream has inaccessible capacity", 1)
		}
		for ri := range api.Readers[delta] {
			rd := &api.Readers[delta][ri]
			ob := rs.rw.Place(4*n, oe, 0)
			for i := range ob.W {
				ob.W[i] = 0xa5
			}
			out := guard.U32(ob.V)
			over := 0
			if oe && w.R.N(3) == 0 {
				// surplus that must not be touched, and cannot be
				over = 1 + w.R.N(64)
				out = guard.Stretch(out, n+over)
				w.Count("out reaches into guard page", 1)
			} else if oe && w.R.N(2) == 0 {
				out = guard.Spare(out, 1+w.R.N(64))
				w.Count("out has inaccessible capacity", 1)
			}
			desc := func() string {
				d := fmt.Sprintf("count=%d stream of %d bytes at %s, spare capacity %d, out at %s, surplus=%d", n, len(enc), side(se), spare, side(oe), over)
				if delta == 1 {
					d += fmt.Sprintf(", prev=%#x", prev)
				}
				return d + ", stream " + rt.Bytes(enc)
			}
			count(w, "stream", se)
			count(w, "out", oe)
			guarded(w, rd.Name, desc, func() { rd.Fn(n, stream, out, prev) }, rs.ro, rs.rw)
			if rel, ok := ob.Intact(); !ok {
				w.Violate(rd.Name, "overrun", "changed byte %d relative to out of %d bytes; %s", rel, 4*n, desc())
			}
		}
	}
}

func side(end bool) string {
	if end {
		return "end of mapping"
	}
	return "start of mapping"
}
func count(w *rt.W, what string, end bool) {
	if end {
		w.Count(what+" ends at guard page", 1)
	} else {
		w.Count(what+" begins at guard page", 1)
	}
}

// guarded is W.Call, with faults located relative to the regions.
func guarded(w *rt.W, fn string, desc func() string, f func(), rs ...*guard.Region) bool {
	p := w.Try(fn, f)
	if p == nil {
		return true
	}
	kind, where := "panic", ""
	if rt.IsFault(p) {
		kind = "memory-fault"
		if a, ok := p.(interface{ Addr() uintptr }); ok {
			where = " (" + guard.Where(a.Addr(), rs...) + ")"
		}
	}
	w.Violate(fn, kind, "%v%s; %s", p, where, desc())
	return false
}

// readOnly calls the functions with inputs that cannot be written.
func readOnlyInputs(th bool) []rt.Phase {
	protectTables()
	ps := seqPhases(th, scale{Div: 4, MaxBig: maxGuarded}, func(w *rt.W, nums []uint32) {
		n := len(nums)
		rs := streamRegions(w)
		// far from the guard pages: over-reading is the matter of C07 and C08
		shift := 4096 + 4*w.R.N(16)
		ib := rs.ro.Place(4*n, w.R.N(2) == 0, shift)
		copy(guard.U32(ib.W), nums)
		h := gen.HashBytes(3, ib.W)
		spare := w.R.N(2) * 128
		in := guard.U32(ib.Grow(spare))
		prev := w.R.Prev(nums)
		out := buf8(w, "ro-out", 5*n+64)
		out32 := buf32(w, "ro-out32", n+8)
		check := func(fn string) {
			if g := gen.HashBytes(3, ib.W); g != h {
				w.Violate(fn, "input-changed", "input content changed; values %s", rt.Nums(nums))
				copy(guard.U32(ib.W), nums)
			}
		}
		do := func(fn string, f func()) {
			noWrite(w, fn, func() string { return fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(nums)) }, f, rs.ro)
			check(fn)
		}
		for d := 0; d < 2; d++ {
			for i := range api.Writers[d] {
				wr := &api.Writers[d][i]
				do(wr.Name, func() { wr.Fn(in, prev) })
			}
		}
		do("util.PutVarint", func() { api.PutVarint(in, out) })
		do("util.PutDeltaVarint", func() { api.PutDeltaVarint(in, out, prev) })
		do("util.Delta", func() { api.Delta(in, out32) })

		enc := ref.EncodeSizes(buf8(w, "enc", 5*n+1)[:0], nums, widths(w, nums, false), byte(w.R.U32()))
		place := func(b []byte) []byte {
			ib = rs.ro.Place(len(b), w.R.N(2) == 0, 4096+w.R.N(64))
			copy(ib.W, b)
			h = gen.HashBytes(3, ib.W)
			return ib.Grow(spare)
		}
		st := place(enc)
		for d := 0; d < 2; d++ {
			for i := range api.Readers[d] {
				rd := &api.Readers[d][i]
				noWrite(w, rd.Name, func() string { return fmt.Sprintf("count=%d stream %s", n, rt.Bytes(enc)) }, func() { rd.Fn(n, st, out32, prev) }, rs.ro)
				if gen.HashBytes(3, ib.W) != h {
					w.Violate(rd.Name, "input-changed", "stream content changed; count=%d stream %s", n, rt.Bytes(enc))
					copy(ib.W, enc)
				}
			}
		}
		vi := enc[:0]
		for _, v := range nums {
			vi = ref.Uvarint(vi, v)
		}
		vb := place(vi)
		for d, fn := range []string{"util.GetVarint", "util.GetDeltaVarint"} {
			noWrite(w, fn, func() string { return "data " + rt.Bytes(vi) }, func() {
				if d == 0 {
					api.GetVarint(vb, out32)
				} else {
					api.GetDeltaVarint(vb, out32, prev)
				}
			}, rs.ro)
			if gen.HashBytes(3, ib.W) != h {
				w.Violate(fn, "input-changed", "input content changed; data %s", rt.Bytes(vi))
				copy(ib.W, vi)
			}
		}
		if w.Index%64 == 0 {
			tables(w)
		}
	})
	ps = append(ps, rt.Phase{Name: "blocks", N: 65536 * pick(th, 2, 40), Run: func(w *rt.W, i int) {
		rs := streamRegions(w)
		nums := sizesCase(&w.R, 8, func(k int) int { return i>>(2*uint(k))&3 + 1 })
		w.Note(gen.Hash(8, nums))
		prev := w.R.U32()
		ib := rs.ro.Place(32, true, 4096+4*w.R.N(8))
		copy(guard.U32(ib.W), nums)
		in := guard.U32(ib.Grow(128))
		out := buf8(w, "blk", 64)
		out32 := buf32(w, "blk32", 16)
		var wantIn = gen.HashBytes(1, ib.W)
		chk := func(fn string) {
			if gen.HashBytes(1, ib.W) != wantIn {
				w.Violate(fn, "input-changed", "input block changed; values %s", rt.Nums(nums))
				copy(guard.U32(ib.W), nums)
			}
		}
		desc := func() string { return fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(nums)) }
		for d := 0; d < 2; d++ {
			for k := range api.Encs8[d] {
				e := &api.Encs8[d][k]
				noWrite(w, e.Name, desc, func() { e.Fn(in, out, prev) }, rs.ro)
				chk(e.Name)
			}
			noWrite(w, api.Put4Name[d], desc, func() { api.Put4(d, in, out, prev) }, rs.ro)
			chk(api.Put4Name[d])
			noWrite(w, api.PutNName[d], desc, func() { api.PutN(d, in, out, i%6, prev) }, rs.ro)
			chk(api.PutNName[d])
		}
		ctrl := uint16(i)
		db := rs.ro.Place(40, true, 4096+w.R.N(16))
		for k := range db.W {
			db.W[k] = byte(w.R.U32())
		}
		ib, wantIn = db, gen.HashBytes(1, db.W)
		din := db.Grow(128)
		ddesc := func() string { return fmt.Sprintf("ctrl=%#x prev=%#x data %s", ctrl, prev, rt.Bytes(db.W)) }
		dchk := func(fn string) {
			if gen.HashBytes(1, db.W) != wantIn {
				w.Violate(fn, "input-changed", "input block changed; %s", ddesc())
				wantIn = gen.HashBytes(1, db.W)
			}
		}
		for d := 0; d < 2; d++ {
			for k := range api.Decs8[d] {
				e := &api.Decs8[d][k]
				noWrite(w, e.Name, ddesc, func() { e.Fn(din, out32, ctrl, prev) }, rs.ro)
				dchk(e.Name)
			}
			noWrite(w, api.Get4Name[d], ddesc, func() { api.Get4(d, din, out32, uint8(ctrl), prev) }, rs.ro)
			dchk(api.Get4Name[d])
			noWrite(w, api.GetNName[d], ddesc, func() { api.GetN(d, din, out32, uint8(ctrl), i%6, prev) }, rs.ro)
			dchk(api.GetNName[d])
		}
		if i%256 == 0 {
			tables(w)
		}
	}})
	return ps
}

// noWrite reports only faults inside the read-only region, that is, writes.
func noWrite(w *rt.W, fn string, desc func() string, f func(), ro *guard.Region) {
	p := w.Try(fn, f)
	if p == nil {
		w.Count("calls on read-only input", 1)
		return
	}
	if a, ok := p.(interface{ Addr() uintptr }); ok && ro.Contains(a.Addr()) {
		w.Violate(fn, "input-written", "wrote to its read-only input (%s); %s", guard.Where(a.Addr(), ro), desc())
		return
	}
	if a, ok := p.(interface{ Addr() uintptr }); ok && tableMem.Contains(a.Addr()) {
		w.Violate(fn, "table-written", "wrote to a shared table (%s); %s", guard.Where(a.Addr(), tableMem), desc())
		return
	}
	// not a write to the input: the matter of other properties
	w.Count("calls that failed otherwise", 1)
}

// protectTables gives the library read-only copies of its tables, each in pages
// of its own and away from inaccessible ones.
func protectTables() {
	if tableMem != nil {
		return
	}
	tableMem = guard.New("tables", 1<<17, true)
	at := 4096
	tablesMoved, tablesSame = api.MoveTables(func(b []byte) unsafe.Pointer {
		p := tableMem.Put(at, b)
		at += (len(b)+4095)&^4095 + 4096
		return p
	})
}

// tables compares the shared tables with their content at start.
func tables(w *rt.W) {
	w.Count("table digests", 1)
	w.Count("tables in read-only memory", tablesMoved)
	if h := api.TablesDigest(); h != tablesAtStart || !tablesSame() {
		w.Violate("shared tables", "table-changed", "the lookup tables differ from their content at start (digest %x, was %x)", h, tablesAtStart)
	}
}

var (
	tablesAtStart = api.TablesDigest()
	tableMem      *guard.Region
	tablesMoved   int
	tablesSame    func() bool
)
