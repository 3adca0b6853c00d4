//go:build linux && verifstate

package main

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"svbverif/api"
	"svbverif/gen"
)

func init() {
	linked = true
	r := gen.New(11)
	call := func(name string, f func()) {
		calls = append(calls, func() {
			defer func() { recover() }() // short buffers may panic, silently
			count[name]++
			f()
		})
	}
	fill := func(n int) []uint32 {
		d := make([]uint32, n)
		gen.Patterns[r.N(len(gen.Patterns))].Fill(&r, d)
		return d
	}
	call("encode.GetMode", func() { encode.GetMode() })
	call("decode.GetMode", func() { decode.GetMode() })
	for d := 0; d < 2; d++ {
		for i := range api.Writers[d] {
			wr := api.Writers[d][i]
			call(wr.Name, func() {
				nums := fill(r.N(3000))
				st := wr.Fn(nums, 7)
				for k := range api.Readers[d] {
					rd := &api.Readers[d][k]
					count[rd.Name]++
					rd.Fn(len(nums), st, make([]uint32, len(nums)), 7)
				}
			})
		}
		call("large streams", func() {
			if count["large streams"]%50 != 1 {
				return
			}
			nums := fill(1 << 20)
			for i := range api.Writers[d] {
				st := api.Writers[d][i].Fn(nums, 7)
				for k := range api.Readers[d] {
					api.Readers[d][k].Fn(len(nums), st, make([]uint32, len(nums)), 7)
				}
			}
		})
		call("short streams", func() {
			nums := fill(1 + r.N(40))
			st := api.Writers[d][1].Fn(nums, 7)
			st = append([]byte(nil), st[:r.N(len(st))]...)
			api.Readers[d][1].Fn(len(nums), st[:len(st):len(st)], make([]uint32, len(nums)), 7)
		})
		for i := range api.Encs8[d] {
			e := api.Encs8[d][i]
			call(e.Name, func() { e.Fn(fill(8), make([]byte, 32), 9) })
		}
		for i := range api.Decs8[d] {
			e := api.Decs8[d][i]
			call(e.Name, func() { e.Fn(make([]byte, 32), make([]uint32, 8), uint16(r.U32()), 9) })
		}
		call("short "+api.Encs8[d][1].Name, func() { api.Encs8[d][1].Fn(fill(8), make([]byte, r.N(8)), 9) })
		call("short "+api.Decs8[d][1].Name, func() { api.Decs8[d][1].Fn(make([]byte, r.N(8)), make([]uint32, 8), uint16(r.U32()), 9) })
		call(api.Put4Name[d], func() { api.Put4(d, fill(4), make([]byte, 16), 9) })
		call(api.PutNName[d], func() { api.PutN(d, fill(4), make([]byte, 16), r.N(9), 9) })
		call(api.Get4Name[d], func() { api.Get4(d, make([]byte, 16), make([]uint32, 4), uint8(r.U32()), 9) })
		call(api.GetNName[d], func() { api.GetN(d, make([]byte, 16), make([]uint32, 4), uint8(r.U32()), r.N(9), 9) })
	}
	call("varint", func() {
		nums := fill(r.N(300))
		b := make([]byte, 5*len(nums))
		o := make([]uint32, len(nums))
		api.GetVarint(b[:api.PutVarint(nums, b)], o)
		api.GetDeltaVarint(b[:api.PutDeltaVarint(nums, b, 3)], o, 3)
	})
	call("util.Delta", func() { n := fill(r.N(300)); api.Delta(n, make([]uint32, len(n))) })
	call("util.SortUint32", func() { api.SortUint32(fill(r.N(300))) })
	call("shared sizes", func() { api.Size(uint8(r.U32())); api.SizeTwo(uint16(r.U32())) })
	call("util.SilentClose", func() { util.SilentClose(nop{}) })
	draws = []func(){func() { count["util.RandUint32"]++; api.RandUint32() }, func() { count["util.GenUint32"]++; api.GenUint32(100) }}
}

type nop struct{}

func (nop) Close() error { return nil }
