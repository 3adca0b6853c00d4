// Package api lists the functions under test by name.
package api

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

type Writer struct {
	Name string
	Fn   func(in []uint32, prev uint32) []byte
}
type Reader struct {
	Name string
	Fn   func(count int, stream []byte, out []uint32, prev uint32)
}
type Enc8 struct {
	Name   string
	Scalar bool
	Fn     func(in []uint32, out []byte, prev uint32) uint16
}
type Dec8 struct {
	Name   string
	Scalar bool
	Fn     func(in []byte, out []uint32, ctrl uint16, prev uint32)
}

func plainW(f func([]uint32) []byte) func([]uint32, uint32) []byte {
	return func(in []uint32, _ uint32) []byte { return f(in) }
}
func plainR(f func(int, []byte, []uint32)) func(int, []byte, []uint32, uint32) {
	return func(c int, s []byte, o []uint32, _ uint32) { f(c, s, o) }
}
func plainE(f func([]uint32, []byte) uint16) func([]uint32, []byte, uint32) uint16 {
	return func(in []uint32, o []byte, _ uint32) uint16 { return f(in, o) }
}
func plainD(f func([]byte, []uint32, uint16)) func([]byte, []uint32, uint16, uint32) {
	return func(in []byte, o []uint32, c uint16, _ uint32) { f(in, o, c) }
}

// Index 0: plain, 1: delta.
var Writers = [2][]Writer{
	{{"writer.WriteAll", plainW(writer.WriteAll)}, {"writer.WriteAllScalar", plainW(writer.WriteAllScalar)}},
	{{"writer.WriteAllDelta", writer.WriteAllDelta}, {"writer.WriteAllDeltaScalar", writer.WriteAllDeltaScalar}},
}
var Readers = [2][]Reader{
	{{"reader.ReadAll", plainR(reader.ReadAll)}, {"reader.ReadAllScalar", plainR(reader.ReadAllScalar)}},
	{{"reader.ReadAllDelta", reader.ReadAllDelta}, {"reader.ReadAllDeltaScalar", reader.ReadAllDeltaScalar}},
}
var Encs8 = [2][]Enc8{
	{{"encode.Put8uint32", false, plainE(encode.Put8uint32)}, {"encode.Put8uint32Scalar", true, plainE(encode.Put8uint32Scalar)}},
	{{"encode.Put8uint32Delta", false, encode.Put8uint32Delta}, {"encode.Put8uint32DeltaScalar", true, encode.Put8uint32DeltaScalar}},
}
var Decs8 = [2][]Dec8{
	{{"decode.Get8uint32", false, plainD(decode.Get8uint32)}, {"decode.Get8uint32Scalar", true, plainD(decode.Get8uint32Scalar)}},
	{{"decode.Get8uint32Delta", false, decode.Get8uint32Delta}, {"decode.Get8uint32DeltaScalar", true, decode.Get8uint32DeltaScalar}},
}

// Put4, PutN and so on ignore prev in the plain (index 0) variant.
func Put4(delta int, in []uint32, out []byte, prev uint32) uint8 {
	if delta == 1 {
		return encode.Put4uint32DeltaScalar(in, out, prev)
	}
	return encode.Put4uint32Scalar(in, out)
}
func PutN(delta int, in []uint32, out []byte, count int, prev uint32) uint8 {
	if delta == 1 {
		return encode.PutUint32DeltaScalar(in, out, count, prev)
	}
	return encode.PutUint32Scalar(in, out, count)
}
func Get4(delta int, in []byte, out []uint32, ctrl uint8, prev uint32) {
	if delta == 1 {
		decode.Get4uint32DeltaScalar(in, out, ctrl, prev)
		return
	}
	decode.Get4uint32Scalar(in, out, ctrl)
}
func GetN(delta int, in []byte, out []uint32, ctrl uint8, count int, prev uint32) int {
	if delta == 1 {
		return decode.GetUint32DeltaScalar(in, out, ctrl, count, prev)
	}
	return decode.GetUint32Scalar(in, out, ctrl, count)
}

var (
	Put4Name = [2]string{"encode.Put4uint32Scalar", "encode.Put4uint32DeltaScalar"}
	PutNName = [2]string{"encode.PutUint32Scalar", "encode.PutUint32DeltaScalar"}
	Get4Name = [2]string{"decode.Get4uint32Scalar", "decode.Get4uint32DeltaScalar"}
	GetNName = [2]string{"decode.GetUint32Scalar", "decode.GetUint32DeltaScalar"}
)
