package api

import (
	"io"
	"reflect"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

func PutVarint(nums []uint32, out []byte) int             { return util.PutVarint(nums, out) }
func GetVarint(data []byte, out []uint32) int             { return util.GetVarint(data, out) }
func PutDeltaVarint(n []uint32, out []byte, p uint32) int { return util.PutDeltaVarint(n, out, p) }
func GetDeltaVarint(d []byte, out []uint32, p uint32) int { return util.GetDeltaVarint(d, out, p) }
func Delta(in, out []uint32)                              { util.Delta(in, out) }

// TablesDigest is a hash of the four shared tables.
func TablesDigest() uint64 {
	h := uint64(0xcbf29ce484222325)
	mix := func(b byte) { h = (h ^ uint64(b)) * 0x100000001b3 }
	for i := 0; i < 256; i++ {
		mix(shared.PerControlLenTable[i])
		for _, b := range shared.PerNumLenTable[i] {
			mix(b)
		}
		for _, b := range shared.EncodeShuffleTable[i] {
			mix(b)
		}
		for _, b := range shared.DecodeShuffleTable[i] {
			mix(b)
		}
	}
	return h
}

func Size(c uint8) int     { return shared.ControlByteToSize(c) }
func SizeTwo(c uint16) int { return shared.ControlByteToSizeTwo(c) }

// TableRow is row c of each table.
func TableRow(c byte) (perNum [4]uint8, total uint8, enc, dec [16]uint8) {
	return shared.PerNumLenTable[c], shared.PerControlLenTable[c], shared.EncodeShuffleTable[c], shared.DecodeShuffleTable[c]
}
func SortUint32(d []uint32)    { util.SortUint32(d) }
func GenUint32(n int) []uint32 { return util.GenUint32(n) }
func RandUint32() uint32       { return util.RandUint32() }

// MoveTables lets the library use the copies of its tables that place makes, as far as the tables are variables that hold pointers. The result
// compares the original tables with their content at this moment.
func MoveTables(place func(content []byte) unsafe.Pointer) (moved int, same func() bool) {
	var olds, copies [][]byte
	for _, p := range []any{&shared.PerNumLenTable, &shared.PerControlLenTable, &shared.EncodeShuffleTable, &shared.DecodeShuffleTable} {
		v := reflect.ValueOf(p).Elem()
		if v.Kind() != reflect.Pointer || v.IsNil() || v.Type().Elem().Kind() != reflect.Array {
			continue
		}
		n := int(v.Type().Elem().Size())
		old := unsafe.Slice((*byte)(v.UnsafePointer()), n)
		v.Set(reflect.NewAt(v.Type().Elem(), place(old)))
		olds, copies = append(olds, old), append(copies, append([]byte(nil), old...))
		moved++
	}
	return moved, func() bool {
		for i := range olds {
			if string(olds[i]) != string(copies[i]) {
				return false
			}
		}
		return true
	}
}

func SilentClose(c io.Closer) { util.SilentClose(c) }
