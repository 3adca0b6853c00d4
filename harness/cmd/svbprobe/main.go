//go:build amd64

// Command svbprobe calls the automatic entry points between breakpoints, for
// svbtrace, and checks their results.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"golang.org/x/sys/cpu"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

func mark(id int64)

func init() { runtime.LockOSThread() }

type report struct {
	Encode, Decode bool // fast
	Cpu            map[string]bool
	Calls          map[string]int
	Wrong          []string
}

var rep = report{Cpu: map[string]bool{}, Calls: map[string]int{}}

func wrong(format string, args ...any) {
	if len(rep.Wrong) < 20 {
		rep.Wrong = append(rep.Wrong, fmt.Sprintf(format, args...))
	}
}

// ids in the order of names in svbtrace
func call(id int64, name string, desc string, f func()) {
	rep.Calls[name]++
	defer func() {
		if p := recover(); p != nil {
			mark(-1)
			wrong("%s: panic: %v; %s", name, p, desc)
		}
	}()
	mark(id)
	f()
	mark(-1)
}

func main() {
	out := flag.String("o", "", "report")
	seed := flag.Uint64("seed", 1, "")
	rounds := flag.Int("rounds", 3, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	rep.Encode = encode.GetMode() == shared.Fast
	rep.Decode = decode.GetMode() == shared.Fast
	x := cpu.X86
	rep.Cpu = map[string]bool{"AVX": x.HasAVX, "AVX2": x.HasAVX2, "BMI": x.HasBMI1 && x.HasBMI2, "FMA": x.HasFMA, "AVX512": x.HasAVX512F, "POPCNT": x.HasPOPCNT, "SSE": x.HasSSE41 && x.HasSSSE3 && x.HasSSE42}
	r := gen.New(*seed, 14)
	lens := []int{0, 1, 4, 7, 8, 9, 16, 17, 31, 33, 40, 64, 65, 100, 131, 257, 900}
	for round := 0; round < *rounds; round++ {
		for _, n := range lens {
			nums := make([]uint32, n)
			gen.Patterns[r.N(len(gen.Patterns))].Fill(&r, nums)
			prev := r.Prev(nums)
			for d := 0; d < 2; d++ {
				enc := nums
				if d == 1 {
					enc = ref.Deltas(nil, nums, prev)
				}
				want := ref.Encode(nil, enc)
				desc := fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(nums))
				wr, rd := &api.Writers[d][0], &api.Readers[d][0]
				var st []byte
				call(int64(0+d), wr.Name, desc, func() { st = wr.Fn(nums, prev) })
				if rt.DiffB(st, want) >= 0 {
					wrong("%s: stream differs from the reference; %s", wr.Name, desc)
				}
				o := make([]uint32, n)
				call(int64(2+d), rd.Name, desc, func() { rd.Fn(n, want, o, prev) })
				if rt.Diff32(o, nums) >= 0 {
					wrong("%s: values differ; %s", rd.Name, desc)
				}
			}
		}
		for k := 0; k < 40; k++ {
			var nums [8]uint32
			gen.Patterns[r.N(len(gen.Patterns))].Fill(&r, nums[:])
			prev := r.Prev(nums[:])
			for d := 0; d < 2; d++ {
				enc := nums[:]
				if d == 1 {
					enc = ref.Deltas(nil, nums[:], prev)
				}
				desc := fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(nums[:]))
				e, dc := &api.Encs8[d][0], &api.Decs8[d][0]
				var data [32]byte
				var ctrl uint16
				call(int64(4+d), e.Name, desc, func() { ctrl = e.Fn(nums[:], data[:], prev) })
				want := ref.Data(nil, enc)
				if ctrl != ref.Ctrl8(enc) || string(want) != string(data[:len(want)]) {
					wrong("%s: control %#04x data %x, want %#04x %x; %s", e.Name, ctrl, data[:len(want)], ref.Ctrl8(enc), want, desc)
				}
				var in [32]byte
				copy(in[:], want)
				var back [8]uint32
				call(int64(6+d), dc.Name, desc, func() { dc.Fn(in[:], back[:], ref.Ctrl8(enc), prev) })
				if back != nums {
					wrong("%s: got %x; %s", dc.Name, back, desc)
				}
			}
		}
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}
