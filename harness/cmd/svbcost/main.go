//go:build amd64

// Command svbcost calls the automatic, accelerated and scalar functions on the
// same arguments between breakpoints, for svbtrace, which counts instructions.
package main

import (
	"encoding/json"
	"flag"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"

	"svbverif/api"
	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
	"svbverif/stall"
)

func mark(id int64)

func init() { runtime.LockOSThread() }

// One traced call; its index plus 8 is its number for svbtrace.
type traced struct {
	Kind    string // what functions with the same arguments have in common
	Fn      string
	Variant int // 0 automatic, 1 scalar, 2 accelerated
	Pattern string
	N       int
	Wrong   string
}

type report struct {
	Encode, Decode bool
	Calls          []traced
	Held           int // calls that were in progress during others
}

var rep report
var repeat time.Duration

func call(kind, name string, variant int, pattern string, n int, warm int, f func(), wrong func() string) {
	for i := 0; i < warm; i++ {
		f()
	}
	id := len(rep.Calls)
	rep.Calls = append(rep.Calls, traced{Kind: kind, Fn: name, Variant: variant, Pattern: pattern, N: n})
	times := 1
	if repeat == 0 {
		// the Go runtime may do other work in one of them
		times = 2
	}
	start := time.Now()
	for i := 0; i < times || time.Since(start) < repeat; i++ {
		mark(int64(id + 8))
		f()
		mark(-1)
	}
	rep.Calls[id].Wrong = wrong()
}

// patterns fill d, given the base of differential coding.
func patterns(r *gen.Rng) map[string]func(d []uint32, prev uint32) {
	m := map[string]func(d []uint32, prev uint32){}
	for _, p := range gen.Patterns {
		switch p.Name {
		case "zeros", "max", "len1", "len2", "len3", "len4", "class", "uniform":
			fill := p.Fill
			m[p.Name] = func(d []uint32, _ uint32) { fill(r, d) }
			// so that all differences are of this kind, the first too
			m["sums of "+p.Name] = func(d []uint32, prev uint32) {
				fill(r, d)
				ref.Sums(d[:0], d, prev)
			}
		}
	}
	for i, limit := range []int{1 << 7, 1 << 13, 1 << 19} {
		m[[]string{"steps1", "steps2", "steps3"}[i]] = func(d []uint32, v uint32) {
			for j := range d {
				v += uint32(r.N(limit))
				d[j] = v
			}
		}
	}
	return m
}

var areas []*stall.Area

// hold has calls halt half-way, until the result is called.
func hold(calls ...func(a *stall.Area) func()) func() {
	var wg sync.WaitGroup
	for k, c := range calls {
		a := areas[k]
		f := c(a)
		wg.Add(1)
		go func() { f(); wg.Done() }()
		for t := time.Now(); ; time.Sleep(20 * time.Microsecond) {
			if a.Hit() {
				rep.Held++
				break
			}
			if time.Since(t) > time.Second {
				break
			}
		}
	}
	// if the calls to come wait for these
	late := time.AfterFunc(5*time.Second, release)
	return func() {
		late.Stop()
		release()
		wg.Wait()
	}
}

var mu sync.Mutex

func release() {
	mu.Lock()
	defer mu.Unlock()
	for _, a := range areas {
		a.Release()
	}
}

func main() {
	out := flag.String("o", "", "report")
	seed := flag.Uint64("seed", 1, "")
	part := flag.Int("part", 0, "which patterns")
	parts := flag.Int("parts", 1, "")
	long := flag.Int("long", 0, "one call of this length of each function instead")
	delta := flag.Int("delta", -1, "")
	held := flag.Bool("held", false, "while other calls of the same functions are in progress")
	flag.DurationVar(&repeat, "repeat", 0, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	during := func(calls func(v int) func(a *stall.Area) func()) func() { return func() {} }
	if *held {
		for k := 0; k < 2; k++ {
			a, err := stall.New(1 << 13)
			if err != nil {
				break
			}
			areas = append(areas, a)
		}
		if len(areas) == 2 {
			runtime.GOMAXPROCS(4)
			during = func(calls func(v int) func(a *stall.Area) func()) func() { return hold(calls(0), calls(2)) }
		}
	}
	rep.Encode = encode.GetMode() == shared.Fast
	rep.Decode = decode.GetMode() == shared.Fast
	r := gen.New(*seed, 27+uint64(*part))
	pats := patterns(&r)
	var names []string
	for n := range pats {
		names = append(names, n)
	}
	sort.Strings(names)
	lens := []int{160 + r.N(8), 672 + r.N(8)}
	warm := 2
	if *long > 0 {
		lens, names, warm = []int{*long}, []string{"class", "steps2"}, 0
	}
	for i, p := range names {
		if *long == 0 && i%*parts != *part {
			continue
		}
		for _, n := range lens {
			nums := make([]uint32, n+4)[r.N(4):][:n:n]
			prev := r.U32()
			if r.N(4) == 0 {
				prev = 0
			}
			pats[p](nums, prev)
			for d := 0; d < 2; d++ {
				if *delta >= 0 && d != *delta || *long > 0 && (p == "class") != (d == 0) {
					continue
				}
				k := []string{"plain", "delta"}[d]
				enc := nums
				if d == 1 {
					enc = ref.Deltas(nil, nums, prev)
				}
				want := ref.Encode(nil, enc)
				at := r.N(16)
				want = append(make([]byte, at, at+len(want)), want...)[at:]
				free := during(func(v int) func(a *stall.Area) func() {
					return func(a *stall.Area) func() {
						in := a.Lay32(nums, 4*r.N(n))
						return func() { api.Writers[d][v].Fn(in, prev) }
					}
				})
				for v, w := range api.Writers[d] {
					if *long > 0 && v == 1 {
						continue
					}
					var st []byte
					call("writing "+k, w.Name, v, p, n, warm, func() { st = w.Fn(nums, prev) }, func() string {
						if rt.DiffB(st, want) >= 0 {
							return "stream differs from the reference"
						}
						return ""
					})
				}
				free()
				free = during(func(v int) func(a *stall.Area) func() {
					return func(a *stall.Area) func() {
						in := a.Lay(want, r.N(len(want)))
						out := make([]uint32, n)
						return func() { api.Readers[d][v].Fn(n, in, out, prev) }
					}
				})
				o := make([]uint32, n+4)[r.N(4):][:n:n]
				for v, rd := range api.Readers[d] {
					if *long > 0 && v == 1 {
						continue
					}
					clear(o)
					call("reading "+k, rd.Name, v, p, n, warm, func() { rd.Fn(n, want, o, prev) }, func() string {
						if rt.Diff32(o, nums) >= 0 {
							return "values differ"
						}
						return ""
					})
				}
				free()
				if *long > 0 || n == lens[0] {
					continue
				}
				var data [32]byte
				copy(data[:], ref.Data(nil, enc[:8]))
				ctrl := ref.Ctrl8(enc[:8])
				var back [8]uint32
				free = during(func(v int) func(a *stall.Area) func() {
					return func(a *stall.Area) func() {
						in := a.Lay32(nums[:8], 4*r.N(8))
						return func() { api.Encs8[d][v].Fn(in, make([]byte, 32), prev) }
					}
				})
				for v, e := range api.Encs8[d] {
					var to [32]byte
					var got uint16
					call("encoding 8 "+k, e.Name, v, p, 8, warm, func() { got = e.Fn(nums[:8], to[:], prev) }, func() string {
						if got != ctrl {
							return "control differs"
						}
						return ""
					})
				}
				free()
				free = during(func(v int) func(a *stall.Area) func() {
					return func(a *stall.Area) func() {
						in := a.Lay(data[:], r.N(8))
						return func() { api.Decs8[d][v].Fn(in, make([]uint32, 8), ctrl, prev) }
					}
				})
				for v, dc := range api.Decs8[d] {
					call("decoding 8 "+k, dc.Name, v, p, 8, warm, func() { dc.Fn(data[:], back[:], ctrl, prev) }, func() string {
						if rt.Diff32(back[:], nums[:8]) >= 0 {
							return "values differ"
						}
						return ""
					})
				}
				free()
			}
		}
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}
