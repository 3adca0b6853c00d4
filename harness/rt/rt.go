// Package rt runs the phases of a check on several workers, records what was
// observed and collects violations. A case is identified by (seed, phase, index)
// alone, which is what a replay file holds.
package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"svbverif/gen"
)

type Phase struct {
	Name   string
	N      int
	Serial bool // run on a single worker
	Cost   int  // rough number of integers per case, scales the hang limit
	Procs  int  // GOMAXPROCS for the phase, if not 0
	Run    func(w *W, i int)
}

type Violation struct {
	Phase  string `json:"phase"`
	Index  int    `json:"index"`
	Fn     string `json:"function"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

type Result struct {
	Property    string           `json:"property"`
	Seed        uint64           `json:"seed"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Calls       map[string]int64 `json:"calls"`
	Counters    map[string]int64 `json:"counters"`
	Phases      map[string]int64 `json:"phases"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Arch        string           `json:"arch"`
	Rule        string           `json:"rule"`
	Must        []string         `json:"must"`
	Done        bool             `json:"done"`
}

type W struct {
	ID      int
	run     *Run
	Seed    uint64
	Phase   *Phase
	Index   int
	R       gen.Rng
	calls   map[string]*int64
	counts  map[string]*int64
	seen    map[uint64]struct{}
	evals   int64
	notes   int64
	state   map[string]any
	seq     atomic.Uint64 // case sequence number, 0 when idle
	cur     atomic.Value  // string: function being called
	curIdx  atomic.Int64
	curPh   atomic.Value
	cost    atomic.Int64
	tid     atomic.Int64
	phases  map[string]*int64
	samples []string
}

type Run struct {
	Property string
	Seed     uint64
	Workers  int
	MaxViol  int
	Rule     string
	Must     []string
	mu       sync.Mutex
	viols    []Violation
	per      map[string]int
	stop     atomic.Bool
	only     string
	onlyIdx  int
	shard    int
	shards   int
	out      string
	ws       []*W
}

func NewRun(prop string, seed uint64, workers int, out string) *Run {
	return &Run{Property: prop, Seed: seed, Workers: workers, MaxViol: 40, out: out,
		per: map[string]int{}, onlyIdx: -1}
}

// Shard restricts the run to one of n parts of every phase.
func (r *Run) Shard(k, n int) { r.shard, r.shards = k, n }

// Only restricts the run to a single case, for replay.
func (r *Run) Only(phase string, idx int) { r.only, r.onlyIdx = phase, idx }

func (r *Run) worker(id int) *W {
	w := &W{ID: id, run: r, calls: map[string]*int64{}, counts: map[string]*int64{}, phases: map[string]*int64{}, seen: map[uint64]struct{}{}, state: map[string]any{}}
	w.cur.Store("")
	w.curPh.Store("")
	return w
}

// Exec runs all phases and returns the merged result.
func (r *Run) Exec(phases []Phase) *Result {
	n := r.Workers
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		r.ws = append(r.ws, r.worker(i))
	}
	stopWatch := r.watch()
	for pi := range phases {
		p := &phases[pi]
		if r.only != "" && r.only != p.Name {
			continue
		}
		if r.stop.Load() {
			break
		}
		if r.onlyIdx >= 0 {
			p2 := *p
			base, idx := p.Run, r.onlyIdx
			p2.N, p2.Serial, p2.Run = 1, true, func(w *W, _ int) { base(w, idx) }
			p = &p2
		}
		var next atomic.Int64
		chunk := int64(p.N / (n * 16))
		if chunk < 1 {
			chunk = 1
		}
		if chunk > 256 {
			chunk = 256
		}
		k := n
		if p.Serial {
			k = 1
		}
		procs := runtime.GOMAXPROCS(0)
		if p.Procs > 0 {
			runtime.GOMAXPROCS(p.Procs)
		}
		var wg sync.WaitGroup
		for wi := 0; wi < k; wi++ {
			wg.Add(1)
			go func(w *W) {
				defer wg.Done()
				if lockThreads {
					runtime.LockOSThread()
					defer runtime.UnlockOSThread()
					w.tid.Store(int64(gettid()))
				}
				debug.SetPanicOnFault(true)
				w.Phase = p
				w.curPh.Store(p.Name)
				w.cost.Store(int64(p.Cost))
				for !r.stop.Load() {
					lo := next.Add(chunk) - chunk
					if lo >= int64(p.N) {
						return
					}
					hi := lo + chunk
					if hi > int64(p.N) {
						hi = int64(p.N)
					}
					for i := lo; i < hi && !r.stop.Load(); i++ {
						if r.onlyIdx >= 0 {
							i = int64(r.onlyIdx)
						} else if r.shards > 1 && int(i)%r.shards != r.shard {
							continue
						}
						w.exec(int(i))
					}
				}
			}(r.ws[wi])
		}
		wg.Wait()
		if p.Procs > 0 {
			runtime.GOMAXPROCS(procs)
		}
		for _, w := range r.ws {
			w.seq.Store(0)
		}
	}
	stopWatch()
	res := r.result()
	res.Done = true
	return res
}

func (w *W) exec(i int) {
	w.Index = i
	w.curIdx.Store(int64(i))
	w.seq.Add(1)
	w.R = gen.New(w.run.Seed, gen.HashBytes(7, []byte(w.Phase.Name)), uint64(i))
	w.notes = 0
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			if strings.Contains(string(buf), "theMPatel/streamvbyte-simdgo/") {
				// the library panicked in a call not wrapped by Call
				w.Violate("library", "panic", "%v%s; %s", p, FaultAddr(p), buf)
				return
			}
			fmt.Fprintf(os.Stderr, "HARNESS PANIC phase=%s index=%d: %v\n%s\n", w.Phase.Name, i, p, buf)
			os.Exit(3)
		}
	}()
	w.Phase.Run(w, i)
	w.evals += max(1, w.notes)
}

func (r *Run) result() *Result {
	res := &Result{Property: r.Property, Seed: r.Seed, Calls: map[string]int64{}, Counters: map[string]int64{}, Phases: map[string]int64{}, Arch: runtime.GOARCH, Rule: r.Rule, Must: r.Must, Violations: []Violation{}, Samples: []string{}}
	seen := map[uint64]struct{}{}
	for _, w := range r.ws {
		res.Evaluations += w.evals
		for k, v := range w.calls {
			res.Calls[k] += *v
		}
		for k, v := range w.counts {
			res.Counters[k] += *v
		}
		for k, v := range w.phases {
			res.Phases[k] += *v
		}
		for h := range w.seen {
			seen[h] = struct{}{}
		}
		res.Samples = append(res.Samples, w.samples...)
	}
	r.mu.Lock()
	res.Violations = append(res.Violations, r.viols...)
	r.mu.Unlock()
	res.Distinct = int64(len(seen))
	sort.Strings(res.Samples)
	if len(res.Samples) > 12 {
		res.Samples = res.Samples[:12]
	}
	sort.SliceStable(res.Violations, func(i, j int) bool { return res.Violations[i].Index < res.Violations[j].Index })
	return res
}

func (res *Result) Write(path string) {
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	if path == "" || path == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

// Violate records a violation of the property by fn.
func (w *W) Violate(fn, kind, format string, args ...any) {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	key := fn + "|" + kind
	r.per[key]++
	if r.per[key] <= 3 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		r.viols = append(r.viols, Violation{w.Phase.Name, w.Index, fn, kind, d})
	}
	total := 0
	for _, n := range r.per {
		total += n
	}
	if total >= r.MaxViol {
		r.stop.Store(true)
	}
}

// Note counts a case for the evidence, under a hash of its content.
func (w *W) Note(h uint64) {
	if len(w.seen) < 1<<21 {
		w.seen[h] = struct{}{}
	}
	w.notes++
	bump(w.phases, w.Phase.Name, 1)
}

func bump(m map[string]*int64, k string, n int64) {
	p := m[k]
	if p == nil {
		p = new(int64)
		m[k] = p
	}
	*p += n
}
func (w *W) Count(k string, n int)  { bump(w.counts, k, int64(n)) }
func (w *W) Called(k string, n int) { bump(w.calls, k, int64(n)) }

func (w *W) Sample(format string, args ...any) {
	if len(w.samples) < 40 {
		w.samples = append(w.samples, fmt.Sprintf("%s[%d]: ", w.Phase.Name, w.Index)+fmt.Sprintf(format, args...))
	}
}

// State returns per-worker scratch, made on first use.
func State[T any](w *W, key string, mk func() T) T {
	if v, ok := w.state[key]; ok {
		return v.(T)
	}
	v := mk()
	w.state[key] = v
	return v
}

// Call runs f, which calls the function fn of the library, and reports a panic
// or memory fault as a violation. It returns whether f returned normally.
func (w *W) Call(fn string, detail func() string, f func()) (ok bool) {
	bump(w.calls, fn, 1)
	w.cur.Store(fn)
	defer func() {
		if p := recover(); p != nil {
			kind := "panic"
			if IsFault(p) {
				kind = "memory-fault"
			}
			w.Violate(fn, kind, "%s: %v%s; %s", kind, p, FaultAddr(p), detail())
			ok = false
		}
	}()
	f()
	return true
}

// Try runs f and returns the recovered panic value.
func (w *W) Try(fn string, f func()) (p any) {
	bump(w.calls, fn, 1)
	w.cur.Store(fn)
	defer func() { p = recover() }()
	f()
	return nil
}

type addrer interface{ Addr() uintptr }

// IsFault tells whether a recovered value is a memory fault turned into a panic
// by debug.SetPanicOnFault.
func IsFault(p any) bool {
	if _, ok := p.(addrer); ok {
		return true
	}
	e, ok := p.(runtime.Error)
	return ok && strings.Contains(e.Error(), "invalid memory address")
}
func FaultAddr(p any) string {
	if a, ok := p.(addrer); ok {
		return fmt.Sprintf(" at %#x", a.Addr())
	}
	return ""
}

// Nums renders a sequence for a report.
func Nums(d []uint32) string {
	if len(d) > 96 {
		return fmt.Sprintf("len=%d %x... (hash %016x)", len(d), d[:96], gen.Hash(1, d))
	}
	return fmt.Sprintf("len=%d %x", len(d), d)
}
func Bytes(d []byte) string {
	if len(d) > 256 {
		return fmt.Sprintf("len=%d %x... (hash %016x)", len(d), d[:256], gen.HashBytes(1, d))
	}
	return fmt.Sprintf("len=%d %x", len(d), d)
}

// Diff32 is the first index where a and b differ, or -1.
func Diff32(a, b []uint32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}
func DiffB(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}
