//go:build linux && !mips && !mips64

package rt

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const lockThreads = true

func gettid() int { return syscall.Gettid() }

// threadCPU is the CPU time of a thread in seconds.
func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// abort ends the process with a no-return violation in the case of w.
func (r *Run) abort(w *W, fn, text string) {
	r.mu.Lock()
	r.viols = append(r.viols, Violation{w.curPh.Load().(string), int(w.curIdx.Load()), fn, "no-return", text})
	r.mu.Unlock()
	res := &Result{Property: r.Property, Seed: r.Seed, Violations: r.viols, Evaluations: int64(w.seq.Load()), Calls: map[string]int64{}, Counters: map[string]int64{}, Phases: map[string]int64{}}
	res.Done = true
	res.Write(r.out)
	os.Exit(0)
}

// idle finds calls that wait forever: goroutines inside the library that are
// blocked at the same place in all samples of 40 s, during which no case ended
// and the process used hardly any CPU time.
type idle struct {
	seq   map[*W]uint64
	stuck map[string]int // stack of a blocked goroutine: samples
	cpu   float64
}

const idleSamples = 20

func (d *idle) look(ws []*W) (fn, text string) {
	var cpu float64
	if b, err := os.ReadFile("/proc/self/stat"); err == nil {
		s := string(b)
		f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
		u, _ := strconv.ParseFloat(f[11], 64)
		k, _ := strconv.ParseFloat(f[12], 64)
		cpu = (u + k) / 100
	}
	same := cpu-d.cpu < 0.2
	for _, w := range ws {
		s := w.seq.Load()
		same = same && d.seq[w] == s
	}
	d.cpu = cpu
	if !same {
		d.seq, d.stuck = map[*W]uint64{}, nil
		for _, w := range ws {
			d.seq[w] = w.seq.Load()
		}
		return
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	now := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		i, j := strings.IndexByte(head, '['), strings.IndexAny(head, ",]")
		if i < 0 || j < i || !strings.Contains(rest, library) {
			continue
		}
		switch head[i+1 : j] {
		case "running", "runnable", "syscall", "waiting":
			continue
		}
		key := head[:j] + "\n" + rest
		now[key] = d.stuck[key] + 1
	}
	d.stuck = now
	for k, n := range now {
		if n >= idleSamples {
			fn := k[strings.Index(k, library)+len(library):]
			fn, _, _ = strings.Cut(fn, "(")
			return fn, fmt.Sprintf("%d s: %s", 2*n, k)
		}
	}
	return
}

const library = "theMPatel/streamvbyte-simdgo/pkg/"

// watch looks for a call that does not return: a case that has consumed more
// than 60 s of CPU time of its own thread, plus 1 us per integer it handles,
// where such cases take micro- to milliseconds (logical work, not wall clock).
func (r *Run) watch() func() {
	quit := make(chan struct{})
	type mark struct {
		seq uint64
		cpu float64
	}
	go func() {
		marks := make([]mark, len(r.ws))
		var blocked idle
		t := time.NewTicker(2 * time.Second)
		defer t.Stop()
		for {
			select {
			case <-quit:
				return
			case <-t.C:
			}
			if fn, text := blocked.look(r.ws); text != "" {
				for _, w := range r.ws {
					if s := w.seq.Load(); s != 0 && blocked.seq[w] == s {
						r.abort(w, fn, "call is blocked, and the process idle, for "+text)
					}
				}
			}
			for i, w := range r.ws {
				s := w.seq.Load()
				if s == 0 || w.tid.Load() == 0 {
					marks[i] = mark{}
					continue
				}
				c := threadCPU(int(w.tid.Load()))
				if marks[i].seq != s {
					marks[i] = mark{s, c}
					continue
				}
				limit := 60 + float64(w.cost.Load())*1e-6
				if c-marks[i].cpu > limit {
					r.abort(w, w.cur.Load().(string), fmt.Sprintf("call still running after %.0f s of CPU time", c-marks[i].cpu))
				}
			}
		}
	}()
	return func() { close(quit) }
}
