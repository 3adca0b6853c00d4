//go:build linux && amd64

package checks

import (
	"slices"
	"sort"
	"sync"

	"svbverif/rt"
)

func init() {
	d := All["C13"]
	base := d.Phases
	d.Phases = func(th bool) []rt.Phase {
		return append(base(th), rt.Phase{Name: "first", N: 0, Serial: true, Cost: 1 << 20, Run: firstCall})
	}
	All["C13"] = d
}

// firstCall makes a call of every function in turn (by index) the first one of
// the process, alone or on several goroutines at once.
func firstCall(w *rt.W, i int) {
	f := newFailer(0, 500)
	var names []string
	for k := 0; k < 4000; k++ {
		if fn := f.target(f.r.N(kinds)).fn; !slices.Contains(names, fn) {
			names = append(names, fn)
		}
	}
	sort.Strings(names)
	fn := names[i%len(names)]
	pick := func(f *failer, fn string) target {
		for {
			if t := f.target(f.r.N(kinds)); t.fn == fn {
				return t
			}
		}
	}
	var fs []*failer
	for k := 0; k < 1+i/len(names)%2*5; k++ {
		f := newFailer(0, []int{500, 3}[(i/len(names)/2+k)%2])
		f.reset(w.R.U64())
		f.after = "nothing, or other first calls of the process"
		fs = append(fs, f)
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for k, f := range fs {
		t := pick(f, fn)
		if k%3 == 2 {
			t = pick(f, names[f.r.N(len(names))])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			t.good()
		}()
	}
	close(start)
	wg.Wait()
	w.Count("first calls of a process: "+fn, 1)
	for _, f := range fs {
		for _, fn := range names {
			pick(f, fn).good()
		}
		f.report(w)
	}
}
