//go:build linux && amd64

// Command svbstate reports process-wide state at its start and, in the build
// that links the library (tag verifstate), after and during calls to it.

//go:debug randseednop=0
package main

import (
	"bytes"
	"context"
	crand "crypto/rand"
	"database/sql"
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"log/slog"
	"math/rand"
	"mime"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// set in the build with the library
var (
	linked bool
	calls  []func()
	draws  []func() // functions documented to draw random numbers
	count  = map[string]int{}
)

var defaultUsage = fmt.Sprintf("%p", flag.Usage)

func mxcsr() uint32

type snapshot map[string]string

func metric(name string) string {
	s := []metrics.Sample{{Name: name}}
	metrics.Read(s)
	switch s[0].Value.Kind() {
	case metrics.KindUint64:
		return fmt.Sprint(s[0].Value.Uint64())
	case metrics.KindFloat64:
		return fmt.Sprint(s[0].Value.Float64())
	}
	return "?"
}

var light = []string{"/gc/gogc:percent", "/gc/gomemlimit:bytes", "/sched/gomaxprocs:threads", "/godebug/non-default-behavior/randseednop:events"}

func goroutines() (n int, stacks string) {
	p := pprof.Lookup("goroutine")
	var b bytes.Buffer
	p.WriteTo(&b, 2)
	for _, g := range strings.Split(b.String(), "\n\n") {
		if !strings.Contains(g, "main.watch") {
			n++
			stacks += g + "\n\n"
		}
	}
	return
}

func take() snapshot {
	s := snapshot{}
	var fl []string
	flag.CommandLine.VisitAll(func(f *flag.Flag) { fl = append(fl, f.Name) })
	s["flags"] = strings.Join(fl, " ")
	s["flags parsed"] = fmt.Sprint(flag.Parsed())
	s["flag error handling"] = fmt.Sprint(flag.CommandLine.ErrorHandling(), flag.CommandLine.Name() == os.Args[0])
	s["flag usage"] = fmt.Sprint(fmt.Sprintf("%p", flag.Usage) == defaultUsage)
	s["arguments"] = strings.Join(os.Args[1:], "\x00")
	env := os.Environ()
	sort.Strings(env)
	s["environment"] = strings.Join(env, "\x00")
	for _, m := range light {
		s["metric "+m] = metric(m)
	}
	s["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	x := debug.SetMaxStack(1 << 28)
	debug.SetMaxStack(x)
	s["max stack"] = fmt.Sprint(x)
	x = debug.SetMaxThreads(9999)
	debug.SetMaxThreads(x)
	s["max threads"] = fmt.Sprint(x)
	f := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(f)
	s["panic on fault"] = fmt.Sprint(f)
	s["profiling"] = fmt.Sprint(runtime.SetMutexProfileFraction(-1), runtime.MemProfileRate)
	s["log"] = fmt.Sprint(log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
	s["default random source seeded"] = metric("/godebug/non-default-behavior/randseednop:events")
	// Whoever publishes variables with expvar serves them at /debug/vars;
	// this program must not import that package.
	var hs []string
	for _, u := range []string{"/", "/debug/pprof/", "/debug/vars", "/metrics", "/debug/requests"} {
		r, _ := http.NewRequest("GET", "http://localhost"+u, nil)
		_, pat := http.DefaultServeMux.Handler(r)
		hs = append(hs, u+"->"+pat)
	}
	s["HTTP handlers"] = strings.Join(hs, " ")
	c := http.DefaultClient
	s["HTTP client"] = fmt.Sprint(c.Transport == nil, c.Jar == nil, c.CheckRedirect == nil, c.Timeout) + fmt.Sprintf(" %T", http.DefaultTransport)
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		s["HTTP client"] += fmt.Sprint(" ", t.MaxIdleConns, t.MaxIdleConnsPerHost, t.MaxConnsPerHost, t.IdleConnTimeout, t.TLSHandshakeTimeout, t.ResponseHeaderTimeout, t.DisableKeepAlives, t.DisableCompression, t.TLSClientConfig == nil, t.Proxy == nil)
	}
	s["random bytes"] = fmt.Sprintf("%T", crand.Reader)
	s["resolver"] = fmt.Sprint(net.DefaultResolver.StrictErrors, net.DefaultResolver.PreferGo, net.DefaultResolver.Dial == nil)
	s["standard files"] = fmt.Sprint(os.Stdin.Name(), os.Stdin.Fd(), os.Stdout.Name(), os.Stdout.Fd(), os.Stderr.Name(), os.Stderr.Fd())
	sl := slog.Default()
	s["structured log"] = fmt.Sprintf("%T %v %v", sl.Handler(), sl.Enabled(context.Background(), slog.LevelDebug), sl.Enabled(context.Background(), slog.LevelInfo))
	var types []string
	for _, e := range []string{".svb", ".bin", ".dat", ".vb", ".html", ".txt"} {
		types = append(types, mime.TypeByExtension(e))
	}
	s["media types"] = strings.Join(types, " ")
	s["database drivers"] = strings.Join(sql.Drivers(), " ")
	s["floating-point control"] = fmt.Sprintf("%#x", mxcsr()&^0x3f)
	g := make([]byte, 1<<10)
	g = g[:runtime.Stack(g, false)]
	s["goroutine locked to its thread"] = fmt.Sprint(strings.Contains(string(bytes.SplitN(g, []byte("\n"), 2)[0]), "locked"))
	for _, f := range []string{"comm", "oom_score_adj", "coredump_filter", "timerslack_ns", "personality"} {
		b, _ := os.ReadFile("/proc/self/" + f)
		s["process "+f] = strings.TrimSpace(string(b))
		if f == "comm" { // as the binary is called
			s["process comm"] = fmt.Sprint(strings.HasPrefix(filepath.Base(os.Args[0])+"\n", string(b[:min(15, len(b))])))
		}
	}
	st, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(st), "\n") {
		for _, k := range []string{"SigIgn", "SigCgt", "SigBlk", "Umask", "NoNewPrivs", "Seccomp:", "CapEff", "Uid", "Cpus_allowed:", "VmLck", "THP_enabled", "Speculation_Store_Bypass"} {
			if strings.HasPrefix(l, k) {
				s["process "+strings.TrimSuffix(k, ":")] = l
			}
		}
	}
	var ig []string
	for i := 1; i < 32; i++ {
		if signal.Ignored(syscall.Signal(i)) {
			ig = append(ig, fmt.Sprint(i))
		}
	}
	s["signals ignored"] = strings.Join(ig, " ")
	wd, _ := os.Getwd()
	s["working directory"] = wd
	for _, d := range []string{wd, os.TempDir(), os.Getenv("HOME")} {
		var names []string
		es, _ := os.ReadDir(d)
		for _, e := range es {
			names = append(names, e.Name())
		}
		s["files in "+filepath.Base(d)] = strings.Join(names, " ")
	}
	for _, r := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_STACK, syscall.RLIMIT_AS, syscall.RLIMIT_DATA, syscall.RLIMIT_CPU} {
		var l syscall.Rlimit
		syscall.Getrlimit(r, &l)
		s[fmt.Sprint("limit ", r)] = fmt.Sprint(l)
	}
	p, _ := syscall.Getpriority(0, 0)
	s["priority"] = fmt.Sprint(p)
	off, _ := syscall.Seek(0, 0, 1)
	s["standard input read"] = fmt.Sprint(off)
	var fds []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.Contains(l, "anon_inode") && !strings.Contains(l, "/proc/") && !strings.HasPrefix(l, "/sys/") {
			fds = append(fds, e.Name())
		}
	}
	s["open files"] = strings.Join(fds, " ")
	s["time zone"] = time.Local.String()
	n, stacks := goroutines()
	for k := 0; k < 40 && n > 1; k++ { // those that are about to end
		time.Sleep(25 * time.Millisecond)
		n, stacks = goroutines()
	}
	s["goroutines"] = fmt.Sprint(n)
	if n > 1 {
		s["goroutines"] += "\n" + stacks
	}
	return s
}

// watch compares the cheap part of the state while calls are running.
func watch(stop *atomic.Bool, done chan map[string]string, polls *int64) {
	// the environment is a copy of the process'
	get := func() map[string]string {
		m := map[string]string{}
		for _, k := range light {
			m["metric "+k] = metric(k)
		}
		m["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
		m["environment"] = strings.Join(os.Environ(), "\x00")
		m["log"] = fmt.Sprint(log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
		return m
	}
	base, diff := get(), map[string]string{}
	for !stop.Load() {
		*polls++
		for k, v := range get() {
			if v != base[k] {
				diff[k] = base[k] + " -> " + v
			}
		}
		runtime.Gosched()
	}
	done <- diff
}

func main() {
	out, kill := os.Getenv("SVBSTATE_OUT"), os.Getenv("SVBSTATE_KILL")
	rep := struct {
		Linked        bool
		Start, After  snapshot
		During        map[string]string
		Polls         int64
		Calls         map[string]int
		Random, Fresh []uint64 // draws from the default source after Seed(42)
	}{Linked: linked}
	rep.Start = take()
	if linked {
		rand.Seed(42)
		seeds := metric("/godebug/non-default-behavior/randseednop:events")
		var stop atomic.Bool
		done := make(chan map[string]string)
		go watch(&stop, done, &rep.Polls)
		run := func(fs []func()) {
			for t := time.Now(); time.Since(t) < 300*time.Millisecond; {
				for _, f := range fs {
					f()
				}
			}
		}
		run(calls)
		for k := 0; k < 8; k++ {
			rep.Random = append(rep.Random, rand.Uint64())
		}
		run(draws)
		stop.Store(true)
		rep.During = <-done
		rep.After = take()
		s := "default random source seeded"
		if rep.After[s] == seeds {
			rep.After[s] = rep.Start[s] // the Seed above is ours
		}
		k := "metric /godebug/non-default-behavior/randseednop:events"
		rep.After[k] = rep.Start[k]
		r := rand.New(rand.NewSource(42))
		for k := 0; k < 8; k++ {
			rep.Fresh = append(rep.Fresh, r.Uint64())
		}
	}
	rep.Calls = count
	b, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		os.Exit(9)
	}
	if kill != "" {
		var n int
		fmt.Sscan(kill, &n)
		syscall.Kill(os.Getpid(), syscall.Signal(n))
		time.Sleep(3 * time.Second)
		os.Exit(77) // survived
	}
}
