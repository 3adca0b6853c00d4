//go:build linux && amd64

// Command svbtrace runs svbprobe, single-steps it between its breakpoints, and
// classifies every instruction executed there by code of the library.
package main

import (
	"bytes"
	"debug/elf"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

var names = []string{"writer.WriteAll", "writer.WriteAllDelta", "reader.ReadAll", "reader.ReadAllDelta", "encode.Put8uint32", "encode.Put8uint32Delta", "decode.Get8uint32", "decode.Get8uint32Delta"}

type use struct {
	Count  int64
	First  string   // hex of an instruction
	Symbol string   // where
	In     []string // library symbols seen
}

type result struct {
	Steps   int64                      // all instructions stepped
	Library map[string]int64           // instructions in library code per entry point
	Total   map[string]int64           // all instructions per entry point
	Least   map[string]int64           // the call of those with the fewest
	Bursts  map[string][2]int          // -sample: bursts in library code, and those of them with vector instructions
	Uses    map[string]map[string]*use // entry point -> extension -> use
	Calls   map[string]int64
	Paths   map[string]int // distinct library instruction addresses per entry point
	Exit    int
	Signal  string
}

type sym struct {
	addr, end uint64
	name      string
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "svbtrace:", err)
		os.Exit(4)
	}
}

func main() {
	out := flag.String("o", "", "result")
	module := flag.String("module", "github.com/theMPatel/streamvbyte-simdgo/", "")
	max := flag.Int64("max", 200e6, "give up after this many steps")
	sample := flag.Int("sample", 0, "only step through bursts of this many instructions now and then")
	flag.Parse()
	runtime.LockOSThread()
	args := flag.Args()

	f, err := elf.Open(args[0])
	check(err)
	ss, err := f.Symbols()
	check(err)
	var syms []sym
	var markAddr uint64
	for _, s := range ss {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC && s.Size > 0 {
			syms = append(syms, sym{s.Value, s.Value + s.Size, s.Name})
			if s.Name == "main.mark" || s.Name == "main.mark.abi0" {
				b := make([]byte, 1)
				for _, p := range f.Progs {
					if p.Type == elf.PT_LOAD && s.Value >= p.Vaddr && s.Value < p.Vaddr+p.Filesz {
						_, err := p.ReadAt(b, int64(s.Value-p.Vaddr))
						check(err)
					}
				}
				if b[0] == 0xcc {
					markAddr = s.Value
				}
			}
		}
	}
	if markAddr == 0 {
		check(fmt.Errorf("no breakpoint function in %s", args[0]))
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].addr < syms[j].addr })
	find := func(pc uint64) string {
		i := sort.Search(len(syms), func(i int) bool { return syms[i].end > pc })
		if i < len(syms) && syms[i].addr <= pc {
			return syms[i].name
		}
		return "?"
	}

	attr := &os.ProcAttr{Env: os.Environ(), Files: []*os.File{nil, os.Stdout, os.Stderr}, Sys: &syscall.SysProcAttr{Ptrace: true}}
	proc, err := os.StartProcess(args[0], args, attr)
	check(err)
	pid := proc.Pid
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(pid, &ws, 0, nil)
	check(err)
	check(syscall.PtraceSetOptions(pid, 0x100000)) // PTRACE_O_EXITKILL

	res := result{Library: map[string]int64{}, Total: map[string]int64{}, Least: map[string]int64{}, Bursts: map[string][2]int{}, Uses: map[string]map[string]*use{}, Calls: map[string]int64{}, Paths: map[string]int{}}
	type info struct {
		lib   bool
		sched bool
		ext   string
		sym   string
		hex   string
	}
	cache := map[uint64]*info{}
	seen := map[string]map[uint64]bool{}
	var regs syscall.PtraceRegs
	stepping, inCall, scheduler := false, false, false
	burst, inLib, inVec := 0, 0, 0
	fn, before := "", int64(0)
	sig := 0
	for {
		if stepping {
			check(syscall.PtraceGetRegs(pid, &regs))
			pc := regs.Rip
			in := cache[pc]
			if in == nil {
				in = &info{sym: find(pc)}
				in.lib = strings.HasPrefix(in.sym, *module)
				in.sched = strings.HasPrefix(in.sym, "runtime.morestack") || strings.HasPrefix(in.sym, "runtime.sigtramp") || strings.HasPrefix(in.sym, "runtime.asyncPreempt")
				if in.lib {
					b := make([]byte, 15)
					n, _ := syscall.PtracePeekText(pid, uintptr(pc), b)
					in.ext = classify(b[:n])
					in.hex = fmt.Sprintf("% x", b[:n])
				}
				cache[pc] = in
			}
			res.Steps++
			burst--
			if res.Steps > *max {
				check(fmt.Errorf("too many steps in %s", fn))
			}
			// Single-stepping takes so long that the scheduler preempts the
			// goroutine now and then; that is no work of the call.
			if in.lib {
				scheduler = false
			} else if in.sched {
				scheduler = true
			}
			if !scheduler {
				res.Total[fn]++
			}
			if in.lib {
				res.Library[fn]++
				inLib++
				switch in.ext {
				case "AVX", "AVX2", "AVX512", "SSE", "FMA":
					inVec++
				}
				if !seen[fn][pc] {
					seen[fn][pc] = true
				}
				if in.ext != "" {
					u := res.Uses[fn][in.ext]
					if u == nil {
						u = &use{First: in.hex, Symbol: in.sym}
						res.Uses[fn][in.ext] = u
					}
					u.Count++
				}
			}
			if *sample > 0 && burst <= 0 {
				if inLib >= *sample/3 {
					b := res.Bursts[fn]
					b[0]++
					if inVec > 0 {
						b[1]++
					}
					res.Bursts[fn] = b
				}
				stepping = false
				time.AfterFunc(300*time.Microsecond, func() { syscall.Tgkill(pid, pid, syscall.SIGSTOP) })
			}
		}
		if stepping {
			err = ptrace(syscall.PTRACE_SINGLESTEP, pid, sig)
		} else {
			err = ptrace(syscall.PTRACE_CONT, pid, sig)
		}
		check(err)
		sig = 0
		_, err = syscall.Wait4(pid, &ws, 0, nil)
		check(err)
		if ws.Exited() {
			res.Exit = ws.ExitStatus()
			break
		}
		if ws.Signaled() {
			res.Exit, res.Signal = -1, ws.Signal().String()
			break
		}
		if !ws.Stopped() {
			continue
		}
		if s := ws.StopSignal(); s == syscall.SIGSTOP && *sample > 0 {
			if inCall {
				stepping, burst, inLib, inVec = true, *sample, 0, 0
			}
			continue
		} else if s != syscall.SIGTRAP {
			sig = int(s)
			if s == syscall.SIGILL {
				check(syscall.PtraceGetRegs(pid, &regs))
				res.Signal = fmt.Sprintf("SIGILL at %#x in %s", regs.Rip, find(regs.Rip))
			}
			continue
		}
		check(syscall.PtraceGetRegs(pid, &regs))
		if regs.Rip == markAddr+1 {
			b := make([]byte, 8)
			_, err := syscall.PtracePeekData(pid, uintptr(regs.Rsp+8), b)
			check(err)
			id := int64(b[0]) | int64(b[1])<<8
			if bytes.Equal(b, bytes.Repeat([]byte{0xff}, 8)) {
				stepping, inCall = false, false
				if n := res.Total[fn] - before; res.Calls[fn] == 1 || n < res.Least[fn] {
					res.Least[fn] = n
				}
			} else {
				stepping, inCall = *sample == 0, true
				if id < int64(len(names)) {
					fn = names[id]
				} else {
					fn = fmt.Sprint(id)
				}
				if *sample > 0 {
					time.AfterFunc(200*time.Microsecond, func() { syscall.Tgkill(pid, pid, syscall.SIGSTOP) })
				}
				res.Calls[fn]++
				before, scheduler = res.Total[fn], false
				if seen[fn] == nil {
					seen[fn] = map[uint64]bool{}
					res.Uses[fn] = map[string]*use{}
				}
			}
		}
	}
	for fn, m := range seen {
		res.Paths[fn] = len(m)
		syms := map[string]bool{}
		for pc := range m {
			syms[cache[pc].sym] = true
		}
		for _, u := range res.Uses[fn] {
			for s := range syms {
				u.In = append(u.In, s)
			}
			sort.Strings(u.In)
		}
	}
	b, err := json.MarshalIndent(&res, "", " ")
	check(err)
	check(os.WriteFile(*out, b, 0o644))
}

func ptrace(req, pid, sig int) error {
	_, _, e := syscall.Syscall6(syscall.SYS_PTRACE, uintptr(req), uintptr(pid), 0, uintptr(sig), 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

// classify names the extension beyond SSE2 that an instruction belongs to.
func classify(b []byte) string {
	i, rep, opsize := 0, byte(0), false
	for ; i < len(b); i++ {
		switch b[i] {
		case 0x66:
			opsize = true
			continue
		case 0xf2, 0xf3:
			rep = b[i]
			continue
		case 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65, 0x67, 0xf0:
			continue
		}
		break
	}
	if i < len(b) && b[i]&0xf0 == 0x40 {
		i++
	}
	if i+4 >= len(b) {
		return ""
	}
	switch b[i] {
	case 0x62:
		return "AVX512"
	case 0xc5:
		return vex(1, b[i+1]>>2&1 == 1, b[i+1]&3, b[i+2], 0)
	case 0xc4:
		return vex(b[i+1]&31, b[i+2]>>2&1 == 1, b[i+2]&3, b[i+3], b[i+2]>>7)
	case 0x0f:
	default:
		return ""
	}
	op := b[i+1]
	switch {
	case op == 0x38:
		switch o := b[i+2]; {
		case o == 0xf0 || o == 0xf1:
			if rep == 0xf2 {
				return "SSE" // CRC32
			}
			return "MOVBE"
		case o == 0xf6:
			return "ADX"
		case o >= 0xdb && o <= 0xdf:
			return "AES"
		case o >= 0xc8 && o <= 0xcd:
			return "SHA"
		}
		return "SSE"
	case op == 0x3a:
		switch b[i+2] {
		case 0x44:
			return "PCLMULQDQ"
		case 0xdf:
			return "AES"
		case 0xcc:
			return "SHA"
		}
		return "SSE"
	case op == 0xb8 && rep == 0xf3:
		return "POPCNT"
	case op == 0xbd && rep == 0xf3:
		return "LZCNT"
	case op == 0xbc && rep == 0xf3:
		return "BMI" // TZCNT
	case op == 0xf0 && rep == 0xf2, (op == 0x7c || op == 0x7d || op == 0xd0) && (opsize || rep == 0xf2), op == 0x12 && rep != 0, op == 0x16 && rep == 0xf3:
		return "SSE" // SSE3
	case op == 0xc7 && b[i+2]>>3&7 >= 6 && b[i+2]>>6 == 3:
		return "RDRAND"
	}
	return ""
}

func vex(mm byte, l256 bool, pp, op, w byte) string {
	switch mm {
	case 1:
		// integer instructions on 256 bits came with AVX2; moves, logic on
		// floats and the like with AVX
		integer := op >= 0x60 && op <= 0x6d || op >= 0x70 && op <= 0x76 && pp != 0 || op >= 0xd1 && op <= 0xfe && op != 0xe6 && op != 0xe7 && op != 0xf0 && op != 0xd6
		if op == 0xd7 || op == 0xc4 || op == 0xc5 {
			integer = true
		}
		if l256 && integer {
			return "AVX2"
		}
		return "AVX"
	case 2:
		switch {
		case op == 0xf2 || op == 0xf3 || op == 0xf5 || op == 0xf6 || op == 0xf7:
			return "BMI"
		case op >= 0x96 && op <= 0xbf:
			return "FMA"
		case op == 0x13:
			return "F16C"
		case op == 0x16 || op == 0x36 || op == 0x45 || op == 0x46 || op == 0x47 || op == 0x58 || op == 0x59 || op == 0x5a || op == 0x78 || op == 0x79 || op == 0x8c || op == 0x8e || op >= 0x90 && op <= 0x93:
			return "AVX2"
		case op == 0x18 || op == 0x19 || op == 0x1a || op >= 0x0c && op <= 0x0f || op == 0x17 || op >= 0x2c && op <= 0x2f:
			return "AVX"
		case op >= 0xdb && op <= 0xdf:
			return "AES"
		case l256:
			return "AVX2"
		}
		return "AVX"
	case 3:
		switch {
		case op == 0xf0:
			return "BMI"
		case op == 0x00 || op == 0x01 || op == 0x02 || op == 0x38 || op == 0x39 || op == 0x46:
			return "AVX2"
		case op == 0x1d:
			return "F16C"
		case op == 0x44:
			return "PCLMULQDQ"
		case (op == 0x0e || op == 0x0f || op == 0x42 || op == 0x4c) && l256:
			return "AVX2"
		}
		return "AVX"
	}
	return "AVX512"
}
