// Command svbmon runs the monitors of one property against the library it is
// linked with and writes what it observed as JSON.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"

	"svbverif/checks"
	"svbverif/rt"
)

func main() { Run() }

// Run is what a host program calls that loads the monitors as a plugin.
func Run() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("result", "-", "result file")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	phase := flag.String("phase", "", "run only this phase")
	index := flag.Int("index", -1, "run only this case of the phase")
	shard := flag.Int("shard", 0, "run only this part of every phase")
	shards := flag.Int("shards", 1, "parts")
	flag.Parse()
	def, ok := checks.All[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no monitors for", *prop)
		os.Exit(4)
	}
	r := rt.NewRun(*prop, *seed, *workers, *out)
	r.Shard(*shard, *shards)
	if *phase != "" {
		r.Only(*phase, *index)
	}
	r.Rule, r.Must = def.Rule, def.Must
	r.Exec(def.Phases(*tier == "thorough")).Write(*out)
}
