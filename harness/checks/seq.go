// Package checks holds the monitors, one set of phases per property.
package checks

import (
	"fmt"

	"svbverif/gen"
	"svbverif/ref"
	"svbverif/rt"
)

type Def struct {
	// Phases of the check; the tier scales their sizes.
	Phases func(thorough bool) []rt.Phase
	// Rule describes cases and what makes one non-trivial.
	Rule string
	// Must lists functions and counters a run has to have observed.
	Must []string
}

var All = map[string]Def{}

const seqRule = "A case is a sequence of uint32 (and prev): grid of every count 0..160 x 27 value patterns, one value of odd byte length at every position of every count 1..72, " +
	"heads and tails of differing byte lengths for counts up to 140, every byte-length combination of up to 8 values behind a bulk prefix, random lengths up to 700 and, with random logarithm, up to 262144, " +
	"powers of two +-d and of ten, a sweep of all 65536 control pairs, and a few multi-million sequences. Non-trivial: at least one value; distinct by content hash."

func pick(thorough bool, q, t int) int {
	if thorough {
		return t
	}
	return q
}

// sizesCase makes n values whose byte lengths are given by f.
func sizesCase(r *gen.Rng, n int, f func(i int) int) []uint32 {
	d := make([]uint32, n)
	mode := r.N(4)
	for i := range d {
		d[i] = r.OfLen(f(i), mode)
	}
	return d
}

// scale lets expensive checks use fewer cases.
type scale struct {
	Div     int  // divide the numbers of cases
	MaxBig  int  // cap on lengths of the large cases
	NoBig   bool // leave the large phases out
	Buffers int
}

// seqPhases drives body with the sequences of seqRule. The sequence belongs to
// the body, which must not depend on anything but it and w.R.
func seqPhases(thorough bool, sc scale, body func(w *rt.W, nums []uint32)) []rt.Phase {
	if sc.Div < 1 {
		sc.Div = 1
	}
	if sc.MaxBig == 0 {
		sc.MaxBig = 1 << 30
	}
	np := len(gen.Patterns)
	run := func(mk func(r *gen.Rng, i int) []uint32) func(*rt.W, int) {
		return func(w *rt.W, i int) {
			nums := mk(&w.R, i)
			if len(nums) > 0 {
				w.Note(gen.Hash(uint64(len(nums)), nums))
			}
			if i%9973 == 17 || i == 1 {
				w.Sample("%s", rt.Nums(nums))
			}
			body(w, nums)
		}
	}
	var ps []rt.Phase
	add := func(name string, n, cost int, mk func(r *gen.Rng, i int) []uint32) {
		ps = append(ps, rt.Phase{Name: name, N: n, Cost: cost, Run: run(mk)})
	}

	const gridMax = 161
	add("grid", gridMax*np*pick(thorough, 8, 200), 200, func(r *gen.Rng, i int) []uint32 {
		d := make([]uint32, i%gridMax)
		gen.Patterns[i/gridMax%np].Fill(r, d)
		return d
	})

	// one value of another length at each position of each count
	type oc struct{ n, p, base, odd uint8 }
	var ocs []oc
	for n := 1; n <= 72; n++ {
		for p := 0; p < n; p++ {
			for b := 1; b <= 4; b++ {
				for o := 1; o <= 4; o++ {
					if o != b {
						ocs = append(ocs, oc{uint8(n), uint8(p), uint8(b), uint8(o)})
					}
				}
			}
		}
	}
	reps := pick(thorough, 4, 60)
	add("outlier", len(ocs)*reps/min(sc.Div, 3), 100, func(r *gen.Rng, i int) []uint32 {
		c := ocs[i*min(sc.Div, 3)%len(ocs)]
		if sc.Div > 1 {
			c = ocs[r.N(len(ocs))]
		}
		return sizesCase(r, int(c.n), func(k int) int {
			if k == int(c.p) {
				return int(c.odd)
			}
			return int(c.base)
		})
	})

	type tc struct{ n, t, head, tail uint8 }
	var tcs []tc
	for n := 1; n <= 140; n++ {
		for t := 0; t <= n && t <= 40; t++ {
			for h := 1; h <= 5; h++ {
				for s := 1; s <= 4; s++ {
					if h != s && (t < n || h == 1) {
						tcs = append(tcs, tc{uint8(n), uint8(t), uint8(h), uint8(s)})
					}
				}
			}
		}
	}
	add("headtail", len(tcs)*pick(thorough, 3, 40)/sc.Div, 150, func(r *gen.Rng, i int) []uint32 {
		c := tcs[i%len(tcs)]
		if sc.Div > 1 {
			c = tcs[r.N(len(tcs))]
		}
		return sizesCase(r, int(c.n), func(k int) int {
			switch {
			case k >= int(c.n)-int(c.t):
				return int(c.tail)
			case c.head == 5:
				return 1 + r.N(4)
			}
			return int(c.head)
		})
	})

	// all byte-length combinations of 8 values; before them a prefix, behind
	// them a suffix of random length
	add("sizes8", 65536*pick(thorough, 3, 64)/sc.Div, 150, func(r *gen.Rng, i int) []uint32 {
		c := i
		if sc.Div > 1 {
			c = r.N(65536)
		}
		pre, post := 0, 0
		if r.N(4) > 0 {
			pre = r.N(12) * 8
			if r.N(3) == 0 {
				pre += r.N(8)
			}
			post = r.N(40)
		}
		return sizesCase(r, pre+8+post, func(k int) int {
			if k >= pre && k < pre+8 {
				return c>>(2*uint(k-pre))&3 + 1
			}
			return 1 + r.N(4)
		})
	})

	// all byte-length combinations of 1..7 values
	add("sizesn", (4+16+64+256+1024+4096+16384)*pick(thorough, 4, 60)/sc.Div, 10, func(r *gen.Rng, i int) []uint32 {
		i %= 4 + 16 + 64 + 256 + 1024 + 4096 + 16384
		n, m := 1, 4
		for i >= m {
			i -= m
			n++
			m *= 4
		}
		return sizesCase(r, n, func(k int) int { return i>>(2*uint(k))&3 + 1 })
	})

	add("random", pick(thorough, 400000, 12000000)/sc.Div, 700, func(r *gen.Rng, i int) []uint32 {
		d := make([]uint32, r.N(1+r.N(700)))
		gen.Patterns[r.N(np)].Fill(r, d)
		if r.N(3) == 0 && len(d) > 0 { // splice two patterns
			k := r.N(len(d))
			gen.Patterns[r.N(np)].Fill(r, d[k:])
		}
		return d
	})

	if sc.NoBig {
		return ps
	}
	var pw []int
	for k := 8; k <= pick(thorough, 20, 23); k++ {
		for _, d := range []int{-33, -17, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 20, 24, 29, 31, 32, 33} {
			if n := 1<<uint(k) + d; n <= sc.MaxBig {
				if k > 15 && (d < -1 || d > 1) && (d+k)%5 != 0 && !thorough {
					continue
				}
				pw = append(pw, n)
			}
		}
	}
	for _, n := range []int{999, 1000, 1001, 3 << 9, 5000, 9999, 10000, 10001, 3 << 12, 50000, 65535 * 4 / 3, 99999, 100000, 100001, 3 << 16, 500000} {
		if n <= sc.MaxBig {
			pw = append(pw, n)
		}
	}
	add("pow2", len(pw), 1<<20, func(r *gen.Rng, i int) []uint32 {
		d := make([]uint32, pw[i])
		gen.Patterns[r.N(np)].Fill(r, d)
		return d
	})

	// lengths with random logarithm, between the short and the long ones
	add("mid", pick(thorough, 1400, 60000)/sc.Div, 1<<20, func(r *gen.Rng, i int) []uint32 {
		k := uint(9 + r.N(9))
		n := min(1<<k+r.N(1<<k), sc.MaxBig)
		d := make([]uint32, n)
		gen.Patterns[r.N(np)].Fill(r, d)
		if r.N(3) == 0 {
			k := r.N(n)
			gen.Patterns[r.N(np)].Fill(r, d[k:])
		}
		return d
	})

	add("ctrlpairs", pick(thorough, 1, 8), 1<<20, func(r *gen.Rng, i int) []uint32 {
		n := min(65536*8, sc.MaxBig)
		off := uint32(r.U32())
		if i == 0 {
			off = 0
		}
		return sizesCase(r, n+i, func(k int) int {
			c := uint32(k/8) + off
			return int(c>>(2*uint(k%8))&3) + 1
		})
	})

	// Lengths from a million on, where an implementation might share the work
	// out, with every remainder modulo 16 and other numbers of processors.
	big := []int{1000003, 3000000, 3999999, 2097153 + 4, 1<<22 - 2, 1<<22 + 6, 5000009, 7<<20 + 11, 1<<23 + 15, 10000001, 1<<24 + 1}
	if thorough {
		big = append(big, 16777216+12, 33554435, 50000000, 67108869)
	}
	bigs := [2][]int{}
	for _, n := range big {
		if n <= sc.MaxBig {
			k := len(bigs[0]) - len(bigs[1])
			bigs[k] = append(bigs[k], n)
		}
	}
	pats := []string{"uniform", "class", "len1", "gaps", "smallbig", "walk", "max", "len3"}
	for k, procs := range []int{3, 40} {
		bigs := bigs[k]
		if len(bigs) > 0 {
			add("big"+string(rune('A'+k)), len(bigs), 1<<26, func(r *gen.Rng, i int) []uint32 {
				n := bigs[i]
				if i%3 == 2 {
					n = min(n+r.N(48), sc.MaxBig)
				}
				d := make([]uint32, n)
				gen.Patterns[gen.PatternIndex(pats[(2*i+k)%len(pats)])].Fill(r, d)
				return d
			})
			ps[len(ps)-1].Procs = procs
		}
	}
	return ps
}

// deltaVariants calls body with nums as values and as differences, each with a
// base of its own.
func deltaVariants(r *gen.Rng, nums []uint32, body func(nums []uint32, prev uint32)) {
	prev := r.Prev(nums)
	body(nums, prev)
	prev = r.U32()
	if r.N(4) == 0 {
		prev = r.Prev(nums)
	}
	sums := make([]uint32, len(nums))
	p := prev
	for i, v := range nums {
		p += v
		sums[i] = p
	}
	body(sums, prev)
}

func buf32(w *rt.W, key string, n int) []uint32 {
	b := rt.State(w, key, func() *[]uint32 { return new([]uint32) })
	if cap(*b) < n {
		*b = make([]uint32, n+n/4+64)
	}
	return (*b)[:n]
}
func buf8(w *rt.W, key string, n int) []byte {
	b := rt.State(w, key, func() *[]byte { return new([]byte) })
	if cap(*b) < n {
		*b = make([]byte, n+n/4+64)
	}
	return (*b)[:n]
}

var variant = [2]string{"plain", "delta"}

func describe(nums []uint32, prev uint32, delta int) func() string {
	return func() string {
		if delta == 1 {
			return fmt.Sprintf("prev=%#x values %s", prev, rt.Nums(nums))
		}
		return "values " + rt.Nums(nums)
	}
}

// widths chooses byte lengths for the values of a stream.
func widths(w *rt.W, nums []uint32, minimal bool) []uint8 {
	sizes := buf8(w, "sizes", len(nums))
	mode := w.R.N(4)
	if minimal {
		mode = 0
	}
	for i, x := range nums {
		m := ref.Len(x)
		switch mode {
		case 1:
			m += w.R.N(5 - m)
		case 2:
			m = 4
		case 3:
			if w.R.N(8) == 0 {
				m += w.R.N(5 - m)
			}
		}
		sizes[i] = uint8(m)
	}
	return sizes
}
