package checks

import (
	"fmt"
	"math/bits"
	"sort"
	"sync"

	"svbverif/gen"
)

// Orders that take some ways to sort much longer than others: well-known ones,
// and ones an adversary (McIlroy, "A killer adversary for quicksort") found by
// answering the comparisons of several quicksorts.

type order func(r *gen.Rng, d []uint32)

var (
	sortOrders = map[string]order{
		"organ pipe": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = uint32(min(i, len(d)-i)) + 1
			}
		},
		"valley": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = uint32(max(i, len(d)-i))
			}
		},
		"nearly sorted": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = uint32(i) * 100
			}
			for k := 0; k < 20; k++ {
				d[r.N(len(d))] = r.U32()
			}
		},
		"sorted, then a small one": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = uint32(i)*2 + 3
			}
			d[len(d)-1] = 1
		},
		"sorted, rotated": func(r *gen.Rng, d []uint32) {
			k := 1 + r.N(len(d)-1)
			for i := range d {
				d[i] = uint32((i + k) % len(d))
			}
		},
		"two sorted halves": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = uint32(i*2%len(d)+i*2/len(d)) + 1
			}
		},
		"bits reversed": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = bits.Reverse32(uint32(i))
			}
			d[0] = 1
		},
		"few values": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = 5 + uint32(r.N(2+r.N(2)))
			}
		},
		"equal high halves": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = 77<<16 | r.U32()&0xffff
			}
		},
		"equal low halves": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = r.U32()<<16 | 9
			}
		},
		"all but one equal": func(r *gen.Rng, d []uint32) {
			for i := range d {
				d[i] = 8
			}
			d[r.N(len(d))] = 3
		},
		"Musser": func(r *gen.Rng, d []uint32) {
			for i, k := 0, len(d)/2; i < len(d); i++ {
				switch {
				case i >= k:
					d[i] = uint32(2 * (i - k + 1))
				case i%2 == 0:
					d[i] = uint32(i + 1)
				default:
					d[i] = uint32(k + i)
				}
			}
		},
	}
	sortNames []string
)

func init() {
	for pivot := range pivots {
		for _, hoare := range []bool{false, true} {
			const n = 1 << 15
			killer := sync.OnceValue(func() []uint32 { return adversary(n, pivot, hoare) })
			sortOrders[fmt.Sprintf("adversary of pivot %d, Hoare partition %v", pivot, hoare)] = func(r *gen.Rng, d []uint32) {
				if len(d) == n {
					copy(d, killer())
				} else if len(d) < n {
					d[0] = 1 // too short to tell
				}
			}
		}
	}
	for name := range sortOrders {
		sortNames = append(sortNames, name)
	}
	sort.Strings(sortNames)
}

type lessFunc func(a, b int32) bool

func med3(less lessFunc, a, b, c int32) int32 {
	if less(b, a) {
		a, b = b, a
	}
	if less(c, b) {
		b = c
		if less(b, a) {
			b = a
		}
	}
	return b
}

// pivots choose a value of v.
var pivots = []func(less lessFunc, v []int32) int32{
	func(less lessFunc, v []int32) int32 { return v[0] },
	func(less lessFunc, v []int32) int32 { return v[len(v)/2] },
	func(less lessFunc, v []int32) int32 { return v[len(v)-1] },
	func(less lessFunc, v []int32) int32 { return med3(less, v[0], v[len(v)/2], v[len(v)-1]) },
	func(less lessFunc, v []int32) int32 { return med3(less, v[0], v[(len(v)-1)/2], v[len(v)-1]) },
	func(less lessFunc, v []int32) int32 {
		n := len(v)
		s := n / 8
		m := n / 2
		return med3(less, med3(less, v[0], v[s], v[2*s]), med3(less, v[m-s], v[m], v[m+s]), med3(less, v[n-1-2*s], v[n-1-s], v[n-1]))
	},
}

// adversary is a permutation that takes the quicksort quadratic time.
func adversary(n, pivot int, hoare bool) []uint32 {
	const gas = int32(1 << 30)
	val := make([]int32, n)
	items := make([]int32, n)
	for i := range val {
		val[i] = gas
		items[i] = int32(i)
	}
	solid, candidate := int32(0), int32(0)
	less := func(a, b int32) bool {
		if val[a] == gas && val[b] == gas {
			if a == candidate {
				val[a] = solid
			} else {
				val[b] = solid
			}
			solid++
		}
		if val[a] == gas {
			candidate = a
		} else if val[b] == gas {
			candidate = b
		}
		return val[a] < val[b]
	}
	var sorted func(v []int32)
	sorted = func(v []int32) {
		for len(v) > 12 {
			p := pivots[pivot](less, v)
			var lo, hi []int32
			if hoare {
				i, j := 0, len(v)-1
				for i <= j {
					for v[i] != p && less(v[i], p) {
						i++
					}
					for v[j] != p && less(p, v[j]) {
						j--
					}
					if i <= j {
						v[i], v[j] = v[j], v[i]
						i++
						j--
					}
				}
				lo, hi = v[:j+1], v[i:]
			} else {
				last := len(v) - 1
				for k := range v {
					if v[k] == p {
						v[k], v[last] = v[last], v[k]
						break
					}
				}
				k := 0
				for i := 0; i < last; i++ {
					if less(v[i], p) {
						v[i], v[k] = v[k], v[i]
						k++
					}
				}
				v[k], v[last] = v[last], v[k]
				lo, hi = v[:k], v[k+1:]
			}
			if len(lo) < len(hi) {
				sorted(lo)
				v = hi
			} else {
				sorted(hi)
				v = lo
			}
		}
		for i := range v {
			for j := i; j > 0 && less(v[j], v[j-1]); j-- {
				v[j], v[j-1] = v[j-1], v[j]
			}
		}
	}
	sorted(items)
	out := make([]uint32, n)
	for i, x := range val {
		if x == gas {
			x = solid
		}
		out[i] = uint32(x) + 1
	}
	return out
}
