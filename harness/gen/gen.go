// Package gen makes workloads, each fully determined by a seed.
package gen

// Rng is splitmix64.
type Rng uint64

func New(parts ...uint64) Rng {
	r := Rng(0x9e3779b97f4a7c15)
	for _, p := range parts {
		r = Rng(uint64(r) ^ p*0xd6e8feb86659fd93)
		r.U64()
		r = Rng(r.U64())
	}
	return r
}

func (r *Rng) U64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) U32() uint32 { return uint32(r.U64() >> 32) }

// N is uniform in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int((r.U64() >> 1) % uint64(n))
}

// Edge values around every byte-length boundary and other awkward bit patterns.
var Edges = []uint32{
	0, 1, 2, 0x7e, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x1fe, 0x1ff, 0x200, 0x7f00, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff,
	0x10000, 0x10001, 0x100ff, 0x1ff00, 0x7fffff, 0x800000, 0xff0000, 0xff00ff, 0xfffffe, 0xffffff,
	0x1000000, 0x1000001, 0x10000ff, 0x1010101, 0x1ff0000, 0x7f7f7f7f, 0x7fffffff, 0x80000000, 0x80000001, 0x80808080,
	0xff000000, 0xff0000ff, 0xff00ff00, 0xffff0000, 0xfffffffe, 0xffffffff,
}

// OfLen is a value that takes exactly size bytes; mode 0 is the smallest, 1 the
// largest, others random.
func (r *Rng) OfLen(size, mode int) uint32 {
	lo := [5]uint32{0, 0, 1 << 8, 1 << 16, 1 << 24}[size]
	hi := [5]uint32{0, 1<<8 - 1, 1<<16 - 1, 1<<24 - 1, 1<<32 - 1}[size]
	switch mode {
	case 0:
		return lo
	case 1:
		return hi
	}
	return lo + uint32(r.U64()%(uint64(hi)-uint64(lo)+1))
}

// Class is random with each byte length equally likely.
func (r *Rng) Class() uint32 { return r.OfLen(1+r.N(4), 2) }

type pattern struct {
	Name string
	Fill func(r *Rng, d []uint32)
}

func each(f func(r *Rng, i int) uint32) func(*Rng, []uint32) {
	return func(r *Rng, d []uint32) {
		for i := range d {
			d[i] = f(r, i)
		}
	}
}

func insertionLimitSort(d []uint32) {
	// LSD radix sort; no dependence on package sort.
	if len(d) < 2 {
		return
	}
	tmp := make([]uint32, len(d))
	for s := uint(0); s < 32; s += 8 {
		var n [257]int
		for _, v := range d {
			n[v>>s&255+1]++
		}
		for i := 0; i < 256; i++ {
			n[i+1] += n[i]
		}
		for _, v := range d {
			tmp[n[v>>s&255]] = v
			n[v>>s&255]++
		}
		copy(d, tmp)
	}
}

// Sort ascending.
func Sort(d []uint32) { insertionLimitSort(d) }

var Patterns = []pattern{
	{"zeros", each(func(r *Rng, i int) uint32 { return 0 })},
	{"max", each(func(r *Rng, i int) uint32 { return 0xffffffff })},
	{"len1", each(func(r *Rng, i int) uint32 { return r.OfLen(1, 2) })},
	{"len2", each(func(r *Rng, i int) uint32 { return r.OfLen(2, 2) })},
	{"len3", each(func(r *Rng, i int) uint32 { return r.OfLen(3, 2) })},
	{"len4", each(func(r *Rng, i int) uint32 { return r.OfLen(4, 2) })},
	{"class", each(func(r *Rng, i int) uint32 { return r.Class() })},
	{"edges", each(func(r *Rng, i int) uint32 { return Edges[r.N(len(Edges))] })},
	{"uniform", each(func(r *Rng, i int) uint32 { return r.U32() })},
	{"minmaxlen", each(func(r *Rng, i int) uint32 { return r.OfLen(1+r.N(4), r.N(2)) })},
	{"ctrlsweep", func(r *Rng, d []uint32) {
		off := uint32(r.U32())
		for i := range d {
			c := (uint32(i/4) + off) >> (2 * uint(i%4))
			d[i] = r.OfLen(int(c&3)+1, 2)
		}
	}},
	{"lencycle", func(r *Rng, d []uint32) {
		o := r.N(4)
		for i := range d {
			d[i] = r.OfLen(1+(i+o)%4, 2)
		}
	}},
	{"runs", func(r *Rng, d []uint32) {
		s, left := 1, 0
		for i := range d {
			if left == 0 {
				s, left = 1+r.N(4), 1+r.N(40)
			}
			left--
			d[i] = r.OfLen(s, 2)
		}
	}},
	{"construns", func(r *Rng, d []uint32) {
		var v uint32
		left := 0
		for i := range d {
			if left == 0 {
				v, left = r.Class(), 1+r.N(50)
			}
			left--
			d[i] = v
		}
	}},
	{"smallbig", func(r *Rng, d []uint32) {
		for i := range d {
			d[i] = uint32(r.N(4))
		}
		for k := 0; k < 1+len(d)/50 && len(d) > 0; k++ {
			d[r.N(len(d))] = r.OfLen(2+r.N(3), 2)
		}
	}},
	{"bigsmall", func(r *Rng, d []uint32) {
		for i := range d {
			d[i] = r.OfLen(4, 2)
		}
		for k := 0; k < 1+len(d)/50 && len(d) > 0; k++ {
			d[r.N(len(d))] = r.OfLen(1+r.N(3), 2)
		}
	}},
	{"smalltail", func(r *Rng, d []uint32) {
		t := r.N(24)
		for i := range d {
			if len(d)-i <= t {
				d[i] = r.OfLen(1, 2)
			} else {
				d[i] = r.Class()
			}
		}
	}},
	{"bigtail", func(r *Rng, d []uint32) {
		t := r.N(24)
		for i := range d {
			if len(d)-i <= t {
				d[i] = r.OfLen(4, 2)
			} else {
				d[i] = r.OfLen(1, 2)
			}
		}
	}},
	{"alternate", func(r *Rng, d []uint32) {
		a, b := r.Class(), r.Class()
		for i := range d {
			d[i] = a
			if i&1 == 1 {
				d[i] = b
			}
		}
	}},
	{"bits", each(func(r *Rng, i int) uint32 { return 1 << uint(r.N(32)) })},
	{"bytemask", each(func(r *Rng, i int) uint32 {
		v := r.U32()
		for k := uint(0); k < 4; k++ {
			if r.N(2) == 0 {
				v &^= 0xff << (8 * k)
			}
		}
		return v
	})},
	{"sorted", func(r *Rng, d []uint32) {
		for i := range d {
			d[i] = r.Class()
		}
		Sort(d)
	}},
	{"reverse", func(r *Rng, d []uint32) {
		for i := range d {
			d[i] = r.Class()
		}
		Sort(d)
		for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
			d[i], d[j] = d[j], d[i]
		}
	}},
	{"gaps", func(r *Rng, d []uint32) {
		v := r.Class()
		for i := range d {
			v += uint32(r.N(300))
			d[i] = v
		}
	}},
	{"arith", func(r *Rng, d []uint32) {
		v, s := r.Class(), r.Class()
		for i := range d {
			d[i] = v
			v += s
		}
	}},
	{"walk", func(r *Rng, d []uint32) {
		v := r.U32()
		for i := range d {
			if r.N(2) == 0 {
				v += r.Class()
			} else {
				v -= r.Class()
			}
			d[i] = v
		}
	}},
	{"sawtooth", func(r *Rng, d []uint32) {
		p := 1 + r.N(40)
		s := r.Class() / 8
		for i := range d {
			d[i] = uint32(i%p) * s
		}
	}},
}

func PatternIndex(name string) int {
	for i, p := range Patterns {
		if p.Name == name {
			return i
		}
	}
	panic("no pattern " + name)
}

// Prevs are bases for differential coding.
func (r *Rng) Prev(nums []uint32) uint32 {
	switch k := r.N(8); {
	case k == 0:
		return 0
	case k == 1:
		return 0xffffffff
	case k == 2 && len(nums) > 0:
		return nums[0]
	case k == 3 && len(nums) > 0:
		return nums[0] + 1
	case k == 4 && len(nums) > 0:
		return nums[0] - r.Class()
	case k == 5:
		return Edges[r.N(len(Edges))]
	}
	return r.U32()
}

// Hash is FNV-1a style over words, for counting distinct cases.
func Hash(h uint64, nums []uint32) uint64 {
	for _, v := range nums {
		h = (h ^ uint64(v)) * 0x100000001b3
		h ^= h >> 29
	}
	return h
}
func HashBytes(h uint64, b []byte) uint64 {
	for _, v := range b {
		h = (h ^ uint64(v)) * 0x100000001b3
	}
	return h ^ h>>31
}
