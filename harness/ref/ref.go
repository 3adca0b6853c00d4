// Package ref is the reference model of the formats: written from the format
// description (README.md, "Group Varint format" / "Stream VByte format") as
// plainly as possible and sharing no code or table with the library.
package ref

// Len is the minimal number of bytes that hold v.
func Len(v uint32) int {
	switch {
	case v < 256:
		return 1
	case v < 65536:
		return 2
	case v < 16777216:
		return 3
	}
	return 4
}

// Ctrl is the control byte of up to 4 values; fields of absent values are zero.
func Ctrl(nums []uint32) byte {
	c := 0
	for i, v := range nums {
		c += (Len(v) - 1) * [4]int{1, 4, 16, 64}[i]
	}
	return byte(c)
}

// Ctrl8 is the control pair of 8 values, the first four in the low byte.
func Ctrl8(nums []uint32) uint16 {
	return uint16(Ctrl(nums[:4])) + 256*uint16(Ctrl(nums[4:8]))
}

// FieldLen is the length that field i (0..3) of a control byte stands for.
func FieldLen(c byte, i int) int {
	for ; i > 0; i-- {
		c /= 4
	}
	return int(c%4) + 1
}

// CtrlSize is the total number of data bytes of a full group.
func CtrlSize(c byte) int {
	return FieldLen(c, 0) + FieldLen(c, 1) + FieldLen(c, 2) + FieldLen(c, 3)
}

func AppendLE(dst []byte, v uint32, size int) []byte {
	for ; size > 0; size-- {
		dst = append(dst, byte(v%256))
		v /= 256
	}
	return dst
}

func LE(b []byte) uint32 {
	var v uint32
	for i := len(b) - 1; i >= 0; i-- {
		v = v*256 + uint32(b[i])
	}
	return v
}

// Data appends the minimal bytes of all nums.
func Data(dst []byte, nums []uint32) []byte {
	for _, v := range nums {
		dst = AppendLE(dst, v, Len(v))
	}
	return dst
}

// Encode is the canonical stream.
func Encode(dst []byte, nums []uint32) []byte {
	for i := 0; i < len(nums); i += 4 {
		j := i + 4
		if j > len(nums) {
			j = len(nums)
		}
		dst = append(dst, Ctrl(nums[i:j]))
	}
	return Data(dst, nums)
}

// EncodeSizes is a well-formed, possibly non-canonical stream: value i takes
// sizes[i] >= Len(nums[i]) bytes, unused fields of the last control byte come
// from pad.
func EncodeSizes(dst []byte, nums []uint32, sizes []uint8, pad byte) []byte {
	for i := 0; i < len(nums); i += 4 {
		c := 0
		for k, m := 0, 1; k < 4; k, m = k+1, m*4 {
			if i+k < len(nums) {
				c += (int(sizes[i+k]) - 1) * m
			} else {
				c += int(pad) / m % 4 * m
			}
		}
		dst = append(dst, byte(c))
	}
	for i, v := range nums {
		dst = AppendLE(dst, v, int(sizes[i]))
	}
	return dst
}

// Deltas are the wrapped differences.
func Deltas(dst, nums []uint32, prev uint32) []uint32 {
	for _, v := range nums {
		dst = append(dst, v-prev)
		prev = v
	}
	return dst
}

// Sums are the wrapped running sums, the inverse of Deltas.
func Sums(dst, nums []uint32, prev uint32) []uint32 {
	for _, v := range nums {
		prev += v
		dst = append(dst, prev)
	}
	return dst
}

// Uvarint appends unsigned LEB128.
func Uvarint(dst []byte, v uint32) []byte {
	for v >= 128 {
		dst = append(dst, byte(v%128)+128)
		v /= 128
	}
	return append(dst, byte(v))
}
