package h

import "github.com/gagliardetto/binary/zz_verif/sym"

// el is element i of n (w bytes, little-endian): the first, middle and last of a list are symbolic.
func (b *B) el(i, n, w int) uint64 {
	x := uint64(i)*0x0101010101010101*3 + uint64(i)
	if i == 0 || i == n-1 || i == n/2 {
		x = sym.U64("el")
	}
	b.out = le(b.out, x, w)
	return x
}

var sizesShort = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 30, 31, 32, 33, 34, 40, 47, 48, 49, 50, 60, 63, 64, 65, 72, 80, 96, 99, 100, 101, 126, 129, 130,
	192, 200, 254, 257, 384, 500, 511, 512, 513}
var sizesLong = []int{768, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001, 12288, 32767, 32768, 32769}
var sizesHuge = []int{65537, 100000, 100001, 131072, 131073, 1 << 18, 1000001, 1<<20 - 1, 1 << 20, 1<<20 + 1}

// size picks one of the sizes.
func (b *B) size(s []int) int {
	if b.few {
		s = []int{8, 9, 17, 33, 65, 130, 257}
	}
	return s[sym.Choose("size", len(s))]
}

// Byte strings and strings of many lengths.
func mkSizeB(b *B) (interface{}, interface{}) {
	n := b.size(append(append(append([]int{}, sizesShort...), sizesLong...), sizesHuge...))
	if n > 65537 && !b.bigMap {
		sym.Assume(false)
	}
	if sym.Choose("string", 2) == 1 {
		v := b.str(n)
		return &v, new(string)
	}
	v := b.bytes(n)
	return &v, new([]byte)
}

type szIn struct {
	A uint8
	B []uint8
}

// Lists of many lengths.
func mkSizeL(b *B) (interface{}, interface{}) {
	k := sym.Choose("kind", 10)
	s := sizesShort
	if k < 4 {
		s = append(append([]int{}, s...), 768, 1023, 1024, 1025, 2049, 4096, 4097)
	}
	n := b.size(s)
	b.length(n)
	switch k {
	case 0:
		v := make([]uint16, n)
		for i := range v {
			v[i] = uint16(b.el(i, n, 2))
		}
		return &v, new([]uint16)
	case 1:
		v := make([]uint32, n)
		for i := range v {
			v[i] = uint32(b.el(i, n, 4))
		}
		return &v, new([]uint32)
	case 2:
		v := make([]uint64, n)
		for i := range v {
			v[i] = b.el(i, n, 8)
		}
		return &v, new([]uint64)
	case 3:
		v := make([]int32, n)
		for i := range v {
			v[i] = int32(b.el(i, n, 4))
		}
		return &v, new([]int32)
	case 4:
		v := make([]int8, n)
		for i := range v {
			v[i] = int8(b.el(i, n, 1))
		}
		return &v, new([]int8)
	case 5:
		v := make([]bool, n)
		for i := range v {
			v[i] = i%3 == 0
			if i == 0 || i == n-1 {
				v[i] = b.boolean()
			} else if v[i] {
				b.out = append(b.out, 1)
			} else {
				b.out = append(b.out, 0)
			}
		}
		return &v, new([]bool)
	case 6:
		v := make([]inner2, n)
		for i := range v {
			v[i].A = uint8(b.el(i, n, 1))
		}
		return &v, new([]inner2)
	case 7:
		v := make([]szIn, n)
		for i := range v {
			v[i].A = uint8(b.el(i, n, 1))
			b.length(i & 1)
			v[i].B = make([]uint8, i&1)
			for j := range v[i].B {
				v[i].B[j] = uint8(b.el(i, n, 1))
			}
		}
		return &v, new([]szIn)
	case 8:
		v := make([]string, n)
		for i := range v {
			b.out = refStrLen(b.out, b.e, i&1+1)
			x := []byte{uint8(b.el(i, n, 1))}
			if i&1 == 1 {
				x = append(x, uint8(b.el(i, n, 1)))
			}
			v[i] = string(x)
		}
		return &v, new([]string)
	}
	v := make([]*inner2, n)
	for i := range v {
		v[i] = &inner2{A: uint8(b.el(i, n, 1))}
	}
	return &v, new([]*inner2)
}

// Maps of many sizes; Borsh sorts, so entries are inserted in descending order.
func mkSizeM(b *B) (interface{}, interface{}) {
	n := b.size(sizesShort)
	b.free = b.e != eBorsh && n > 1
	b.length(n)
	if sym.Choose("string keys", 2) == 1 {
		v := map[string]uint8{}
		for i := n - 1; i >= 0; i-- {
			v[string([]byte{byte(i >> 8), byte(i)})] = byte(i * 5)
		}
		last := sym.U8("last")
		v[string([]byte{byte((n - 1) >> 8), byte(n - 1)})] = last
		for i := 0; i < n; i++ {
			b.out = refStrLen(b.out, b.e, 2)
			b.out = append(b.out, byte(i>>8), byte(i))
			if i == n-1 {
				b.out = append(b.out, last)
			} else {
				b.out = append(b.out, byte(i*5))
			}
		}
		return &v, new(map[string]uint8)
	}
	v := map[uint32]uint16{}
	vals := make([]uint16, n)
	for i := 0; i < n; i++ {
		b.out = le(b.out, uint64(i)*3, 4)
		vals[i] = uint16(b.el(i, n, 2))
	}
	for i := n - 1; i >= 0; i-- {
		v[uint32(i)*3] = vals[i]
	}
	return &v, new(map[uint32]uint16)
}

type tTree struct {
	V    uint8
	Kids []tTree
}

// Deep values: linked lists and trees of many levels.
func mkDeep(b *B) (interface{}, interface{}) {
	n := b.size([]int{3, 5, 8, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 1025, 4000})
	if sym.Choose("tree", 2) == 1 {
		root := &tTree{}
		p := root
		for i := 0; i < n; i++ {
			p.V = uint8(b.el(i, n, 1))
			if i+1 < n {
				b.length(1)
				p.Kids = make([]tTree, 1)
				p = &p.Kids[0]
			} else {
				b.length(0)
				p.Kids = []tTree{}
			}
		}
		return root, &tTree{}
	}
	var head *tList
	p := &head
	for i := 0; i < n; i++ {
		x := &tList{V: uint16(b.el(i, n, 2))}
		*p = x
		p = &x.Next
		b.opt(i+1 < n)
	}
	return head, &tList{}
}

func mkArrays2(b *B) (interface{}, interface{}) {
	switch sym.Choose("arr", 10) {
	case 0:
		return mkArrU8(b)
	case 1:
		return mkArrU16(b)
	case 2:
		return mkArrU32(b)
	case 3:
		return mkArrU64(b)
	case 4:
		return mkArrI8(b)
	case 5:
		return mkArrI16(b)
	case 6:
		return mkArrI32(b)
	case 7:
		return mkArrI64(b)
	case 8:
		return mkArrSt(b)
	}
	return mkWide(b)
}
