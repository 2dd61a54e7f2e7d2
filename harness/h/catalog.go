package h

import (
	"fmt"
	"math"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// B draws symbolic leaves and writes, beside the value, the bytes the format
// specification prescribes for it (independently of the code under test).
type B struct {
	e    int
	out  []byte
	free bool // entry order unspecified (multi-entry map outside Borsh): out holds one valid order
	bad  bool // the encoding cannot represent the value: an error is required
	// bigMap: maps of up to 65536 entries too
	bigMap bool
	// many: maps made on the fly have two entries in every encoding
	many bool
	// few: a handful of the many sizes
	few bool
}

func (b *B) pick(name string, opts ...int) int { return opts[sym.Choose(name, len(opts))] }

func (b *B) big(big bool) bool { return big && b.e != eBorsh }

func (b *B) boolean() bool {
	v := sym.Bool("bool")
	b.out = append(b.out, sym.IteU8(v, 1, 0))
	return v
}

func (b *B) u8() uint8 {
	v := sym.U8("u8")
	b.out = append(b.out, v)
	return v
}

func (b *B) i8() int8 {
	v := sym.I8("i8")
	b.out = append(b.out, byte(v))
	return v
}

func (b *B) u16(big bool) uint16 {
	v := sym.U16("u16")
	b.out = ord(b.out, uint64(v), 2, b.big(big))
	return v
}

func (b *B) i16(big bool) int16 {
	v := sym.I16("i16")
	b.out = ord(b.out, uint64(uint16(v)), 2, b.big(big))
	return v
}

func (b *B) u32(big bool) uint32 {
	v := sym.U32("u32")
	b.out = ord(b.out, uint64(v), 4, b.big(big))
	return v
}

func (b *B) i32(big bool) int32 {
	v := sym.I32("i32")
	b.out = ord(b.out, uint64(uint32(v)), 4, b.big(big))
	return v
}

func (b *B) u64(big bool) uint64 {
	v := sym.U64("u64")
	b.out = ord(b.out, v, 8, b.big(big))
	return v
}

func (b *B) i64(big bool) int64 {
	v := sym.I64("i64")
	b.out = ord(b.out, uint64(v), 8, b.big(big))
	return v
}

func isNaN32(u uint32) bool { return u&0x7f800000 == 0x7f800000 && u&0x007fffff != 0 }
func isNaN64(u uint64) bool {
	return u&0x7ff0000000000000 == 0x7ff0000000000000 && u&0x000fffffffffffff != 0
}

func (b *B) f32(big bool) float32 {
	u := sym.U32("f32")
	sym.Assume(sym.Not(sym.And(u&0x7f800000 == 0x7f800000, u&0x007fffff != 0)))
	b.out = ord(b.out, uint64(u), 4, b.big(big))
	return math.Float32frombits(u)
}

func (b *B) f64(big bool) float64 {
	u := sym.U64("f64")
	sym.Assume(sym.Not(sym.And(u&0x7ff0000000000000 == 0x7ff0000000000000, u&0x000fffffffffffff != 0)))
	b.out = ord(b.out, u, 8, b.big(big))
	return math.Float64frombits(u)
}

func (b *B) u128(order bool) bin.Uint128 {
	lo, hi := sym.U64("lo"), sym.U64("hi")
	if order {
		b.out = be(be(b.out, hi, 8), lo, 8)
	} else {
		b.out = le(le(b.out, lo, 8), hi, 8)
	}
	return bin.Uint128{Lo: lo, Hi: hi}
}

// raw draws n symbolic bytes, with the middle of long runs concrete.
func (b *B) raw(n int) []byte {
	var v []byte
	if n <= 24 {
		v = sym.Bytes("raw", n)
	} else {
		v = make([]byte, n)
		for i := range v {
			v[i] = byte(i*7 + 1)
		}
		copy(v, sym.Bytes("raw", 4))
		copy(v[n-4:], sym.Bytes("rawend", 4))
		v[n/2] = sym.U8("rawmid")
	}
	return v
}

func (b *B) length(n int) {
	if b.e == eCompact && n > 65535 {
		b.bad = true
	}
	b.out = refLen(b.out, b.e, n)
}

func (b *B) bytes(n int) []byte {
	b.length(n)
	v := b.raw(n)
	b.out = append(b.out, v...)
	return v
}

func (b *B) str(n int) string {
	if b.e == eCompact && n > 65535 {
		b.bad = true
	}
	b.out = refStrLen(b.out, b.e, n)
	v := b.raw(n)
	b.out = append(b.out, v...)
	return string(v)
}

func (b *B) opt(present bool) { b.out = refOpt(b.out, b.e, present) }

func (b *B) present() bool { return sym.Choose("present", 2) == 1 }

// ---- types ----

type (
	nBool bool
	nU8   uint8
	nI8   int8
	nU16  uint16
	nI16  int16
	nU32  uint32
	nI32  int32
	nU64  uint64
	nI64  int64
	nF32  float32
	nF64  float64
	nStr  string
	nRaw  []byte
	nArr  [3]byte
	nU16s []uint16
)

type tScalars struct {
	A bool
	B uint8
	C int8
	D uint16
	E int16
	F uint32
	G int32
	H uint64
	I int64
	J float32
	K float64
	L string
}

func mkScalars(b *B) (interface{}, interface{}) {
	v := &tScalars{}
	v.A = b.boolean()
	v.B = b.u8()
	v.C = b.i8()
	v.D = b.u16(false)
	v.E = b.i16(false)
	v.F = b.u32(false)
	v.G = b.i32(false)
	v.H = b.u64(false)
	v.I = b.i64(false)
	v.J = b.f32(false)
	v.K = b.f64(false)
	v.L = b.str(b.pick("strlen", 0, 1, 3))
	return v, &tScalars{}
}

type tNamed struct {
	A nBool
	B nU8
	C nI8
	D nU16
	E nI16
	F nU32
	G nI32
	H nU64
	I nI64
	J nF32
	K nF64
	L nStr
	M nRaw
	N nArr
	O nU16s
}

func mkNamed(b *B) (interface{}, interface{}) {
	v := &tNamed{}
	v.A = nBool(b.boolean())
	v.B = nU8(b.u8())
	v.C = nI8(b.i8())
	v.D = nU16(b.u16(false))
	v.E = nI16(b.i16(false))
	v.F = nU32(b.u32(false))
	v.G = nI32(b.i32(false))
	v.H = nU64(b.u64(false))
	v.I = nI64(b.i64(false))
	v.J = nF32(b.f32(false))
	v.K = nF64(b.f64(false))
	v.L = nStr(b.str(2))
	v.M = nRaw(b.bytes(b.pick("len", 0, 2)))
	copy(v.N[:], b.arr(3))
	n := b.pick("len16", 0, 2)
	b.length(n)
	for i := 0; i < n; i++ {
		v.O = append(v.O, b.u16(false))
	}
	return v, &tNamed{}
}

func (b *B) arr(n int) []byte {
	v := b.raw(n)
	b.out = append(b.out, v...)
	return v
}

type tBig struct {
	A uint16  `bin:"big"`
	B int16   `bin:"big"`
	C uint32  `bin:"big"`
	D int32   `bin:"little"`
	E uint64  `bin:"big"`
	F int64   `bin:"big"`
	G float32 `bin:"big"`
	H float64 `bin:"big"`
	I uint32
	J bool               `bin:"big"`
	K []uint16           `bin:"big"`
	L [2]uint32          `bin:"big"`
	M string             `bin:"big"`
	N []int32            `bin:"big"`
	O struct{ P uint16 } `bin:"big"`
	Q int32              `bin:"big"`
	R nU32               `bin:"big"`
	S uint16
}

func mkBig(b *B) (interface{}, interface{}) {
	v := &tBig{}
	v.A = b.u16(true)
	v.B = b.i16(true)
	v.C = b.u32(true)
	v.D = b.i32(false)
	v.E = b.u64(true)
	v.F = b.i64(true)
	v.G = b.f32(true)
	v.H = b.f64(true)
	v.I = b.u32(false)
	v.J = b.boolean()
	b.length(2)
	v.K = []uint16{b.u16(false), b.u16(false)}
	v.L = [2]uint32{b.u32(false), b.u32(false)}
	v.M = b.str(1)
	b.length(1)
	v.N = []int32{b.i32(false)}
	v.O.P = b.u16(false)
	v.Q = b.i32(true)
	v.R = nU32(b.u32(true))
	v.S = b.u16(false)
	return v, &tBig{}
}

type inner struct {
	X uint16
	Y []byte
	Z string
}

func (b *B) inner() inner {
	var v inner
	v.X = b.u16(false)
	v.Y = b.bytes(1)
	v.Z = b.str(1)
	return v
}

type tArrays struct {
	A [3]uint8
	B [2]uint16
	C [2]uint32
	D [2]uint64
	E [2]int8
	F [2]int16
	G [2]int32
	H [2]int64
	I [2]bool
	J [2]float32
	K [2]float64
	L [2]string
	M [2]inner
	N [2][2]uint8
	O [2][]byte
	P [0]uint8
	Q [0]int32
	R [2]nU8
	S [2]nU16
	T [2]nU32
	U [2]nU64
	V [1]uint8
}

func mkArrays(b *B) (interface{}, interface{}) {
	v := &tArrays{}
	copy(v.A[:], b.arr(3))
	for i := 0; i < 2; i++ {
		v.B[i] = b.u16(false)
	}
	for i := 0; i < 2; i++ {
		v.C[i] = b.u32(false)
	}
	for i := 0; i < 2; i++ {
		v.D[i] = b.u64(false)
	}
	for i := 0; i < 2; i++ {
		v.E[i] = b.i8()
	}
	for i := 0; i < 2; i++ {
		v.F[i] = b.i16(false)
	}
	for i := 0; i < 2; i++ {
		v.G[i] = b.i32(false)
	}
	for i := 0; i < 2; i++ {
		v.H[i] = b.i64(false)
	}
	for i := 0; i < 2; i++ {
		v.I[i] = b.boolean()
	}
	for i := 0; i < 2; i++ {
		v.J[i] = b.f32(false)
	}
	for i := 0; i < 2; i++ {
		v.K[i] = b.f64(false)
	}
	for i := 0; i < 2; i++ {
		v.L[i] = b.str(i + 1)
	}
	for i := 0; i < 2; i++ {
		v.M[i] = b.inner()
	}
	for i := 0; i < 2; i++ {
		copy(v.N[i][:], b.arr(2))
	}
	for i := 0; i < 2; i++ {
		v.O[i] = b.bytes(2 - i)
	}
	for i := 0; i < 2; i++ {
		v.R[i] = nU8(b.u8())
	}
	for i := 0; i < 2; i++ {
		v.S[i] = nU16(b.u16(false))
	}
	for i := 0; i < 2; i++ {
		v.T[i] = nU32(b.u32(false))
	}
	for i := 0; i < 2; i++ {
		v.U[i] = nU64(b.u64(false))
	}
	copy(v.V[:], b.arr(1))
	return v, &tArrays{}
}

type tSlices struct {
	A []uint8
	B []uint16
	C []uint32
	D []uint64
	E []int8
	F []int16
	G []int32
	H []int64
	I []bool
	J []float32
	K []float64
	L []string
	M []inner
	N [][]byte
	O []*inner
	P [][2]uint16
	R []nU8
	S []nU16
	T []nU32
	U []nU64
	V []*uint32
}

// one list length for every field of a path
func mkSlices(b *B) (interface{}, interface{}) {
	v := &tSlices{}
	n := b.pick("len", 0, 1, 2)
	m := b.pick("inner", 0, 2)
	if n == 0 && sym.Choose("nonnil", 2) == 1 {
		v = &tSlices{A: []uint8{}, B: []uint16{}, C: []uint32{}, D: []uint64{}, E: []int8{}, F: []int16{}, G: []int32{}, H: []int64{}, I: []bool{},
			J: []float32{}, K: []float64{}, L: []string{}, M: []inner{}, N: [][]byte{}, O: []*inner{}, P: [][2]uint16{}, R: []nU8{}, S: []nU16{}, T: []nU32{}, U: []nU64{}, V: []*uint32{}}
	}
	add := func(f func()) {
		b.length(n)
		for i := 0; i < n; i++ {
			f()
		}
	}
	add(func() { v.A = append(v.A, b.u8()) })
	add(func() { v.B = append(v.B, b.u16(false)) })
	add(func() { v.C = append(v.C, b.u32(false)) })
	add(func() { v.D = append(v.D, b.u64(false)) })
	add(func() { v.E = append(v.E, b.i8()) })
	add(func() { v.F = append(v.F, b.i16(false)) })
	add(func() { v.G = append(v.G, b.i32(false)) })
	add(func() { v.H = append(v.H, b.i64(false)) })
	add(func() { v.I = append(v.I, b.boolean()) })
	add(func() { v.J = append(v.J, b.f32(false)) })
	add(func() { v.K = append(v.K, b.f64(false)) })
	add(func() { v.L = append(v.L, b.str(m)) })
	add(func() { v.M = append(v.M, b.inner()) })
	add(func() { v.N = append(v.N, b.bytes(m)) })
	add(func() { x := b.inner(); v.O = append(v.O, &x) })
	add(func() { v.P = append(v.P, [2]uint16{b.u16(false), b.u16(false)}) })
	add(func() { v.R = append(v.R, nU8(b.u8())) })
	add(func() { v.S = append(v.S, nU16(b.u16(false))) })
	add(func() { v.T = append(v.T, nU32(b.u32(false))) })
	add(func() { v.U = append(v.U, nU64(b.u64(false))) })
	add(func() { x := b.u32(false); v.V = append(v.V, &x) })
	return v, &tSlices{}
}

// top-level non-struct values
func mkTop(b *B) (interface{}, interface{}) {
	switch sym.Choose("kind", 16) {
	case 0:
		v := b.boolean()
		return &v, new(bool)
	case 1:
		v := b.u8()
		return &v, new(uint8)
	case 2:
		v := b.i16(false)
		return &v, new(int16)
	case 3:
		v := b.u32(false)
		return &v, new(uint32)
	case 4:
		v := b.i64(false)
		return &v, new(int64)
	case 5:
		v := b.f32(false)
		return &v, new(float32)
	case 6:
		v := b.f64(false)
		return &v, new(float64)
	case 7:
		v := b.str(3)
		return &v, new(string)
	case 8:
		v := b.bytes(3)
		return &v, new([]byte)
	case 9:
		var v [4]byte
		copy(v[:], b.arr(4))
		return &v, new([4]byte)
	case 10:
		b.length(2)
		v := []string{b.str(1), b.str(0)}
		return &v, new([]string)
	case 11:
		v := nU64(b.u64(false))
		return &v, new(nU64)
	case 12:
		x := b.u16(false)
		p := &x
		return &p, new(*uint16)
	case 13:
		b.length(1)
		v := []inner{b.inner()}
		return &v, new([]inner)
	case 14:
		x := b.inner()
		p := &x
		return &p, new(*inner)
	}
	v := nRaw(b.bytes(2))
	return &v, new(nRaw)
}

type tPtrs struct {
	A *uint8
	B *uint16
	C *int64
	D *string
	E *inner
	F **uint32
	G *[]uint16
	H *[2]uint8
	I *bool
	J *float32
	K *tPtrs2
	L *uint32 `bin:"big"`
}

type tPtrs2 struct {
	A *inner
	B *nStr
}

func mkPtrs(b *B) (interface{}, interface{}) {
	a := b.u8()
	bb := b.u16(false)
	c := b.i64(false)
	d := b.str(2)
	e := b.inner()
	f := b.u32(false)
	fp := &f
	b.length(2)
	g := []uint16{b.u16(false), b.u16(false)}
	var hh [2]uint8
	copy(hh[:], b.arr(2))
	i := b.boolean()
	j := b.f32(false)
	k := tPtrs2{}
	ki := b.inner()
	ks := nStr(b.str(1))
	k.A, k.B = &ki, &ks
	l := b.u32(true)
	v := &tPtrs{&a, &bb, &c, &d, &e, &fp, &g, &hh, &i, &j, &k, &l}
	return v, &tPtrs{}
}

// maps: keys drawn in ascending order, inserted in either order
func mkMaps(b *B) (interface{}, interface{}) {
	n := b.pick("entries", 0, 1, 2)
	rev := n == 2 && sym.Choose("reversed", 2) == 1
	if n == 2 && b.e != eBorsh {
		b.free = true
	}
	b.length(n)
	pre := sym.Choose("prenil", 2) == 1 && n == 0
	switch sym.Choose("map", 9) {
	case 0:
		v := map[uint8]uint16{}
		var ks []uint8
		var vs []uint16
		for i := 0; i < n; i++ {
			ks = append(ks, b.u8())
			vs = append(vs, b.u16(false))
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[uint8]uint16)
	case 1:
		v := map[string]string{}
		var ks []string
		var vs []string
		for i := 0; i < n; i++ {
			ks = append(ks, b.str(i+1))
			vs = append(vs, b.str(1))
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[string]string)
	case 2:
		v := map[int64]inner{}
		var ks []int64
		var vs []inner
		for i := 0; i < n; i++ {
			ks = append(ks, b.i64(false))
			vs = append(vs, b.inner())
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[int64]inner)
	case 3:
		v := map[uint64][]byte{}
		var ks []uint64
		var vs [][]byte
		for i := 0; i < n; i++ {
			ks = append(ks, b.u64(false))
			vs = append(vs, b.bytes(i))
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[uint64][]byte)
	case 4:
		v := map[int8]*uint32{}
		var ks []int8
		var vs []*uint32
		for i := 0; i < n; i++ {
			ks = append(ks, b.i8())
			x := b.u32(false)
			vs = append(vs, &x)
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[int8]*uint32)
	case 5:
		v := map[uint32]map[uint8]bool{}
		var ks []uint32
		var vs []map[uint8]bool
		for i := 0; i < n; i++ {
			ks = append(ks, b.u32(false))
			b.length(1)
			k := b.u8()
			vs = append(vs, map[uint8]bool{k: b.boolean()})
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[uint32]map[uint8]bool)
	case 6:
		v := map[nStr]nU16{}
		var ks []nStr
		var vs []nU16
		for i := 0; i < n; i++ {
			ks = append(ks, nStr(b.str(1)))
			vs = append(vs, nU16(b.u16(false)))
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[nStr]nU16)
	case 7:
		v := map[nU64]bool{}
		var ks []nU64
		var vs []bool
		for i := 0; i < n; i++ {
			ks = append(ks, nU64(b.u64(false)))
			vs = append(vs, b.boolean())
		}
		if n == 2 {
			sym.Assume(ks[0] < ks[1])
		}
		for i := range ks {
			j := i
			if rev {
				j = n - 1 - i
			}
			v[ks[j]] = vs[j]
		}
		if pre {
			v = nil
		}
		return &v, new(map[nU64]bool)
	}
	v := map[int16]string{}
	var ks []int16
	var vs []string
	for i := 0; i < n; i++ {
		ks = append(ks, b.i16(false))
		vs = append(vs, b.str(1))
	}
	if n == 2 {
		sym.Assume(ks[0] < ks[1])
	}
	for i := range ks {
		j := i
		if rev {
			j = n - 1 - i
		}
		v[ks[j]] = vs[j]
	}
	if pre {
		v = nil
	}
	return &v, new(map[int16]string)
}

type tMapIn struct {
	A uint8
	M map[uint16]uint8
	B uint16
	N map[string]inner
	C uint8
}

func mkMapIn(b *B) (interface{}, interface{}) {
	v := &tMapIn{}
	v.A = b.u8()
	n := b.pick("entries", 0, 1)
	b.length(n)
	if n == 1 {
		k := b.u16(false)
		v.M = map[uint16]uint8{k: b.u8()}
	}
	v.B = b.u16(false)
	b.length(n)
	if n == 1 {
		k := b.str(2)
		v.N = map[string]inner{k: b.inner()}
	}
	v.C = b.u8()
	return v, &tMapIn{}
}

// ---- optional ----

type tOpt struct {
	A uint8    `bin:"optional"`
	B uint32   `bin:"optional"`
	C int64    `bin:"option"`
	D bool     `bin:"optional"`
	E string   `bin:"optional"`
	F []byte   `bin:"optional"`
	G [2]uint8 `bin:"optional"`
	H inner    `bin:"optional"`
	I float64  `bin:"optional"`
	Z uint8
}

// every field independently symbolic; a path decides which are zero
func mkOpt(b *B) (interface{}, interface{}) {
	v := &tOpt{}
	which := sym.Choose("field", 9)
	p := b.present()
	if !p {
		which = -1
	}
	for i := 0; i < 9; i++ {
		b.opt(i == which)
		if i != which {
			continue
		}
		switch i {
		case 0:
			v.A = b.u8()
			sym.Assume(v.A != 0)
		case 1:
			v.B = b.u32(false)
			sym.Assume(v.B != 0)
		case 2:
			v.C = b.i64(false)
			sym.Assume(v.C != 0)
		case 3:
			v.D = true
			b.out = append(b.out, 1)
		case 4:
			v.E = b.str(2)
		case 5:
			v.F = b.bytes(b.pick("len", 0, 2))
			if v.F == nil {
				v.F = []byte{}
			}
		case 6:
			copy(v.G[:], b.arr(2))
			sym.Assume(sym.Or(v.G[0] != 0, v.G[1] != 0))
		case 7:
			v.H = b.inner()
			if v.H.Y == nil {
				v.H.Y = []byte{}
			}
		case 8:
			v.I = b.f64(false)
			sym.Assume(math.Float64bits(v.I) != 0)
		}
	}
	v.Z = b.u8()
	return v, &tOpt{}
}

type tOptPtr struct {
	A *uint8  `bin:"optional"`
	B *uint32 `bin:"optional big"`
	C *string `bin:"optional"`
	D *inner  `bin:"optional"`
	E *[]byte `bin:"optional"`
	F uint16  `bin:"optional big"`
	Z uint8
}

func mkOptPtr(b *B) (interface{}, interface{}) {
	v := &tOptPtr{}
	all := sym.Choose("all", 3) // none, all, alternating
	on := func(i int) bool { return all == 1 || all == 2 && i%2 == 0 }
	b.opt(on(0))
	if on(0) {
		x := b.u8()
		v.A = &x
	}
	b.opt(on(1))
	if on(1) {
		x := b.u32(true)
		v.B = &x
	}
	b.opt(on(2))
	if on(2) {
		x := b.str(b.pick("len", 0, 1))
		v.C = &x
	}
	b.opt(on(3))
	if on(3) {
		x := b.inner()
		v.D = &x
	}
	b.opt(on(4))
	if on(4) {
		x := b.bytes(2)
		v.E = &x
	}
	b.opt(on(5))
	if on(5) {
		v.F = b.u16(true)
		sym.Assume(v.F != 0)
	}
	v.Z = b.u8()
	return v, &tOptPtr{}
}

type tOptNest struct {
	A *tOptInner `bin:"optional"`
	B []tOptInner
	C tOptInner
	D []*uint16 `bin:"optional"`
	E uint8
}

type tOptInner struct {
	X *uint16 `bin:"optional"`
	Y uint8
}

func (b *B) optInner() tOptInner {
	var v tOptInner
	p := b.present()
	b.opt(p)
	if p {
		x := b.u16(false)
		v.X = &x
	}
	v.Y = b.u8()
	return v
}

func mkOptNest(b *B) (interface{}, interface{}) {
	v := &tOptNest{}
	p := b.present()
	b.opt(p)
	if p {
		x := b.optInner()
		v.A = &x
	}
	b.length(1)
	v.B = []tOptInner{b.optInner()}
	v.C = b.optInner()
	b.opt(p)
	if p {
		b.length(1)
		x := b.u16(false)
		v.D = []*uint16{&x}
	}
	v.E = b.u8()
	return v, &tOptNest{}
}

type tCOpt struct {
	A uint8   `bin:"coption"`
	B *uint32 `bin:"coption"`
	C string  `bin:"coption"`
	D *inner  `bin:"coption"`
	E []byte  `bin:"coption"`
	Z uint8
}

func (b *B) copt(p bool) {
	var f byte
	if p {
		f = 1
	}
	b.out = append(b.out, f, 0, 0, 0)
}

func mkCOpt(b *B) (interface{}, interface{}) {
	v := &tCOpt{}
	all := sym.Choose("all", 3)
	on := func(i int) bool { return all == 1 || all == 2 && i%2 == 0 }
	b.copt(on(0))
	if on(0) {
		v.A = b.u8()
		sym.Assume(v.A != 0)
	}
	b.copt(on(1))
	if on(1) {
		x := b.u32(false)
		v.B = &x
	}
	b.copt(on(2))
	if on(2) {
		v.C = b.str(1)
	}
	b.copt(on(3))
	if on(3) {
		x := b.inner()
		v.D = &x
	}
	b.copt(on(4))
	if on(4) {
		v.E = b.bytes(2)
	}
	v.Z = b.u8()
	return v, &tCOpt{}
}

// recursive type through an optional pointer
type tList struct {
	V    uint16
	Next *tList `bin:"optional"`
}

func mkList(b *B) (interface{}, interface{}) {
	n := b.pick("nodes", 1, 2, 4)
	var head *tList
	p := &head
	for i := 0; i < n; i++ {
		x := &tList{V: b.u16(false)}
		*p = x
		p = &x.Next
		b.opt(i+1 < n)
	}
	return head, &tList{}
}

// ---- nesting ----

type tL1 struct {
	A uint8
	B tL2
	C []tL2
}
type tL2 struct {
	A [2]tL3
	B map[uint8]tL3
	C *tL3
}
type tL3 struct {
	A []tL4
	B uint16 `bin:"big"`
}
type tL4 struct {
	A string
	B *uint8 `bin:"optional"`
}

func (b *B) l4() tL4 {
	v := tL4{A: b.str(1)}
	p := b.present()
	b.opt(p)
	if p {
		x := b.u8()
		v.B = &x
	}
	return v
}
func (b *B) l3(n int) tL3 {
	var v tL3
	b.length(n)
	for i := 0; i < n; i++ {
		v.A = append(v.A, b.l4())
	}
	v.B = b.u16(true)
	return v
}
func (b *B) l2(n int) tL2 {
	var v tL2
	v.A[0], v.A[1] = b.l3(0), b.l3(0)
	b.length(1)
	k := b.u8()
	v.B = map[uint8]tL3{k: b.l3(0)}
	c := b.l3(n)
	v.C = &c
	return v
}
func mkNest(b *B) (interface{}, interface{}) {
	v := &tL1{A: b.u8()}
	v.B = b.l2(1)
	n := b.pick("len", 0, 1, 2)
	b.length(n)
	for i := 0; i < n; i++ {
		v.C = append(v.C, b.l2(i))
	}
	return v, &tL1{}
}

type Emb struct {
	X uint16
	Y uint8
}
type tEmbed struct {
	A uint8
	Emb
	*EmbP
	B uint8
}
type EmbP struct{ W uint32 }

func mkEmbed(b *B) (interface{}, interface{}) {
	v := &tEmbed{A: b.u8()}
	v.X = b.u16(false)
	v.Y = b.u8()
	v.EmbP = &EmbP{W: b.u32(false)}
	v.B = b.u8()
	return v, &tEmbed{}
}

// ---- library wrapper types ----

type tLib struct {
	A bin.Uint128
	B bin.Int128
	C bin.Float128
	D bin.Int64
	E bin.Uint64
	F bin.JSONFloat64
	G bin.HexBytes
	H bin.Bool
	I bin.SafeString
	J bin.TypeID
	K bin.BorshEnum
}

func mkLib(b *B) (interface{}, interface{}) {
	v := &tLib{}
	v.A = b.u128(false)
	v.B = bin.Int128(b.u128(false))
	v.C = bin.Float128(b.u128(false))
	v.D = bin.Int64(b.i64(false))
	v.E = bin.Uint64(b.u64(false))
	v.F = bin.JSONFloat64(b.f64(false))
	v.G = bin.HexBytes(b.bytes(b.pick("len", 0, 2)))
	v.H = bin.Bool(b.boolean())
	b.length(2) // SafeString uses the slice length prefix in every encoding
	s := sym.Bytes("ascii", 2)
	sym.Assume(sym.And(s[0] < 0x80, s[1] < 0x80))
	b.out = append(b.out, s...)
	v.I = bin.SafeString(s)
	copy(v.J[:], b.arr(8))
	v.K = bin.BorshEnum(b.u8())
	return v, &tLib{}
}

// wrappers honour the byte order tagged on their field
type tLibBig struct {
	A bin.Uint128     `bin:"big"`
	B bin.Int128      `bin:"big"`
	C bin.Float128    `bin:"big"`
	D bin.Int64       `bin:"big"`
	E bin.Uint64      `bin:"big"`
	F bin.JSONFloat64 `bin:"big"`
	G bin.Uint128     `bin:"little"`
	H bin.Uint64
	I *bin.Uint64 `bin:"big"`
	J bin.Int64
}

func (b *B) bigAlways64() uint64 {
	v := sym.U64("u64")
	b.out = be(b.out, v, 8)
	return v
}

func mkLibBig(b *B) (interface{}, interface{}) {
	v := &tLibBig{}
	v.A = b.u128(true)
	v.B = bin.Int128(b.u128(true))
	v.C = bin.Float128(b.u128(true))
	v.D = bin.Int64(b.bigAlways64())
	v.E = bin.Uint64(b.bigAlways64())
	u := sym.U64("f64")
	sym.Assume(sym.Not(sym.And(u&0x7ff0000000000000 == 0x7ff0000000000000, u&0x000fffffffffffff != 0)))
	b.out = be(b.out, u, 8)
	v.F = bin.JSONFloat64(math.Float64frombits(u))
	v.G = b.u128(false)
	v.H = bin.Uint64(b.u64(false))
	i := bin.Uint64(b.bigAlways64())
	v.I = &i
	v.J = bin.Int64(b.i64(false))
	return v, &tLibBig{}
}

type tVar struct {
	A bin.Varint16
	B bin.Varuint16
	C bin.Varint32
	D bin.Varuint32
	Z uint8
}

func zz64(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

func mkVar(b *B) (interface{}, interface{}) {
	v := &tVar{}
	a, bb, c, d := int16(-1), uint16(300), int32(5), uint32(127)
	switch sym.Choose("field", 4) {
	case 0:
		a = sym.I16("a")
	case 1:
		bb = sym.U16("b")
	case 2:
		c = sym.I32("c")
	case 3:
		d = sym.U32("d")
	}
	v.A, v.B, v.C, v.D = bin.Varint16(a), bin.Varuint16(bb), bin.Varint32(c), bin.Varuint32(d)
	b.out = refUvarint(b.out, zz64(int64(a)))
	b.out = refUvarint(b.out, uint64(bb))
	b.out = refUvarint(b.out, zz64(int64(c)))
	b.out = refUvarint(b.out, uint64(d))
	v.Z = b.u8()
	return v, &tVar{}
}

// ---- skipped, unexported, sized, extension ----

type tSkip struct {
	A uint8
	S uint32 `bin:"-"`
	B uint16
	T []byte `bin:"skip"`
	u uint64
	C uint8
	R string `borsh_skip:"true"`
	v *inner
	D uint16
	w inner
}

func mkSkip(b *B) (interface{}, interface{}) {
	v := &tSkip{S: 7, T: []byte{1}, u: 9, R: "r", v: &inner{X: 1}, w: inner{X: 2}}
	v.A = b.u8()
	v.B = b.u16(false)
	v.C = b.u8()
	v.D = b.u16(false)
	f := &tSkip{S: 7, T: []byte{1}, u: 9, R: "r", v: &inner{X: 1}, w: inner{X: 2}}
	return v, f
}

type tSized struct {
	N  uint8 `bin:"sizeof=L"`
	A  uint16
	L  []uint16
	M  uint32 `bin:"sizeof=S"`
	S  []inner
	K  int16 `bin:"sizeof=By"`
	By []byte
	P  []byte
}

func mkSized(b *B) (interface{}, interface{}) {
	v := &tSized{}
	n := b.pick("len", 0, 1, 3)
	v.N = uint8(n)
	b.out = append(b.out, byte(n))
	v.A = b.u16(false)
	for i := 0; i < n; i++ {
		v.L = append(v.L, b.u16(false))
	}
	m := b.pick("len2", 0, 2)
	v.M = uint32(m)
	b.out = le(b.out, uint64(m), 4)
	for i := 0; i < m; i++ {
		v.S = append(v.S, b.inner())
	}
	v.K = int16(n)
	b.out = le(b.out, uint64(n), 2)
	v.By = b.arr(n)
	v.P = b.bytes(1)
	return v, &tSized{}
}

type tExt struct {
	A uint16
	B uint32 `bin:"binary_extension"`
	C []byte `bin:"binary_extension"`
	D string `bin:"binary_extension"`
}

func mkExt(b *B) (interface{}, interface{}) {
	v := &tExt{}
	v.A = b.u16(false)
	v.B = b.u32(false)
	v.C = b.bytes(2)
	v.D = b.str(1)
	return v, &tExt{}
}

// ---- custom marshalers ----

// mFix writes a marker and its value complemented: unlike the default encoding.
type mFix struct{ V uint16 }

const mMark = 0x5a

func (m mFix) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteByte(mMark); err != nil {
		return err
	}
	return e.WriteUint16(m.V^0xffff, bin.BE)
}

func (m *mFix) UnmarshalWithDecoder(d *bin.Decoder) error {
	k, err := d.ReadByte()
	if err != nil {
		return err
	}
	if k != mMark {
		return fmt.Errorf("bad marker")
	}
	v, err := d.ReadUint16(bin.BE)
	if err != nil {
		return err
	}
	m.V = v ^ 0xffff
	return nil
}

func (b *B) fix() mFix {
	v := sym.U16("m")
	b.out = append(b.out, mMark)
	b.out = be(b.out, uint64(v^0xffff), 2)
	return mFix{v}
}

// mStr: named string with its own wire form (one length byte).
type mStr string

func (m mStr) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteUint8(uint8(len(m))); err != nil {
		return err
	}
	return e.WriteBytes([]byte(m), false)
}

func (m *mStr) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := d.ReadUint8()
	if err != nil {
		return err
	}
	x, err := d.ReadNBytes(int(n))
	if err != nil {
		return err
	}
	*m = mStr(x)
	return nil
}

func (b *B) mstr(n int) mStr {
	b.out = append(b.out, byte(n))
	v := b.raw(n)
	b.out = append(b.out, v...)
	return mStr(v)
}

// mU8: named uint8 with a two-byte wire form.
type mU8 uint8

func (m mU8) MarshalWithEncoder(e *bin.Encoder) error {
	return e.WriteUint16(uint16(m)|0x4200, bin.BE)
}

func (m *mU8) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := d.ReadUint16(bin.BE)
	if err != nil {
		return err
	}
	if v>>8 != 0x42 {
		return fmt.Errorf("bad marker")
	}
	*m = mU8(v)
	return nil
}

func (b *B) mu8() mU8 {
	v := sym.U8("m8")
	b.out = append(b.out, 0x42, v)
	return mU8(v)
}

// mPtr has pointer receivers only.
type mPtr struct{ V uint8 }

func (m *mPtr) MarshalWithEncoder(e *bin.Encoder) error {
	return e.WriteBytes([]byte{0xee, m.V}, false)
}

func (m *mPtr) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := d.ReadNBytes(2)
	if err != nil {
		return err
	}
	if x[0] != 0xee {
		return fmt.Errorf("bad marker")
	}
	m.V = x[1]
	return nil
}

func (b *B) mptr() *mPtr {
	v := sym.U8("mp")
	b.out = append(b.out, 0xee, v)
	return &mPtr{v}
}

type tMarsh struct {
	A mFix
	B *mFix
	C []mFix
	D [2]mFix
	E map[uint8]mFix
	F mStr
	G []mStr
	H *mPtr
	I []*mPtr
	J mU8
	K tMarshIn
	L []*mFix
	M [2]mStr
	Z uint8
}

type tMarshIn struct {
	A mFix
	B mStr
}

func mkMarsh(b *B) (interface{}, interface{}) {
	v := &tMarsh{}
	v.A = b.fix()
	x := b.fix()
	v.B = &x
	n := b.pick("len", 0, 1, 2)
	b.length(n)
	for i := 0; i < n; i++ {
		v.C = append(v.C, b.fix())
	}
	v.D = [2]mFix{b.fix(), b.fix()}
	b.length(1)
	k := b.u8()
	v.E = map[uint8]mFix{k: b.fix()}
	v.F = b.mstr(2)
	b.length(n)
	for i := 0; i < n; i++ {
		v.G = append(v.G, b.mstr(i))
	}
	v.H = b.mptr()
	b.length(n)
	for i := 0; i < n; i++ {
		v.I = append(v.I, b.mptr())
	}
	v.J = b.mu8()
	v.K.A = b.fix()
	v.K.B = b.mstr(1)
	b.length(n)
	for i := 0; i < n; i++ {
		y := b.fix()
		v.L = append(v.L, &y)
	}
	v.M = [2]mStr{b.mstr(1), b.mstr(0)}
	v.Z = b.u8()
	return v, &tMarsh{}
}

// element types of an unsigned kind that have their own marshaler
type tMarshU struct {
	A []mU8
	B [2]mU8
	C []bin.Varuint16
	Z uint8
}

func mkMarshU(b *B) (interface{}, interface{}) {
	v := &tMarshU{}
	n := b.pick("len", 1, 2)
	b.length(n)
	for i := 0; i < n; i++ {
		v.A = append(v.A, b.mu8())
	}
	v.B = [2]mU8{b.mu8(), b.mu8()}
	b.length(1)
	c := sym.U16("c")
	sym.Assume(c >= 0x80 && c < 0x4000)
	b.out = append(b.out, byte(c)|0x80, byte(c>>7))
	v.C = []bin.Varuint16{bin.Varuint16(c)}
	v.Z = b.u8()
	return v, &tMarshU{}
}

// optional fields whose types have their own marshaler
type tMarshOpt struct {
	A mFix         `bin:"optional"`
	B *mFix        `bin:"optional"`
	C mStr         `bin:"optional"`
	D *mPtr        `bin:"optional"`
	E bin.Uint128  `bin:"optional"`
	F *bin.Uint128 `bin:"optional big"`
	G bin.Uint64   `bin:"optional big"`
	Z uint16
}

func mkMarshOpt(b *B) (interface{}, interface{}) {
	v := &tMarshOpt{}
	all := sym.Choose("all", 4) // none, all, even, odd
	on := func(i int) bool { return all == 1 || all == 2 && i%2 == 0 || all == 3 && i%2 == 1 }
	b.opt(on(0))
	if on(0) {
		v.A = b.fix()
		sym.Assume(v.A.V != 0)
	}
	b.opt(on(1))
	if on(1) {
		x := b.fix()
		v.B = &x
	}
	b.opt(on(2))
	if on(2) {
		v.C = b.mstr(2)
	}
	b.opt(on(3))
	if on(3) {
		v.D = b.mptr()
	}
	b.opt(on(4))
	if on(4) {
		v.E = b.u128(false)
		sym.Assume(sym.Or(v.E.Lo != 0, v.E.Hi != 0))
	}
	b.opt(on(5))
	if on(5) {
		x := b.u128(true)
		v.F = &x
	}
	b.opt(on(6))
	if on(6) {
		v.G = bin.Uint64(b.bigAlways64())
		sym.Assume(v.G != 0)
	}
	v.Z = b.u16(false)
	return v, &tMarshOpt{}
}

type tMarshCOpt struct {
	A mFix  `bin:"coption"`
	B *mFix `bin:"coption"`
	C mStr  `bin:"coption"`
	Z uint16
}

func mkMarshCOpt(b *B) (interface{}, interface{}) {
	v := &tMarshCOpt{}
	all := sym.Choose("all", 4)
	on := func(i int) bool { return all == 1 || all == 2 && i%2 == 0 || all == 3 && i%2 == 1 }
	b.copt(on(0))
	if on(0) {
		v.A = b.fix()
		sym.Assume(v.A.V != 0)
	}
	b.copt(on(1))
	if on(1) {
		x := b.fix()
		v.B = &x
	}
	b.copt(on(2))
	if on(2) {
		v.C = b.mstr(2)
	}
	v.Z = b.u16(false)
	return v, &tMarshCOpt{}
}

func mkTopMarsh(b *B) (interface{}, interface{}) {
	switch sym.Choose("kind", 7) {
	case 0:
		v := b.fix()
		return &v, new(mFix)
	case 1:
		return b.mptr(), new(mPtr)
	case 2:
		v := b.mstr(2)
		return &v, new(mStr)
	case 3:
		v := b.mu8()
		return &v, new(mU8)
	case 4:
		v := b.u128(false)
		return &v, new(bin.Uint128)
	case 5:
		v := bin.Uint64(b.u64(false))
		return &v, new(bin.Uint64)
	}
	b.length(1)
	v := []mFix{b.fix()}
	return &v, new([]mFix)
}

// ---- enums (Borsh) ----

type tEnum struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    uint8
	B    string
	C    inner
	D    *inner
	E    bin.EmptyVariant
	F    *bin.EmptyVariant
	G    *uint32
	H    nU16
	I    bool
	J    tEnumIn
	K    int64
	L    *tEnumIn
}

type tEnumIn struct {
	Kind bin.BorshEnum `bin:"enum"`
	X    uint16
	Y    struct{ A, B uint8 }
}

func (b *B) enumIn() tEnumIn {
	var v tEnumIn
	t := sym.Choose("innertag", 2)
	v.Kind = bin.BorshEnum(t)
	b.out = append(b.out, byte(t))
	if t == 0 {
		v.X = b.u16(false)
	} else {
		v.Y.A, v.Y.B = b.u8(), b.u8()
	}
	return v
}

func mkEnumV(b *B) tEnum {
	t := sym.Choose("tag", 12)
	v := tEnum{Enum: bin.BorshEnum(t)}
	b.out = append(b.out, byte(t))
	switch t {
	case 0:
		v.A = b.u8()
	case 1:
		v.B = b.str(2)
	case 2:
		v.C = b.inner()
	case 3:
		x := b.inner()
		v.D = &x
	case 5:
		v.F = &bin.EmptyVariant{}
	case 6:
		x := b.u32(false)
		v.G = &x
	case 7:
		v.H = nU16(b.u16(false))
	case 8:
		v.I = b.boolean()
	case 9:
		v.J = b.enumIn()
	case 10:
		v.K = b.i64(false)
	case 11:
		x := b.enumIn()
		v.L = &x
	}
	return v
}

func mkEnum(b *B) (interface{}, interface{}) {
	v := mkEnumV(b)
	return &v, &tEnum{}
}

// variants of container and marshaler types
type tEnumC struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    []uint16
	B    [2]uint8
	C    map[uint8]uint16
	D    []inner
	E    mFix
	F    *mFix
	G    bin.Uint128
	H    [2]inner
	I    []string
	J    *[]uint16
	K    mStr
}

func mkEnumC(b *B) (interface{}, interface{}) {
	t := sym.Choose("tag", 11)
	v := &tEnumC{Enum: bin.BorshEnum(t)}
	b.out = append(b.out, byte(t))
	switch t {
	case 0:
		b.length(2)
		v.A = []uint16{b.u16(false), b.u16(false)}
	case 1:
		copy(v.B[:], b.arr(2))
	case 2:
		b.length(1)
		k := b.u8()
		v.C = map[uint8]uint16{k: b.u16(false)}
	case 3:
		b.length(1)
		v.D = []inner{b.inner()}
	case 4:
		v.E = b.fix()
	case 5:
		x := b.fix()
		v.F = &x
	case 6:
		v.G = b.u128(false)
	case 7:
		v.H = [2]inner{b.inner(), b.inner()}
	case 8:
		b.length(2)
		v.I = []string{b.str(1), b.str(0)}
	case 9:
		b.length(1)
		x := []uint16{b.u16(false)}
		v.J = &x
	case 10:
		v.K = b.mstr(1)
	}
	return v, &tEnumC{}
}

type tEnumPos struct {
	A uint8
	B tEnumIn
	C []tEnumIn
	D *tEnumIn `bin:"optional"`
	E [2]tEnumIn
	F map[uint8]tEnumIn
	G *tEnumIn
	H nU8
}

func mkEnumPos(b *B) (interface{}, interface{}) {
	v := &tEnumPos{A: b.u8()}
	v.B = b.enumIn()
	b.length(1)
	v.C = []tEnumIn{b.enumIn()}
	p := b.present()
	b.opt(p)
	if p {
		x := b.enumIn()
		v.D = &x
	}
	v.E = [2]tEnumIn{b.enumIn(), b.enumIn()}
	b.length(1)
	k := b.u8()
	v.F = map[uint8]tEnumIn{k: b.enumIn()}
	x := b.enumIn()
	v.G = &x
	v.H = nU8(b.u8())
	return v, &tEnumPos{}
}

func mkEnumBig(b *B) (interface{}, interface{}) {
	t := b.pick("bigtag", 0, 1, 126, 127, 128, 129, 254)
	v := &tEnum255{Enum: bin.BorshEnum(t)}
	b.out = append(b.out, byte(t))
	x := sym.U8("variant")
	b.out = append(b.out, x)
	switch t {
	case 0:
		v.V0 = x
	case 1:
		v.V1 = x
	case 126:
		v.V126 = x
	case 127:
		v.V127 = x
	case 128:
		v.V128 = x
	case 129:
		v.V129 = x
	case 254:
		v.V254 = x
	}
	return v, &tEnum255{}
}

// ---- long lists: prefix boundaries ----

func mkLong(b *B) (interface{}, interface{}) {
	n := b.pick("biglen", 127, 128, 255, 256, 16383, 16384, 65535, 65536)
	switch sym.Choose("longkind", 5) {
	case 0:
		v := b.bytes(n)
		return &v, new([]byte)
	case 4:
		return mkLong2(b, n)
	case 1:
		v := b.str(n)
		return &v, new(string)
	case 2:
		if n > 300 {
			sym.Assume(false)
		}
		b.length(n)
		v := make([]uint16, n)
		for i := range v {
			v[i] = uint16(i) * 3
			if i < 2 || i > n-3 {
				v[i] = sym.U16("el")
			}
			b.out = le(b.out, uint64(v[i]), 2)
		}
		return &v, new([]uint16)
	}
	if n > 300 {
		sym.Assume(false)
	}
	b.length(n)
	v := make([]inner2, n)
	for i := range v {
		v[i].A = byte(i)
		if i == n-1 {
			v[i].A = sym.U8("last")
		}
		b.out = append(b.out, v[i].A)
	}
	return &v, new([]inner2)
}

type inner2 struct{ A uint8 }

type tLongSized struct {
	N uint16 `bin:"sizeof=V"`
	V []inner2
	P uint8
}

type tLongSizedB struct {
	N uint32 `bin:"sizeof=V"`
	M int64  `bin:"sizeof=W"`
	V []byte
	W []uint16
	P uint8
}

type tLongArr struct {
	A [300]uint8
	B [260]uint16
	C [257]inner2
	P uint8
}

// mkLong2: sized fields, arrays, maps and lists of strings longer than a byte can count.
func mkLong2(b *B, n int) (interface{}, interface{}) {
	k := sym.Choose("longkind2", 5)
	if n > 300 && (k != 4 && k != 1 || !b.bigMap || n == 65535) {
		sym.Assume(false)
	}
	fill := func(i int) byte {
		if i == n-1 {
			return sym.U8("last")
		}
		return byte(i)
	}
	switch k {
	case 0:
		v := &tLongSized{N: uint16(n), V: make([]inner2, n)}
		b.out = le(b.out, uint64(n), 2)
		for i := range v.V {
			v.V[i].A = fill(i)
			b.out = append(b.out, v.V[i].A)
		}
		v.P = b.u8()
		return v, &tLongSized{}
	case 1:
		m := n
		if n > 300 && n < 65536 {
			m = 3
		}
		v := &tLongSizedB{N: uint32(n), M: int64(m)}
		b.out = le(b.out, uint64(n), 4)
		b.out = le(b.out, uint64(m), 8)
		v.V = b.arr(n)
		v.W = make([]uint16, m)
		for i := range v.W {
			v.W[i] = uint16(fill(i)) * 3
			b.out = le(b.out, uint64(v.W[i]), 2)
		}
		v.P = b.u8()
		return v, &tLongSizedB{}
	case 2:
		v := &tLongArr{}
		for i := range v.A {
			v.A[i] = fill(i)
			b.out = append(b.out, v.A[i])
		}
		for i := range v.B {
			v.B[i] = uint16(fill(i)) * 5
			b.out = le(b.out, uint64(v.B[i]), 2)
		}
		for i := range v.C {
			v.C[i].A = fill(i)
			b.out = append(b.out, v.C[i].A)
		}
		v.P = b.u8()
		return v, &tLongArr{}
	case 3:
		v := make([]string, n)
		b.length(n)
		for i := range v {
			v[i] = string([]byte{fill(i)})
			b.out = refStrLen(b.out, b.e, 1)
			b.out = append(b.out, v[i][0])
		}
		return &v, new([]string)
	}
	b.free = b.e != eBorsh // unordered elsewhere
	v := map[uint16]uint8{}
	b.length(n)
	last := fill(n - 1)
	v[uint16(n-1)] = last
	for i := n - 2; i >= 0; i-- {
		v[uint16(i)] = fill(i)
	}
	for i := 0; i < n-1; i++ {
		b.out = append(le(b.out, uint64(i), 2), fill(i))
	}
	b.out = append(le(b.out, uint64(n-1), 2), last)
	return &v, new(map[uint16]uint8)
}

const (
	onBin = 1 << eBin
	onBsh = 1 << eBorsh
	onCmp = 1 << eCompact
	onAll = onBin | onBsh | onCmp
)

type entry struct {
	name string
	encs int
	mk   func(b *B) (interface{}, interface{})
	ext  bool // ends with binary-extension fields
	long bool
	// bigTag: wrapper types honour an order tag in Borsh too (see C30), which the Borsh format does not define
	bigTag bool
}

var catalog = []entry{
	{name: "scalars", encs: onAll, mk: mkScalars},
	{name: "named", encs: onAll, mk: mkNamed},
	{name: "byte-order", encs: onAll, mk: mkBig},
	{name: "arrays", encs: onAll, mk: mkArrays},
	{name: "slices", encs: onAll, mk: mkSlices},
	{name: "top-level", encs: onAll, mk: mkTop},
	{name: "pointers", encs: onAll, mk: mkPtrs},
	{name: "maps", encs: onAll, mk: mkMaps},
	{name: "map-fields", encs: onAll, mk: mkMapIn},
	{name: "optional", encs: onAll, mk: mkOpt},
	{name: "optional-pointers", encs: onAll, mk: mkOptPtr},
	{name: "optional-nested", encs: onAll, mk: mkOptNest},
	{name: "c-option", encs: onBsh, mk: mkCOpt},
	{name: "recursive", encs: onAll, mk: mkList},
	{name: "nested", encs: onAll, mk: mkNest},
	{name: "embedded", encs: onAll, mk: mkEmbed},
	{name: "library", encs: onAll, mk: mkLib},
	{name: "library-big", encs: onAll, mk: mkLibBig, bigTag: true},
	{name: "varint", encs: onAll, mk: mkVar},
	{name: "skipped", encs: onAll, mk: mkSkip},
	{name: "sized", encs: onAll, mk: mkSized},
	{name: "extension", encs: onAll, mk: mkExt, ext: true},
	{name: "marshalers", encs: onAll, mk: mkMarsh},
	{name: "marshaler-uint-elements", encs: onAll, mk: mkMarshU},
	{name: "marshalers-optional", encs: onAll, mk: mkMarshOpt, bigTag: true},
	{name: "marshalers-c-option", encs: onBsh, mk: mkMarshCOpt},
	{name: "marshalers-top", encs: onAll, mk: mkTopMarsh},
	{name: "enum", encs: onBsh, mk: mkEnum},
	{name: "enum-containers", encs: onBsh, mk: mkEnumC},
	{name: "enum-positions", encs: onBsh, mk: mkEnumPos},
	{name: "enum-255", encs: onBsh, mk: mkEnumBig},
	{name: "long", encs: onAll, mk: mkLong, long: true},
	{name: "sizes", encs: onAll, mk: mkSizeB, long: true},
	{name: "list-sizes", encs: onAll, mk: mkSizeL, long: true},
	{name: "map-sizes", encs: onAll, mk: mkSizeM, long: true},
	{name: "depths", encs: onAll, mk: mkDeep, long: true},
	{name: "array-sizes", encs: onAll, mk: mkArrays2, long: true},
}

// pickEntry chooses a catalogue entry available in encoding e.
func pickEntry(e int, skip func(en *entry) bool) *entry {
	var idx []int
	for i := range catalog {
		en := &catalog[i]
		if en.encs&(1<<uint(e)) != 0 && (skip == nil || !skip(en)) {
			idx = append(idx, i)
		}
	}
	return &catalog[idx[sym.Choose("type", len(idx))]]
}

func named(names ...string) func(en *entry) bool {
	return func(en *entry) bool {
		for _, n := range names {
			if n == en.name {
				return false
			}
		}
		return true
	}
}
