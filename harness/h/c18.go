package h

import (
	"reflect"

	"github.com/gagliardetto/binary/zz_verif/sym"
)

// tSkipAll: skipped and unexported fields of every flavour between encoded ones.
type tSkipAll struct {
	s0  uint16
	A   uint8
	S1  uint32 `bin:"-"`
	S2  []byte `bin:"skip"`
	B   uint16 `bin:"big"`
	S3  string `borsh_skip:"true"`
	S4  *inner `bin:"-"`
	s5  inner
	C   uint8           `bin:"optional"`
	S6  map[uint8]uint8 `bin:"-"`
	S7  [2]uint16       `bin:"skip"`
	S8  uint8           `bin:"optional -"`
	D   []uint8
	S9  uint32 `bin:"big skip"`
	s10 *uint8
	S11 mFix `bin:"-"`
	E   uint16
	S12 []uint16 `bin:"-"`
	s13 string
}

func drawSkipped() *tSkipAll {
	v := &tSkipAll{}
	k := sym.Choose("skipped", 3) // zero, set, set differently
	if k == 0 {
		return v
	}
	n := k
	v.s0 = sym.U16("s0")
	v.S1 = sym.U32("s1")
	v.S2 = sym.Bytes("s2", n)
	v.S3 = sym.String("s3", n)
	v.S4 = &inner{X: sym.U16("s4")}
	v.s5 = inner{X: sym.U16("s5")}
	v.S6 = map[uint8]uint8{1: sym.U8("s6")}
	v.S7 = [2]uint16{sym.U16("s7a"), sym.U16("s7b")}
	v.S8 = sym.U8("s8")
	v.S9 = sym.U32("s9")
	x := sym.U8("s10")
	v.s10 = &x
	v.S11 = mFix{sym.U16("s11")}
	v.S12 = []uint16{sym.U16("s12")}
	v.s13 = "keep"
	return v
}

// Skipped and unexported fields contribute no bytes and keep whatever they held.
func C18_skip() {
	e := chooseEnc()
	v := drawSkipped()
	b := &B{e: e}
	v.A = b.u8()
	v.B = b.u16(true)
	p := b.present()
	b.opt(p)
	if p {
		v.C = b.u8()
		sym.Assume(v.C != 0)
	}
	v.D = b.bytes(1)
	v.E = b.u16(false)
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "only exported, unskipped fields are encoded")
	t := drawSkipped()
	before := *t
	t.A, t.B, t.C, t.E = 1, 2, 3, 4
	t.D = []uint8{1, 2}
	d := newDec(e, b.out)
	sym.Assert(d.Decode(t) == nil && d.Remaining() == 0, "decodes")
	sym.Assert(sym.And(t.A == v.A, t.B == v.B, t.C == v.C, t.E == v.E, sym.BytesEq(t.D, v.D)), "encoded fields")
	sym.Assert(sym.And(t.s0 == before.s0, t.S1 == before.S1, sym.BytesEq(t.S2, before.S2), sym.StrEq(t.S3, before.S3), t.S8 == before.S8, t.S9 == before.S9, t.S11.V == before.S11.V, t.s13 == before.s13), "skipped scalars keep what they held")
	sym.Assert(t.S4 == before.S4 && t.s10 == before.s10 && t.S7 == before.S7 && t.s5.X == before.s5.X, "skipped composites keep what they held")
	sym.Assert(len(t.S6) == len(before.S6) && len(t.S12) == len(before.S12) && (t.S2 == nil) == (before.S2 == nil), "skipped containers keep what they held")
	sym.Reach("skip")
}

// The byte-order tag governs its own scalar field only (Borsh: never).
func C18_order() {
	e := chooseEnc()
	b := &B{e: e}
	v, fresh := mkBig(b)
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "tagged byte order")
	t := dirtyOf(fresh)
	sym.Assert(unmarshal(e, t, b.out) == nil && sym.Eq(v, t), "tagged byte order when decoding")
	sym.Reach("order")
}

type tOrd2 struct {
	A *uint16 `bin:"big"`
	B uint16
	C *uint32 `bin:"optional big"`
	D int32   `bin:"little"`
	E float32 `bin:"big optional"`
	F int16
	G **uint64          `bin:"big"`
	H map[uint16]uint16 `bin:"big"`
	I []tOrd3           `bin:"big"`
	J uint64
}

type tOrd3 struct {
	X uint16
	Y uint16 `bin:"big"`
	Z int32
}

// Order tags on pointers, optionals and containers, with untagged neighbours.
func C18_order2() {
	e := chooseEnc()
	if e == eBorsh {
		sym.Assume(false)
	}
	b := &B{e: e}
	v := &tOrd2{}
	x := b.u16(true)
	v.A = &x
	v.B = b.u16(false)
	p := b.present()
	b.opt(p)
	if p {
		y := b.u32(true)
		v.C = &y
	}
	v.D = b.i32(false)
	b.opt(p)
	if p {
		v.E = b.f32(true)
		sym.Assume(v.E != 0)
	}
	v.F = b.i16(false)
	g := b.u64(true)
	pg := &g
	v.G = &pg
	b.length(1)
	k := b.u16(false)
	v.H = map[uint16]uint16{k: b.u16(false)}
	b.length(2)
	for i := 0; i < 2; i++ {
		var o tOrd3
		o.X = b.u16(false)
		o.Y = b.u16(true)
		o.Z = b.i32(false)
		v.I = append(v.I, o)
	}
	v.J = b.u64(false)
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "order tags govern exactly their own scalar")
	t := dirtyOf(&tOrd2{})
	sym.Assert(unmarshal(e, t, b.out) == nil && sym.Eq(v, t), "order tags govern exactly their own scalar when decoding")
	sym.Reach("order2")
}

// one sized list per size-field type and element type
type (
	zU8 struct {
		N uint8 `bin:"sizeof=L"`
		P uint8
		L []uint8
		Q []uint8
	}
	zI8 struct {
		N int8 `bin:"sizeof=L"`
		P uint8
		L []uint16
		Q []uint8
	}
	zU16 struct {
		N uint16 `bin:"sizeof=L big"`
		P uint8
		L []uint32
		Q []uint8
	}
	zI16 struct {
		N int16 `bin:"sizeof=L"`
		P uint8
		L []int16
		Q []uint8
	}
	zU32 struct {
		N uint32 `bin:"sizeof=L"`
		P uint8
		L []uint64
		Q []uint8
	}
	zI32 struct {
		N int32 `bin:"big sizeof=L"`
		P uint8
		L []string
		Q []uint8
	}
	zU64 struct {
		N uint64 `bin:"sizeof=L"`
		P uint8
		L []inner2
		Q []uint8
	}
	zI64 struct {
		N int64 `bin:"sizeof=L"`
		P uint8
		L []*uint16
		Q []uint8
	}
	zNam struct {
		N nU16 `bin:"sizeof=L"`
		P uint8
		L []nU16
		Q []uint8
	}
)

// A size field fixes the element count of its list, with no length prefix; the next list has its own prefix again.
func C18_sizeof() {
	e := chooseEnc()
	b := &B{e: e}
	n := sym.Choose("n", 4)
	var v interface{}
	mid := func() uint8 { return b.u8() }
	big := false
	put := func(w int) {
		b.out = ord(b.out, uint64(n), w, b.big(big))
	}
	switch sym.Choose("size", 9) {
	case 0:
		x := &zU8{N: uint8(n)}
		put(1)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.u8())
		}
		x.Q = b.bytes(2)
		v = x
	case 1:
		x := &zI8{N: int8(n)}
		put(1)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.u16(false))
		}
		x.Q = b.bytes(2)
		v = x
	case 2:
		x := &zU16{N: uint16(n)}
		big = true
		put(2)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.u32(false))
		}
		x.Q = b.bytes(2)
		v = x
	case 3:
		x := &zI16{N: int16(n)}
		put(2)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.i16(false))
		}
		x.Q = b.bytes(2)
		v = x
	case 4:
		x := &zU32{N: uint32(n)}
		put(4)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.u64(false))
		}
		x.Q = b.bytes(2)
		v = x
	case 5:
		x := &zI32{N: int32(n)}
		big = true
		put(4)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, b.str(i))
		}
		x.Q = b.bytes(2)
		v = x
	case 6:
		x := &zU64{N: uint64(n)}
		put(8)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, inner2{b.u8()})
		}
		x.Q = b.bytes(2)
		v = x
	case 7:
		x := &zI64{N: int64(n)}
		put(8)
		x.P = mid()
		for i := 0; i < n; i++ {
			y := b.u16(false)
			x.L = append(x.L, &y)
		}
		x.Q = b.bytes(2)
		v = x
	case 8:
		x := &zNam{N: nU16(n)}
		put(2)
		x.P = mid()
		for i := 0; i < n; i++ {
			x.L = append(x.L, nU16(b.u16(false)))
		}
		x.Q = b.bytes(2)
		v = x
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "a sized list has no length prefix")
	t := dirtyOf(reflect.New(reflect.TypeOf(v).Elem()).Interface())
	d := newDec(e, b.out)
	sym.Assert(d.Decode(t) == nil && d.Remaining() == 0 && sym.Eq(v, t), "the size field fixes the element count")
	sym.Reach("sizeof")
}

// A sized list inside list elements: each element uses its own size.
type tSizedIn struct {
	N  uint8 `bin:"sizeof=L"`
	L  []uint8
	L2 []uint8
}

func C18_sizeofList() {
	e := chooseEnc()
	b := &B{e: e}
	b.length(2)
	var v []tSizedIn
	for i := 0; i < 2; i++ {
		n := sym.Choose("n", 3)
		b.out = append(b.out, byte(n))
		x := tSizedIn{N: uint8(n)}
		x.L = b.arr(n)
		x.L2 = b.bytes(1)
		v = append(v, x)
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "each element uses its own size")
	var g []tSizedIn
	sym.Assert(unmarshal(e, &g, out) == nil && sym.Eq(v, g), "each element uses its own size when decoding")
	sym.Reach("sizeofList")
}

// Binary-extension fields: read while data remains, untouched once it does not.
func C18_extension() {
	e := chooseEnc()
	b := &B{e: e}
	v := &tExt{A: b.u16(false)}
	ends := []int{len(b.out)}
	v.B = b.u32(false)
	ends = append(ends, len(b.out))
	v.C = b.bytes(2)
	ends = append(ends, len(b.out))
	v.D = b.str(1)
	ends = append(ends, len(b.out))
	k := sym.Choose("fields", 4)
	t := &tExt{A: 5, B: sym.U32("oldB"), C: sym.Bytes("oldC", 3), D: "old"}
	old := *t
	d := newDec(e, b.out[:ends[k]])
	sym.Assert(d.Decode(t) == nil && d.Remaining() == 0, "decodes what is there")
	want := old
	want.A = v.A
	if k >= 1 {
		want.B = v.B
	}
	if k >= 2 {
		want.C = v.C
	}
	if k >= 3 {
		want.D = v.D
	}
	sym.Assert(sym.Eq(&want, t), "extension fields present are decoded, absent ones are left as they were")
	// a partial extension field is an error
	if k < 3 && ends[k]+1 < ends[k+1] {
		var g tExt
		sym.Assert(unmarshal(e, &g, b.out[:ends[k]+1]) != nil, "a partial extension field is refused")
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "all extension fields are encoded")
	sym.Reach("extension")
}

// tagDraw draws the fields of a tag-combination struct and their expected bytes (opt: 1 optional, 2 c-option).
func tagDraw(b *B, big bool, opt int, skip bool, A, F, B *uint16, P **uint32, Z *uint16) {
	if opt == 2 && b.e != eBorsh {
		sym.Assume(false)
	}
	flag := func(p bool) {
		if opt == 1 {
			b.opt(p)
		} else if opt == 2 {
			n := uint64(0)
			if p {
				n = 1
			}
			b.out = le(b.out, n, 4)
		}
	}
	p := true
	if opt != 0 && !skip {
		p = b.present()
	}
	*A = b.u16(false)
	if skip {
		*F = sym.U16("F")
	} else if flag(p); p {
		*F = b.u16(big)
		if opt != 0 {
			sym.Assume(*F != 0)
		}
	}
	*B = b.u16(false)
	if skip {
		*P = new(uint32)
		**P = sym.U32("P")
	} else if flag(p); p {
		x := b.u32(big)
		*P = &x
	}
	*Z = b.u16(false)
}

// Tag words combine in any order and number, unknown words and other keys are ignored.
func C18_words() {
	e := chooseEnc()
	b := &B{e: e}
	v, t, kept := mkTag(b, sym.Choose("tag", nTags))
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "every tag word has its effect and no other")
	d := newDec(e, b.out)
	sym.Assert(d.Decode(t) == nil && d.Remaining() == 0, "decodes")
	if kept != nil {
		sym.Assert(kept(), "a skipped field keeps what it held")
	}
	sym.Assert(sym.Eq(v, t), "every tag word has its effect when decoding")
	sym.Reach("words")
}

type tSizedRec struct {
	N    uint8      `bin:"sizeof=L"`
	Kid  *tSizedRec `bin:"optional"`
	M    uint16     `bin:"sizeof=K"`
	Kids []tSizedRec
	L    []uint8
	K    []uint16
}

func (b *B) sizedRec(d int) tSizedRec {
	var v tSizedRec
	n, m := sym.Choose("n", 3), sym.Choose("m", 2)
	v.N = uint8(n)
	b.out = append(b.out, byte(n))
	kid := d > 0 && sym.Choose("kid", 2) == 1
	b.opt(kid)
	if kid {
		k := b.sizedRec(d - 1)
		v.Kid = &k
	}
	v.M = uint16(m)
	b.out = append(b.out, byte(m), 0)
	if d > 0 && sym.Choose("kids", 2) == 1 {
		b.length(1)
		v.Kids = []tSizedRec{b.sizedRec(d - 1)}
	} else {
		b.length(0)
	}
	v.L = b.arr(n)
	for i := 0; i < m; i++ {
		v.K = append(v.K, b.u16(false))
	}
	return v
}

// Sized lists of a recursive type: each level has its own sizes.
func C18_sizeofRecursive() {
	e := chooseEnc()
	b := &B{e: e}
	v := b.sizedRec(1)
	out, err := marshal(e, &v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "each level uses its own sizes")
	var g tSizedRec
	d := newDec(e, b.out)
	sym.Assert(d.Decode(&g) == nil && d.Remaining() == 0 && sym.Eq(&v, &g), "each level uses its own sizes when decoding")
	sym.Reach("recursive")
}
