package h

import (
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// One optional field between two plain ones, per field type.
type (
	oU8 struct {
		P uint8
		A uint8 `bin:"optional"`
		Z uint16
	}
	oI16 struct {
		P uint8
		A int16 `bin:"optional big"`
		Z uint16
	}
	oU32 struct {
		P uint8
		A uint32 `bin:"optional"`
		Z uint16
	}
	oI64 struct {
		P uint8
		A int64 `bin:"option"`
		Z uint16
	}
	oBool struct {
		P uint8
		A bool `bin:"optional"`
		Z uint16
	}
	oF64 struct {
		P uint8
		A float64 `bin:"optional"`
		Z uint16
	}
	oF32 struct {
		P uint8
		A float32 `bin:"optional"`
		Z uint16
	}
	oStr struct {
		P uint8
		A string `bin:"optional"`
		Z uint16
	}
	oRaw struct {
		P uint8
		A []byte `bin:"optional"`
		Z uint16
	}
	oU16s struct {
		P uint8
		A []uint16 `bin:"optional"`
		Z uint16
	}
	oInners struct {
		P uint8
		A []inner `bin:"optional"`
		Z uint16
	}
	oArr struct {
		P uint8
		A [2]uint8 `bin:"optional"`
		Z uint16
	}
	oInner struct {
		P uint8
		A oPair `bin:"optional"`
		Z uint16
	}
	oMap struct {
		P uint8
		A map[uint8]uint16 `bin:"optional"`
		Z uint16
	}
	oPU8 struct {
		P uint8
		A *uint8 `bin:"optional"`
		Z uint16
	}
	oPInner struct {
		P uint8
		A *oPair `bin:"optional"`
		Z uint16
	}
	oPRaw struct {
		P uint8
		A *[]byte `bin:"optional"`
		Z uint16
	}
	oPtrs struct {
		P uint8
		A []*uint16 `bin:"optional"`
		Z uint16
	}
	oNamed struct {
		P uint8
		A nU16 `bin:"optional"`
		Z uint16
	}
	oFix struct {
		P uint8
		A mFix `bin:"optional"`
		Z uint16
	}
	oPFix struct {
		P uint8
		A *mFix `bin:"optional"`
		Z uint16
	}
	oPPtr struct {
		P uint8
		A *mPtr `bin:"optional"`
		Z uint16
	}
	oU128 struct {
		P uint8
		A bin.Uint128 `bin:"optional"`
		Z uint16
	}
	oPP struct {
		P uint8
		A **uint8 `bin:"optional"`
		Z uint16
	}
	oEnum struct {
		P uint8
		A tEnumIn `bin:"optional"`
		Z uint16
	}

	// c-option twins (Borsh)
	cU8 struct {
		P uint8
		A uint8 `bin:"coption"`
		Z uint16
	}
	cStr struct {
		P uint8
		A string `bin:"coption"`
		Z uint16
	}
	cRaw struct {
		P uint8
		A []byte `bin:"coption"`
		Z uint16
	}
	cPInner struct {
		P uint8
		A *oPair `bin:"coption"`
		Z uint16
	}
	cInner struct {
		P uint8
		A oPair `bin:"coption"`
		Z uint16
	}
	cPtrs struct {
		P uint8
		A []*uint16 `bin:"coption"`
		Z uint16
	}
	cFix struct {
		P uint8
		A mFix `bin:"coption"`
		Z uint16
	}
	cI64 struct {
		P uint8
		A int64 `bin:"coption"`
		Z uint16
	}
)

type oPair struct {
	X uint8
	Y *uint16
}

// optKind: how to draw a non-nil field value; zero tells whether that value counts as absent.
type optKind struct {
	name string
	mk   func() interface{}
	fill func(b *B) (v interface{}, zero bool)
	encs int
	c    bool // c-option
}

func fillU8(b *B) (interface{}, bool) { v := b.u8(); return v, v == 0 }
func fillStr(b *B) (interface{}, bool) {
	n := b.pick("len", 0, 1, 2)
	return b.str(n), n == 0
}
func fillRaw(b *B) (interface{}, bool) { return b.bytes(b.pick("len", 0, 1, 3)), false }
func fillPair(b *B) (interface{}, bool) {
	v := oPair{X: b.u8()}
	y := b.u16(false)
	v.Y = &y
	return v, false
}
func fillPPair(b *B) (interface{}, bool) {
	v, _ := fillPair(b)
	p := v.(oPair)
	return &p, false
}
func fillPtrs(b *B) (interface{}, bool) {
	n := b.pick("len", 0, 2)
	b.length(n)
	v := []*uint16{}
	for i := 0; i < n; i++ {
		x := b.u16(false)
		v = append(v, &x)
	}
	return v, false
}
func fillFix(b *B) (interface{}, bool) { v := b.fix(); return v, v.V == 0 }
func fillI64(b *B) (interface{}, bool) { v := b.i64(false); return v, v == 0 }

var optKinds = []optKind{
	{"uint8", func() interface{} { return &oU8{} }, fillU8, onAll, false},
	{"int16-big", func() interface{} { return &oI16{} }, func(b *B) (interface{}, bool) { v := b.i16(true); return v, v == 0 }, onAll, false},
	{"uint32", func() interface{} { return &oU32{} }, func(b *B) (interface{}, bool) { v := b.u32(false); return v, v == 0 }, onAll, false},
	{"int64", func() interface{} { return &oI64{} }, fillI64, onAll, false},
	{"bool", func() interface{} { return &oBool{} }, func(b *B) (interface{}, bool) { v := b.boolean(); return v, !v }, onAll, false},
	{"float64", func() interface{} { return &oF64{} }, func(b *B) (interface{}, bool) {
		v := b.f64(false)
		return v, math.Float64bits(v) == 0
	}, onAll, false},
	{"float32", func() interface{} { return &oF32{} }, func(b *B) (interface{}, bool) {
		v := b.f32(false)
		return v, math.Float32bits(v) == 0
	}, onAll, false},
	{"string", func() interface{} { return &oStr{} }, fillStr, onAll, false},
	{"bytes", func() interface{} { return &oRaw{} }, fillRaw, onAll, false},
	{"uint16 list", func() interface{} { return &oU16s{} }, func(b *B) (interface{}, bool) {
		n := b.pick("len", 0, 2)
		b.length(n)
		v := []uint16{}
		for i := 0; i < n; i++ {
			v = append(v, b.u16(false))
		}
		return v, false
	}, onAll, false},
	{"struct list", func() interface{} { return &oInners{} }, func(b *B) (interface{}, bool) {
		n := b.pick("len", 0, 2)
		b.length(n)
		v := []inner{}
		for i := 0; i < n; i++ {
			v = append(v, b.inner())
		}
		return v, false
	}, onAll, false},
	{"array", func() interface{} { return &oArr{} }, func(b *B) (interface{}, bool) {
		v := [2]uint8{b.u8(), b.u8()}
		return v, sym.And(v[0] == 0, v[1] == 0)
	}, onAll, false},
	{"struct", func() interface{} { return &oInner{} }, fillPair, onAll, false},
	{"map", func() interface{} { return &oMap{} }, func(b *B) (interface{}, bool) {
		b.length(1)
		k := b.u8()
		return map[uint8]uint16{k: b.u16(false)}, false
	}, onAll, false},
	{"*uint8", func() interface{} { return &oPU8{} }, func(b *B) (interface{}, bool) { v := b.u8(); return &v, false }, onAll, false},
	{"*struct", func() interface{} { return &oPInner{} }, fillPPair, onAll, false},
	{"*bytes", func() interface{} { return &oPRaw{} }, func(b *B) (interface{}, bool) {
		v := b.bytes(b.pick("len", 0, 2))
		return &v, false
	}, onAll, false},
	{"pointer list", func() interface{} { return &oPtrs{} }, fillPtrs, onAll, false},
	{"named", func() interface{} { return &oNamed{} }, func(b *B) (interface{}, bool) { v := nU16(b.u16(false)); return v, v == 0 }, onAll, false},
	{"marshaler", func() interface{} { return &oFix{} }, fillFix, onAll, false},
	{"*marshaler", func() interface{} { return &oPFix{} }, func(b *B) (interface{}, bool) { v := b.fix(); return &v, false }, onAll, false},
	{"*pointer-marshaler", func() interface{} { return &oPPtr{} }, func(b *B) (interface{}, bool) { return b.mptr(), false }, onAll, false},
	{"uint128", func() interface{} { return &oU128{} }, func(b *B) (interface{}, bool) {
		v := b.u128(false)
		return v, sym.And(v.Lo == 0, v.Hi == 0)
	}, onAll, false},
	{"**uint8", func() interface{} { return &oPP{} }, func(b *B) (interface{}, bool) { v := b.u8(); p := &v; return &p, false }, onAll, false},
	{"enum", func() interface{} { return &oEnum{} }, func(b *B) (interface{}, bool) {
		v := b.enumIn()
		return v, sym.And(v.Kind == 0, v.X == 0)
	}, onBsh, false},
	{"c uint8", func() interface{} { return &cU8{} }, fillU8, onBsh, true},
	{"c int64", func() interface{} { return &cI64{} }, fillI64, onBsh, true},
	{"c string", func() interface{} { return &cStr{} }, fillStr, onBsh, true},
	{"c bytes", func() interface{} { return &cRaw{} }, fillRaw, onBsh, true},
	{"c *struct", func() interface{} { return &cPInner{} }, fillPPair, onBsh, true},
	{"c struct", func() interface{} { return &cInner{} }, fillPair, onBsh, true},
	{"c pointer list", func() interface{} { return &cPtrs{} }, fillPtrs, onBsh, true},
	{"c marshaler", func() interface{} { return &cFix{} }, fillFix, onBsh, true},
}

func pickOpt(e int) *optKind {
	var idx []int
	for i := range optKinds {
		if optKinds[i].encs&(1<<uint(e)) != 0 {
			idx = append(idx, i)
		}
	}
	return &optKinds[idx[sym.Choose("kind", len(idx))]]
}

func (k *optKind) flagLen(e int) int {
	if e == eBin || k.c {
		return 4
	}
	return 1
}

// Encoding: a zero value is the absent flag alone; anything else (an empty list or a
// pointer to zero included) is the present flag and the plain encoding; the fields around are untouched.
func C14_encode() {
	e := chooseEnc()
	k := pickOpt(e)
	s := k.mk()
	rv := reflect.ValueOf(s).Elem()
	pl := &B{e: e}
	absent := sym.Choose("nil", 2) == 1
	if !absent {
		v, zero := k.fill(pl)
		rv.Field(1).Set(reflect.ValueOf(v))
		absent = zero
	}
	p, z := sym.U8("p"), sym.U16("z")
	rv.Field(0).SetUint(uint64(p))
	rv.Field(2).SetUint(uint64(z))
	want := []byte{p}
	flag := make([]byte, k.flagLen(e))
	if absent {
		want = append(want, flag...)
	} else {
		flag[0] = 1
		want = append(append(want, flag...), pl.out...)
	}
	want = le(want, uint64(z), 2)
	out, err := marshal(e, s)
	sym.Assert(err == nil, k.name+": encodes")
	sym.Assert(sym.BytesEq(out, want), k.name+": flag and payload are exactly as specified")
	sym.Observe("bytes", out)
	sym.Reach(k.name)
}

// Decoding, over a used target and with every flag value: absent means zero and nothing
// more consumed, present means exactly the payload; the following field is never disturbed.
func C14_decode() {
	e := chooseEnc()
	k := pickOpt(e)
	pl := &B{e: e}
	want, _ := k.fill(pl)
	p, z := sym.U8("p"), sym.U16("z")
	flag := sym.Bytes("flag", k.flagLen(e))
	in := append(append([]byte{p}, flag...), pl.out...)
	in = le(in, uint64(z), 2)
	in = append(in, 0xee, 0xff)
	t := dirtyOf(k.mk())
	rv := reflect.ValueOf(t).Elem()
	d := newDec(e, in)
	err := d.Decode(t)
	nonzero := false
	for _, f := range flag {
		nonzero = sym.Or(nonzero, f != 0)
	}
	if k.c {
		over := sym.Or(flag[0] > 1, flag[1] != 0, flag[2] != 0, flag[3] != 0)
		if over {
			sym.Assert(err != nil, k.name+": a c-option flag above 1 is refused")
			sym.Reach(k.name + "/bad flag")
			return
		}
	}
	sym.Assert(err == nil, k.name+": decodes")
	sym.Assert(rv.Field(0).Uint() == uint64(p), k.name+": preceding field")
	if nonzero {
		sym.Assert(sym.Eq(want, rv.Field(1).Interface()) || k.name == "enum", k.name+": present payload")
		if k.name == "enum" {
			w, g := want.(tEnumIn), rv.Field(1).Interface().(tEnumIn)
			sym.Assert(w.Kind == g.Kind && (w.Kind == 0 && w.X == g.X || w.Kind == 1 && w.Y == g.Y), k.name+": present payload")
		}
		sym.Assert(rv.Field(2).Uint() == uint64(z), k.name+": following field after a present value")
		sym.Assert(d.Position() == uint(1+len(flag)+len(pl.out)+2), k.name+": consumed flag and payload")
		sym.Reach(k.name + "/present")
		return
	}
	f := rv.Field(1)
	if k.name == "**uint8" && !f.IsNil() {
		f = f.Elem() // of a chain of pointers the last one is nil, as in encoding/json
	}
	sym.Assert(f.IsZero(), k.name+": absent leaves zero")
	rest := in[1+len(flag):]
	sym.Assert(rv.Field(2).Uint() == uint64(rest[0])|uint64(rest[1])<<8, k.name+": following field comes right after an absent flag")
	sym.Assert(d.Position() == uint(1+len(flag)+2), k.name+": absent consumes just the flag")
	sym.Reach(k.name + "/absent")
}

// The flag cut short or the payload cut short is an error, never a value.
func C14_cut() {
	e := chooseEnc()
	k := pickOpt(e)
	pl := &B{e: e}
	k.fill(pl)
	flag := make([]byte, k.flagLen(e))
	flag[0] = 1
	in := append(append([]byte{7}, flag...), pl.out...)
	n := sym.Choose("cut", len(in)-1) + 1
	sym.Assert(unmarshal(e, k.mk(), in[:n]) != nil, k.name+": truncated optional is refused")
	sym.Reach(k.name)
}

// Optionality does not leak: the catalogue's nested optional structs, over used targets.
func C14_nested() {
	e := chooseEnc()
	en := pickEntry(e, named("optional-pointers", "optional-nested", "c-option", "recursive", "marshalers-optional", "marshalers-c-option"))
	b := &B{e: e}
	v, fresh := en.mk(b)
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), en.name+": bytes")
	t := dirtyOf(fresh)
	sym.Assert(unmarshal(e, t, b.out) == nil && sym.Eq(v, t), en.name+": value")
	sym.Reach(en.name)
}
