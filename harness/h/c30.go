package h

import (
	"bytes"
	"errors"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// Every position of a type with its own marshal methods: exactly its own bytes, decoded through its own method, over used targets.
func C30_positions() {
	e := chooseEnc()
	en := pickEntry(e, named("marshalers", "marshaler-uint-elements", "marshalers-optional", "marshalers-c-option", "marshalers-top", "library", "library-big", "varint"))
	b := &B{e: e}
	v, fresh := en.mk(b)
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	sym.Assert(sym.BytesEq(out, b.out), en.name+": the types' own bytes, in the tagged order")
	t := fresh
	if sym.Choose("dirty", 2) == 1 {
		t = dirtyOf(fresh)
	}
	d := newDec(e, b.out)
	sym.Assert(d.Decode(t) == nil && d.Remaining() == 0, en.name+": decodes")
	sym.Assert(sym.Eq(v, t), en.name+": decoded through the types' own method")
	sym.Observe("bytes", out)
	sym.Reach(en.name)
}

var errBad = errors.New("bad value")

// mBad fails on the value 0xee, after writing or reading its byte.
type mBad struct{ V uint8 }

func (m mBad) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteUint8(m.V); err != nil {
		return err
	}
	if m.V == 0xee {
		return errBad
	}
	return nil
}

func (m *mBad) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := d.ReadUint8()
	if err != nil {
		return err
	}
	m.V = v
	if v == 0xee {
		return errBad
	}
	return nil
}

// mBadU: the same for an unsigned kind.
type mBadU uint16

func (m mBadU) MarshalWithEncoder(e *bin.Encoder) error {
	return mBad{uint8(m)}.MarshalWithEncoder(e)
}

func (m *mBadU) UnmarshalWithDecoder(d *bin.Decoder) error {
	var x mBad
	err := x.UnmarshalWithDecoder(d)
	*m = mBadU(x.V)
	return err
}

type tBad struct {
	P uint8
	A mBad
	B *mBad
	C []mBad
	D [2]mBad
	E map[uint8]mBad
	F *mBad `bin:"optional"`
	G []*mBad
	H struct{ X, Y mBad }
	I []mBadU
	J [2]mBadU
	K [][]mBad
	L [1][]mBadU
	M map[uint8][]mBad
	Z uint8
}

type tBadEnum struct {
	K bin.BorshEnum `borsh_enum:"true"`
	A mBad
	B *mBad
	C []mBad
	D [2]mBadU
	E map[uint8]mBad
	F struct{ X mBad }
}

// build draws a tBad; item i of the payloads is symbolic, the others are 1. It returns the offset just after item i.
func badValue(b *B, item int, x uint8) (*tBad, int) {
	v := &tBad{P: 7}
	end, k := 0, 0
	w := func(c uint8) { b.out = append(b.out, c) }
	next := func() uint8 {
		c := uint8(1)
		if k == item {
			c = x
		}
		w(c)
		if k == item {
			end = len(b.out)
		}
		k++
		return c
	}
	w(7)
	v.A.V = next()
	v.B = &mBad{next()}
	b.length(2)
	v.C = []mBad{{next()}, {next()}}
	v.D = [2]mBad{{next()}, {next()}}
	b.length(1)
	w(3)
	v.E = map[uint8]mBad{3: {next()}}
	b.opt(true)
	v.F = &mBad{next()}
	b.length(2)
	v.G = []*mBad{{next()}, {next()}}
	v.H.X = mBad{next()}
	v.H.Y = mBad{next()}
	b.length(2)
	v.I = []mBadU{mBadU(next()), mBadU(next())}
	v.J = [2]mBadU{mBadU(next()), mBadU(next())}
	b.length(1)
	b.length(2)
	v.K = [][]mBad{{{next()}, {next()}}}
	b.length(1)
	v.L[0] = []mBadU{mBadU(next())}
	b.length(1)
	w(4)
	b.length(1)
	v.M = map[uint8][]mBad{4: {{next()}}}
	v.Z = 9
	w(9)
	return v, end
}

const badItems = 20

// An error from a marshaler at any position aborts the encode at that point and reaches the caller; one from an unmarshaler aborts the decode.
func C30_error() {
	e := chooseEnc()
	x := sym.U8("x")
	b := &B{e: e}
	item := sym.Choose("item", badItems)
	v, end := badValue(b, item, x)
	sym.Assert(end > 0, "harness: item exists")
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	err := enc.Encode(v)
	var g tBad
	d := newDec(e, b.out)
	derr := d.Decode(&g)
	if x == 0xee {
		sym.Assert(err != nil && derr != nil, "the error reaches the caller")
		sym.Assert(errors.Is(err, errBad) && errors.Is(derr, errBad), "it is the error the method returned")
		sym.Assert(sym.BytesEq(buf.Bytes(), b.out[:end]), "encoding stops where the method failed")
		sym.Assert(d.Position() == uint(end), "decoding stops where the method failed")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil && derr == nil, "no error otherwise")
	sym.Assert(sym.BytesEq(buf.Bytes(), b.out), "complete encoding otherwise")
	sym.Assert(sym.Eq(v, &g) && d.Remaining() == 0, "complete decoding otherwise")
	sym.Reach("ok")
}

// The same at top level and as an enum variant.
func C30_errorTop() {
	e := chooseEnc()
	x := sym.U8("x")
	var v, g interface{}
	in := []byte{}
	b := &B{e: e}
	switch sym.Choose("kind", 11) {
	case 0:
		v, g, in = mBad{x}, new(mBad), []byte{x}
	case 1:
		v, g, in = &mBad{x}, new(mBad), []byte{x}
	case 2:
		b.length(1)
		v, g, in = []mBad{{x}}, new([]mBad), append(b.out, x)
	case 3:
		b.length(1)
		v, g, in = map[uint8]mBad{1: {x}}, new(map[uint8]mBad), append(b.out, 1, x)
	case 4:
		v, g, in = [2]mBadU{1, mBadU(x)}, new([2]mBadU), []byte{1, x}
	default:
		if e != eBorsh {
			sym.Assume(false)
		}
		g = new(tBadEnum)
		switch sym.Choose("variant", 6) {
		case 0:
			v, in = tBadEnum{K: 0, A: mBad{x}}, []byte{0, x}
		case 1:
			v, in = tBadEnum{K: 1, B: &mBad{x}}, []byte{1, x}
		case 2:
			v, in = tBadEnum{K: 2, C: []mBad{{x}}}, []byte{2, 1, 0, 0, 0, x}
		case 3:
			v, in = tBadEnum{K: 3, D: [2]mBadU{1, mBadU(x)}}, []byte{3, 1, x}
		case 4:
			v, in = tBadEnum{K: 4, E: map[uint8]mBad{5: {x}}}, []byte{4, 1, 0, 0, 0, 5, x}
		case 5:
			v, in = tBadEnum{K: 5, F: struct{ X mBad }{mBad{x}}}, []byte{5, x}
		}
	}
	out, err := marshal(e, v)
	d := newDec(e, in)
	derr := d.Decode(g)
	if x == 0xee {
		sym.Assert(err != nil && derr != nil && errors.Is(err, errBad) && errors.Is(derr, errBad), "the error reaches the caller")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil && sym.BytesEq(out, in), "encodes through the method")
	sym.Assert(derr == nil && d.Remaining() == 0, "decodes through the method")
	sym.Reach("ok")
}

// The library's own types called directly, outside Encode/Decode: little-endian unless configured, no panic, errors on short input.
func C30_direct() {
	e := chooseEnc()
	x := sym.U64("x")
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	n := sym.Choose("len", 18)
	in := roomy(sym.Bytes("in", n))
	d := newDec(e, in)
	val := func(k int) uint64 {
		var u uint64
		for i := 7; i >= 0; i-- {
			u = u<<8 | uint64(in[k+i])
		}
		return u
	}
	var want []byte
	var err, derr error
	need := 8
	switch sym.Choose("type", 6) {
	case 0:
		err = bin.Int64(x).MarshalWithEncoder(enc)
		var g bin.Int64
		derr = g.UnmarshalWithDecoder(d)
		if derr == nil {
			sym.Assert(n >= 8 && uint64(g) == val(0), "value")
		}
		want = le(want, x, 8)
	case 1:
		err = bin.Uint64(x).MarshalWithEncoder(enc)
		var g bin.Uint64
		derr = g.UnmarshalWithDecoder(d)
		if derr == nil {
			sym.Assert(n >= 8 && uint64(g) == val(0), "value")
		}
		want = le(want, x, 8)
	case 2:
		f := bin.JSONFloat64(1.5)
		err = f.MarshalWithEncoder(enc)
		if n >= 8 {
			sym.Assume(!isNaN64(val(0)))
		}
		var g bin.JSONFloat64
		derr = g.UnmarshalWithDecoder(d)
		want = le(want, 0x3ff8000000000000, 8)
	case 3:
		err = bin.Uint128{Lo: x, Hi: 3}.MarshalWithEncoder(enc)
		var g bin.Uint128
		derr = g.UnmarshalWithDecoder(d)
		if derr == nil {
			sym.Assert(n >= 16 && g.Lo == val(0) && g.Hi == val(8), "value")
		}
		want = le(le(want, x, 8), 3, 8)
		need = 16
	case 4:
		err = bin.Int128{Lo: x, Hi: 3}.MarshalWithEncoder(enc)
		var g bin.Int128
		derr = g.UnmarshalWithDecoder(d)
		if derr == nil {
			sym.Assert(n >= 16 && g.Lo == val(0) && g.Hi == val(8), "value")
		}
		want = le(le(want, x, 8), 3, 8)
		need = 16
	case 5:
		err = bin.Float128{Lo: x, Hi: 3}.MarshalWithEncoder(enc)
		var g bin.Float128
		derr = g.UnmarshalWithDecoder(d)
		if derr == nil {
			sym.Assert(n >= 16 && g.Lo == val(0) && g.Hi == val(8), "value")
		}
		want = le(le(want, x, 8), 3, 8)
		need = 16
	}
	sym.Assert(err == nil && sym.BytesEq(buf.Bytes(), want), "written little-endian")
	sym.Assert((derr == nil) == (n >= need), "read exactly when enough data remains")
	sym.Reach("direct")
}
