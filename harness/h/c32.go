package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type entryV struct {
	A uint16
	S string
	B []uint8
	O *uint32 `bin:"optional"`
	M map[uint8]uint8
}

func entryVal() *entryV {
	v := &entryV{A: sym.U16("a"), S: sym.String("s", sym.Choose("slen", 3)), B: sym.Bytes("b", sym.Choose("blen", 2)+1), M: map[uint8]uint8{sym.U8("k"): sym.U8("m")}}
	if sym.Choose("present", 2) == 1 {
		x := sym.U32("o")
		v.O = &x
	}
	return v
}

// panics runs f and tells whether it panicked.
func panics(f func()) (p bool) {
	p = true
	defer func() { _ = recover() }()
	f()
	return false
}

// Every way of asking for an encoding gives the same bytes and values.
func C32_agree() {
	e := chooseEnc()
	v := entryVal()
	var b1, b2 bytes.Buffer
	en := newEnc(e, &b1)
	sym.Assert(en.Encode(v) == nil, "constructor of the encoding")
	sym.Assert(en.IsBin() == (e == eBin) && en.IsBorsh() == (e == eBorsh) && en.IsCompactU16() == (e == eCompact), "encoder predicates")
	sym.Assert(bin.NewEncoderWithEncoding(&b2, encOf(e)).Encode(v) == nil, "constructor with the encoding")
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b1.Bytes()) && sym.BytesEq(out, b2.Bytes()), "all forms write the same bytes")

	how := sym.Choose("decoder", 4)
	var got entryV
	switch how {
	case 0:
		err = unmarshal(e, &got, out)
	case 1:
		d := newDec(e, out)
		sym.Assert(d.IsBin() == (e == eBin) && d.IsBorsh() == (e == eBorsh) && d.IsCompactU16() == (e == eCompact), "decoder predicates")
		err = d.Decode(&got)
	case 2:
		err = bin.NewDecoderWithEncoding(out, encOf(e)).Decode(&got)
	case 3:
		d := newDec(sym.Choose("first", 3), out)
		d.SetEncoding(encOf(e))
		sym.Assert(d.IsBin() == (e == eBin) && d.IsBorsh() == (e == eBorsh) && d.IsCompactU16() == (e == eCompact), "decoder predicates after the switch")
		err = d.Decode(&got)
		sym.Assert(d.Remaining() == 0, "consumed whole")
	}
	sym.Assert(err == nil && sym.Eq(v, &got), "all forms read the same value")
	sym.Observe("out", out)
	sym.Reach("agree")
}

// Switching a decoder between items: each item is read in the encoding set for it.
func C32_switch() {
	n := 2 + sym.Tier()
	var data []byte
	var es []int
	var vs [][]byte
	for i := 0; i < n; i++ {
		e := chooseEnc()
		v := sym.Bytes("v", sym.Choose("len", 3))
		data = append(refLen(data, e, len(v)), v...)
		es = append(es, e)
		vs = append(vs, v)
	}
	d := newDec(chooseEnc(), data)
	for i := range es {
		d.SetEncoding(encOf(es[i]))
		if sym.Choose("how", 2) == 0 {
			var got []byte
			sym.Assert(d.Decode(&got) == nil && len(got) == len(vs[i]) && sym.BytesEq(got, vs[i]), "item in its own encoding")
		} else {
			got, err := d.ReadByteSlice()
			sym.Assert(err == nil && len(got) == len(vs[i]) && sym.BytesEq(got, vs[i]), "item in its own encoding (reader)")
		}
	}
	sym.Assert(d.Remaining() == 0, "consumed whole")
	sym.Reach("switch")
}

// Unknown encodings are refused by the constructors.
func C32_invalid() {
	x := bin.Encoding(sym.Int("encoding"))
	known := sym.Or(x == bin.EncodingBin, x == bin.EncodingBorsh, x == bin.EncodingCompactU16)
	sym.Assert(panics(func() { bin.NewDecoderWithEncoding(nil, x) }) == !known, "decoder constructor")
	sym.Assert(panics(func() { bin.NewEncoderWithEncoding(&bytes.Buffer{}, x) }) == !known, "encoder constructor")
	n := 0
	for _, b := range []bool{x.IsBin(), x.IsBorsh(), x.IsCompactU16()} {
		if b {
			n++
		}
	}
	sym.Assert((n == 1) == known && n <= 1, "exactly one predicate holds of a known encoding")
	sym.Assert((x.String() != "") == known, "named exactly when known")
	sym.Reach("checked")
}

// A target that cannot be decoded into is refused with the documented error and nothing is consumed.
func C32_target() {
	e := chooseEnc()
	data := sym.Bytes("data", 4)
	d := newDec(e, data)
	var err error
	switch sym.Choose("target", 5) {
	case 0:
		err = d.Decode(nil)
	case 1:
		err = d.Decode(entryV{})
	case 2:
		err = d.Decode((*entryV)(nil))
	case 3:
		err = d.Decode(uint8(3))
	case 4:
		err = d.Decode((*uint8)(nil))
	}
	_, ok := err.(*bin.InvalidDecoderError)
	sym.Assert(ok, "refused as an invalid target")
	sym.Assert(d.Position() == 0, "nothing consumed")
	sym.Assert(err.Error() != "", "described")
	sym.Reach("refused")
}
