package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// pairOf draws two values of one catalogue type, the first in encoding o.
func pairOf(e, o int) (en *entry, b1, b2 *B, v1, f1, v2, f2 interface{}) {
	en = pickEntry(e, func(en *entry) bool { return en.long || en.name == "enum-255" || en.encs&(1<<uint(o)) == 0 })
	b1, b2 = &B{e: o}, &B{e: e}
	v1, f1 = en.mk(b1)
	v2, f2 = en.mk(b2)
	if b1.bad || b2.bad {
		sym.Assume(false)
	}
	return
}

func (b *B) same(got []byte) bool {
	if b.free {
		return len(got) == len(b.out)
	}
	return sym.BytesEq(got, b.out)
}

func otherEnc(e int) int {
	if sym.Choose("first in", 2) == 1 {
		return (e + 1) % 3
	}
	return e
}

// A decode after that of another value of the same type, in the same or another encoding.
func C25_after() {
	e := chooseEnc()
	o := otherEnc(e)
	en, b1, b2, v1, f1, v2, f2 := pairOf(e, o)
	d := newDec(o, b1.out)
	sym.Assert(d.Decode(f1) == nil, en.name+": the first decodes")
	d.SetEncoding(encOf(e))
	d.Reset(b2.out)
	sym.Assert(d.Decode(f2) == nil && d.Remaining() == 0, en.name+": the second decodes")
	sym.Assert(sym.Eq(v2, f2), en.name+": the second value does not depend on the first")
	sym.Assert(sym.Eq(v1, f1), en.name+": the first is kept")
	sym.Reach(en.name)
}

// An encode after that of another value of the same type, in the same or another encoding; byte counts too.
func C26_after() {
	e := chooseEnc()
	o := otherEnc(e)
	en, b1, b2, v1, _, v2, _ := pairOf(e, o)
	_, err := marshal(o, v1)
	sym.Assert(err == nil, en.name+": the first encodes")
	out, err := marshal(e, v2)
	sym.Assert(err == nil && b2.same(out), en.name+": the second encodes as if alone")
	_ = b1
	sym.Reach(en.name)
}

// Byte counts of two values of the same type, one after the other.
func C19_after() {
	e := chooseEnc()
	o := otherEnc(e)
	en, b1, b2, v1, _, v2, _ := pairOf(e, o)
	n, err := byteCount(o, v1)
	sym.Assert(err == nil && n == uint64(len(b1.out)), en.name+": first count")
	n, err = byteCount(e, v2)
	sym.Assert(err == nil && n == uint64(len(b2.out)), en.name+": second count")
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	sym.Assert(enc.Encode(v2) == nil && enc.Written() == len(b2.out), en.name+": written counter")
	sym.Reach(en.name)
}

// Two names one after the other.
func C23_after() {
	a := caseWord(2)
	_ = bin.ToRustSnakeCase(a.text)
	_ = bin.ToPascalCase(a.text)
	caseOK(caseWord(3))
	caseOK(a)
	sym.Reach("after")
}

// Sighashes of two names, one after the other.
func C22_after() {
	a, b := caseWord(2), caseWord(2)
	x := bin.SighashInstruction(a.text)
	y := bin.SighashAccount(a.text)
	sighashOK(bin.SighashAccount(b.text), "account", refPascal(b), "SighashAccount")
	sighashOK(bin.SighashInstruction(b.text), "global", refSnake(b), "SighashInstruction")
	sighashOK(x, "global", refSnake(a), "SighashInstruction kept")
	sighashOK(y, "account", refPascal(a), "SighashAccount kept")
	ns1, ns2 := sym.String("ns", 2), sym.String("ns'", 2)
	n1, n2 := sym.String("n", 2), sym.String("n'", 1)
	p := bin.Sighash(ns1, n1)
	sighashOK(bin.Sighash(ns2, n1), ns2, n1, "same name, other namespace")
	sighashOK(bin.Sighash(ns1, n2), ns1, n2, "same namespace, other name")
	sighashOK(p, ns1, n1, "kept")
	_ = bin.Sighash(ns1, n2)
	n3, ns3 := sym.String("n3", 2), sym.String("ns3", 1)
	sighashOK(bin.Sighash(ns3, n3), ns3, n3, "other split")
	sym.Reach("after")
}

// Two 128-bit values one after the other: no view of one shows in the other's, and results stay as they were.
func C24_after() {
	h1, l1, h2, l2 := sym.U64("h1"), sym.U64("l1"), sym.U64("h2"), sym.U64("l2")
	if sym.Choose("signed", 2) == 0 {
		a, b := bin.Uint128{Hi: h1, Lo: l1}, bin.Uint128{Hi: h2, Lo: l2}
		xa, ya, ba := a.BigInt(), a.HexString(), a.Bytes()
		xb, yb, bb := b.BigInt(), b.HexString(), b.Bytes()
		sym.Assert(sym.BytesEq(xb.FillBytes(make([]byte, 16)), be128(h2, l2)) && sym.StrEq(yb, "0x"+refHex(be128(h2, l2))) && sym.BytesEq(bb, be128(h2, l2)), "second value")
		for i := range bb {
			bb[i] = 0
		}
		xb.SetInt64(1)
		sym.Assert(sym.BytesEq(xa.FillBytes(make([]byte, 16)), be128(h1, l1)) && sym.StrEq(ya, "0x"+refHex(be128(h1, l1))) && sym.BytesEq(ba, be128(h1, l1)), "first value kept")
		sym.Assert(sym.BytesEq(b.Bytes(), be128(h2, l2)) && sym.BytesEq(b.BigInt().FillBytes(make([]byte, 16)), be128(h2, l2)), "the caller owns what it gets")
		sym.Reach("unsigned")
		return
	}
	a, b := bin.Int128{Hi: h1, Lo: l1}, bin.Int128{Hi: h2, Lo: l2}
	xa := a.BigInt()
	xb := b.BigInt()
	n1, ah1, al1 := abs128(h1, l1)
	n2, ah2, al2 := abs128(h2, l2)
	sym.Assert((xb.Sign() < 0) == n2 && sym.BytesEq(xb.FillBytes(make([]byte, 16)), be128(ah2, al2)), "second value")
	xb.SetInt64(1)
	sym.Assert((xa.Sign() < 0) == n1 && sym.BytesEq(xa.FillBytes(make([]byte, 16)), be128(ah1, al1)), "first value kept")
	xa = b.BigInt()
	sym.Assert((xa.Sign() < 0) == n2 && sym.BytesEq(xa.FillBytes(make([]byte, 16)), be128(ah2, al2)), "the caller owns what it gets")
	sym.Reach("signed")
}

// JSON of two wrapper values one after the other.
func C29_after() {
	switch sym.Choose("kind", 3) {
	case 0:
		a, b := sym.I64("a"), sym.I64("b")
		x, err1 := bin.Int64(a).MarshalJSON()
		y, err2 := bin.Int64(b).MarshalJSON()
		var ga, gb bin.Int64
		sym.Assert(err1 == nil && err2 == nil, "marshals")
		sym.Assert(ga.UnmarshalJSON(x) == nil && gb.UnmarshalJSON(y) == nil, "unmarshals")
		sym.Assert(int64(ga) == a && int64(gb) == b, "each its own value")
	case 1:
		a, b := sym.U64("a"), sym.U64("b")
		x, err1 := bin.Uint64(a).MarshalJSON()
		y, err2 := bin.Uint64(b).MarshalJSON()
		var ga, gb bin.Uint64
		sym.Assert(err1 == nil && err2 == nil, "marshals")
		sym.Assert(ga.UnmarshalJSON(x) == nil && gb.UnmarshalJSON(y) == nil, "unmarshals")
		sym.Assert(uint64(ga) == a && uint64(gb) == b, "each its own value")
	case 2:
		a, b := sym.Bytes("a", 1+sym.Choose("n", 2)), sym.Bytes("b", 1+sym.Choose("m", 2))
		x, err1 := bin.HexBytes(a).MarshalJSON()
		y, err2 := bin.HexBytes(b).MarshalJSON()
		var ga, gb bin.HexBytes
		sym.Assert(err1 == nil && err2 == nil, "marshals")
		sym.Assert(ga.UnmarshalJSON(x) == nil && gb.UnmarshalJSON(y) == nil, "unmarshals")
		sym.Assert(sym.BytesEq(ga, a) && sym.BytesEq(gb, b), "each its own value")
		sym.Assert(sym.StrEq(bin.HexBytes(a).String(), refHex(a)), "text")
	}
	sym.Reach("after")
}

// Two listings and two recorders at once.
func C31_after() {
	a, b := sym.Bytes("a", sym.Choose("n", 3)), sym.Bytes("b", sym.Choose("m", 3))
	x := bin.FormatByteSlice(a)
	y := bin.FormatByteSlice(b)
	s, ok := eatList(x, a)
	sym.Assert(ok && sym.StrEq(s, lenText(len(a))), "first listing")
	s, ok = eatList(y, b)
	sym.Assert(ok && sym.StrEq(s, lenText(len(b))), "second listing")
	r1, r2 := bin.NewWriteByWrite("r"), bin.NewWriteByWrite("r")
	_, _ = r1.Write(a)
	_, _ = r2.Write(b)
	_, _ = r1.Write(b)
	sym.Assert(sym.BytesEq(r1.Bytes(), append(append([]byte{}, a...), b...)) && sym.BytesEq(r2.Bytes(), b), "each recorder its own writes")
	sym.Reach("after")
}

// Two numbers one after the other, in either buffer.
func C12_after() {
	m, n := int(sym.U16("m")), int(sym.U16("n"))
	var x, y []byte
	sym.Assert(bin.EncodeCompactU16Length(&x, m) == nil && bin.EncodeCompactU16Length(&y, n) == nil, "accepted")
	sym.Assert(sym.BytesEq(x, refCompact(nil, m)) && sym.BytesEq(y, refCompact(nil, n)), "each its own bytes")
	a, k, err := bin.DecodeCompactU16(x)
	b, l, err2 := bin.DecodeCompactU16(y)
	sym.Assert(err == nil && err2 == nil && a == m && b == n && k == len(x) && l == len(y), "each its own value")
	sym.Reach("after")
}

// Two definitions that name their variants alike, one after the other and alternating.
func C21_after() {
	type one struct{ A uint8 }
	type two struct{ B uint16 }
	d1 := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: "alpha", Type: (*one)(nil)}, {Name: "bravo", Type: (*two)(nil)}})
	d2 := bin.NewVariantDefinition(bin.Uint32TypeIDEncoding, []bin.VariantType{{Name: "bravo", Type: (*one)(nil)}, {Name: "alpha", Type: (*two)(nil)}})
	d3 := bin.NewVariantDefinition(bin.AnchorTypeIDEncoding, []bin.VariantType{{Name: "alpha", Type: (*two)(nil)}})
	d4 := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: "alpha", Type: (*two)(nil)}})
	d5 := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: "alpha", Type: (*two)(nil)}, {Name: "bravo", Type: (*one)(nil)}})
	defs := []*bin.VariantDefinition{d1, d2, d3, d4, d5}
	e := chooseEnc()
	for _, k := range [3]int{sym.Choose("first", 5), sym.Choose("second", 5), sym.Choose("third", 5)} {
		i := 0
		if k < 2 || k == 4 {
			i = sym.Choose("variant", 2)
		}
		x := sym.U16("x")
		var data []byte
		switch k {
		case 0, 3, 4:
			data = []byte{byte(i)}
		case 1:
			data = []byte{byte(i), 0, 0, 0}
		case 2:
			h := refSighash("global", "alpha")
			data = append(data, h...)
		}
		name := []string{"alpha", "bravo"}[i]
		if k == 1 {
			name = []string{"bravo", "alpha"}[i]
		}
		wide := k == 2 || k == 3 || (k == 4) != (i == 1)
		if wide {
			data = le(data, uint64(x), 2)
		} else {
			data = append(data, byte(x))
		}
		var v parVariant
		sym.Assert(v.UnmarshalBinaryVariant(newDec(e, data), defs[k]) == nil, "decodes")
		id, tn, impl := v.Obtain(defs[k])
		sym.Assert(tn == name, "the name its definition gives")
		sym.Assert(id == defs[k].TypeID(name), "the ID its definition gives")
		if wide {
			p, ok := impl.(*two)
			sym.Assert(ok && p.B == x, "the type its definition registers")
		} else {
			p, ok := impl.(*one)
			sym.Assert(ok && p.A == uint8(x), "the type its definition registers")
		}
	}
	sym.Reach("after")
}
