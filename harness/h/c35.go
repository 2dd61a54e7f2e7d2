package h

import (
	"bytes"
	"encoding/json"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type parOp struct {
	e   int
	b   *B
	v   interface{}
	got interface{}
	out []byte
	err error
	dec bool
	nm  string
}

func (p *parOp) run() {
	if p.dec {
		p.err = unmarshal(p.e, p.got, p.b.out)
	} else {
		p.out, p.err = marshal(p.e, p.v)
	}
}

func (p *parOp) check() {
	sym.Assert(p.err == nil, p.nm+": succeeds as it does alone")
	if p.dec {
		sym.Assert(sym.Eq(p.got, p.v), p.nm+": decodes as it does alone")
	} else if p.b.free {
		sym.Assert(len(p.out) == len(p.b.out), p.nm+": encodes as it does alone")
	} else {
		sym.Assert(sym.BytesEq(p.out, p.b.out), p.nm+": encodes as it does alone")
	}
}

// An encode or decode of every catalogue type at the same time as another encode of the same value, or as unrelated encodes
// and decodes: no shared state is touched without synchronisation and both give what they give alone.
func C35_codec() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long })
	b := &B{e: e}
	v, got := en.mk(b)
	if b.bad {
		sym.Assume(false)
	}
	f := &parOp{e: e, b: b, v: v, got: got, nm: en.name}
	g := &parOp{e: e, b: b, v: v, nm: en.name}
	switch sym.Choose("ops", 5) {
	case 4:
		f.dec, g.dec = true, true
		g.got = freshLike(got)
		if en.name == "skipped" {
			g.got = cloneOf(got)
		}
		sym.Par(f.run, g.run, func() { f.check(); g.check() })
	case 0:
		sym.Par(f.run, g.run, func() { f.check(); g.check() })
	case 1:
		f.dec = true
		sym.Par(f.run, g.run, func() { f.check(); g.check() })
	case 2:
		sym.Par(f.run, func() { doOther((e + 1) % 3) }, f.check)
	default:
		f.dec = true
		sym.Par(f.run, func() { doOther(e) }, f.check)
	}
	sym.Reach(en.name)
}

// Two values of the same type, in the same or in different encodings, at the same time.
func C35_same() {
	e := chooseEnc()
	o := otherEnc(e)
	pick := named("scalars", "byte-order", "recursive", "nested", "library", "sized", "enum")
	en := pickEntry(e, func(en *entry) bool { return pick(en) || en.encs&(1<<uint(o)) == 0 })
	b1, b2 := &B{e: e}, &B{e: o}
	v1, got1 := en.mk(b1)
	v2, got2 := en.mk(b2)
	if b1.bad || b2.bad {
		sym.Assume(false)
	}
	k := sym.Choose("ops", 4)
	f := &parOp{e: e, b: b1, v: v1, got: got1, nm: en.name, dec: k&1 != 0}
	g := &parOp{e: o, b: b2, v: v2, got: got2, nm: en.name, dec: k&2 != 0}
	sym.Par(f.run, g.run, func() { f.check(); g.check() })
	sym.Reach(en.name)
}

type parVariant struct{ bin.BaseVariant }

type parV1 struct{ A uint16 }

// toolOp is an operation of the rest of the package on its own data.
func toolOp(k int, x uint8) interface{} {
	name := string([]byte{'a' + x&3, 'B', 'c'})
	switch k {
	case 0:
		return bin.SighashInstruction(name)
	case 1:
		return bin.SighashAccount(name)
	case 2:
		return bin.ToPascalCase(name) + bin.ToRustSnakeCase(name) + bin.ToSnakeForSighash(name)
	case 3:
		d := [8]byte{x, 2, 3, 4, 5, 6, 7, x}
		return bin.FormatByteSlice([]byte{x & 7, 9}) + bin.FormatDiscriminator([8]byte{x & 7, d[1]})
	case 4:
		u := bin.Uint128{Lo: uint64(x), Hi: 0}
		return append(u.Bytes(), u.BigInt().Bytes()...)
	case 5:
		i := bin.Int128{Lo: uint64(x), Hi: 1 << 63}
		return i.BigInt().Bytes()
	case 6:
		var u bin.Uint64
		err := json.Unmarshal([]byte{'"', '0' + x&7, '"'}, &u)
		return []interface{}{uint64(u), err == nil}
	case 7:
		j, err := json.Marshal(bin.Int64(int64(x & 7)))
		return []interface{}{j, err == nil}
	case 8:
		j, err := json.Marshal(bin.HexBytes{x})
		return []interface{}{j, err == nil}
	case 9:
		def := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: name, Type: (*parV1)(nil)}})
		var v parVariant
		err := v.UnmarshalBinaryVariant(bin.NewBorshDecoder([]byte{0, x, 1}), def)
		id, tn, impl := v.Obtain(def)
		return []interface{}{err == nil, id.Bytes(), tn, impl}
	case 10:
		var buf []byte
		err := bin.EncodeCompactU16Length(&buf, int(x)<<8)
		n, size, err2 := bin.DecodeCompactU16(buf)
		m, err3 := bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader(buf))
		return []interface{}{buf, err == nil, n, size, err2 == nil, m, err3 == nil}
	case 11:
		return []interface{}{bin.TypeIDFromUint32(uint32(x), bin.LE).Bytes(), bin.TypeIDFromUvarint32(uint32(x) << 20).Bytes(), bin.TypeIDFromUint8(x).Uint8()}
	case 12:
		w := bin.NewWriteByWrite("w")
		w.Write([]byte{x & 7})
		w.Write([]byte{2})
		return []interface{}{w.Bytes(), w.String()}
	case 13:
		d := bin.NewBinDecoder([]byte{x, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1, 'a', 3})
		u, err := d.ReadUint128(bin.BE)
		s, err2 := d.ReadString()
		n, err3 := d.ReadVarint16()
		return []interface{}{u.Hi, u.Lo, err == nil, s, err2 == nil, n, err3 == nil}
	case 14:
		var buf bytes.Buffer
		en := bin.NewCompactU16Encoder(&buf)
		err := en.WriteUint128(bin.Uint128{Lo: uint64(x), Hi: 7}, bin.LE)
		err2 := en.WriteString(name)
		err3 := en.WriteFloat64(float64(1.5), bin.BE)
		err4 := en.WriteUVarInt(int(x))
		return []interface{}{buf.Bytes(), err == nil, err2 == nil, err3 == nil, err4 == nil, en.Written()}
	}
	d := bin.NewBorshDecoder([]byte{x, 1, 2})
	err := d.Decode(new(uint64))
	n, err2 := bin.BorshByteCount([]uint16{uint16(x)})
	return []interface{}{err != nil, d.Position(), n, err2 == nil}
}

const toolOps = 16

// Two independent calls of the rest of the package at the same time.
func C35_tools() {
	k := sym.Choose("op", toolOps)
	l := k
	if sym.Choose("pair", 2) == 1 {
		l = (k + 1) % toolOps
	}
	x, y := sym.U8("x"), sym.U8("y")
	var r1, r2 interface{}
	sym.Par(func() { r1 = toolOp(k, x) }, func() { r2 = toolOp(l, y) }, func() {
		sym.Assert(sym.Eq(r1, toolOp(k, x)), "first operation as alone")
		sym.Assert(sym.Eq(r2, toolOp(l, y)), "second operation as alone")
	})
	sym.Reach("done")
}
