package h

import (
	"reflect"

	bin "github.com/gagliardetto/binary"

	"github.com/gagliardetto/binary/zz_verif/sym"
)

func freshLike(p interface{}) interface{} {
	return reflect.New(reflect.TypeOf(p).Elem()).Interface()
}

// cuts: every prefix length of short encodings; for long ones both ends, the middle and a stride.
func cuts(n int) []int {
	var out []int
	stride := 1
	if n > 400 {
		stride = n / 12
		if sym.Tier() > 0 {
			stride = n / 40
		}
	}
	for i := 0; i < n; i++ {
		if i < 14 || i >= n-14 || i%stride == 0 {
			out = append(out, i)
		}
	}
	return out
}

// Every proper prefix of every catalogue value's encoding is refused.
func C10_truncated() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.ext || en.name == "long" && sym.Tier() == 0 })
	b := &B{e: e, few: true}
	v, fresh := en.mk(b)
	if b.bad {
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	for _, cut := range cuts(len(out)) {
		d := newDec(e, out[:cut])
		err := d.Decode(freshLike(fresh))
		sym.Assert(err != nil, en.name+": a truncated encoding is refused")
	}
	sym.Reach(en.name)
}

// Extra bytes after any catalogue value change nothing and stay unread.
func C10_trailing() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.ext })
	b := &B{e: e, few: sym.Tier() == 0}
	v, fresh := en.mk(b)
	if b.bad {
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	n := []int{1, 3, 9}[sym.Choose("extra", 3)]
	tail := sym.Bytes("tail", n)
	all := append(append([]byte{}, out...), tail...)
	d := newDec(e, all)
	err = d.Decode(fresh)
	sym.Assert(err == nil, en.name+": decodes with bytes following")
	sym.Assert(sym.Eq(v, fresh), en.name+": same value with bytes following")
	sym.Assert(d.Remaining() == n, en.name+": exactly the extra bytes are left")
	rest, err := d.ReadNBytes(n)
	sym.Assert(err == nil && sym.BytesEq(rest, tail), en.name+": the extra bytes are intact")
	sym.Observe("value", fresh)
	sym.Reach(en.name)
}

// Two values of any catalogue types back to back decode one after the other.
func C10_stream() {
	e := chooseEnc()
	skip := func(en *entry) bool { return en.ext || en.long || en.name == "enum-255" }
	en := pickEntry(e, skip)
	var buf []byte
	b1, b2 := &B{e: e}, &B{e: e}
	v1, f1 := en.mk(b1)
	v2, f2 := mkScalars(b2)
	for _, v := range []interface{}{v1, v2} {
		out, err := marshal(e, v)
		sym.Assert(err == nil, "encodes")
		buf = append(buf, out...)
	}
	d := newDec(e, buf)
	sym.Assert(d.Decode(f1) == nil, en.name+": first of two decodes")
	sym.Assert(d.Decode(f2) == nil, en.name+": the following value decodes")
	sym.Assert(sym.Eq(v1, f1) && sym.Eq(v2, f2), en.name+": both values intact")
	sym.Assert(d.Remaining() == 0, en.name+": stream consumed")
	sym.Reach(en.name)
}

// libValues: each library type on its own, with symbolic contents.
var libNames = []string{"SafeString", "Bool", "HexBytes", "Varint16", "Varuint16", "Varuint32", "Varint32", "JSONFloat64", "Int64", "Uint64", "Uint128", "Int128", "Float128", "TypeID"}

func libValue(k int) interface{} {
	switch k {
	case 0:
		b := sym.Bytes("s", 2) // ASCII: invalid UTF-8 is replaced on decoding
		sym.Assume(b[0] < 0x80 && b[1] < 0x80)
		v := bin.SafeString(b)
		return &v
	case 1:
		v := bin.Bool(sym.Bool("b"))
		return &v
	case 2:
		v := bin.HexBytes(sym.Bytes("h", 2))
		return &v
	case 3:
		v := bin.Varint16(sym.I16("v"))
		return &v
	case 4:
		v := bin.Varuint16(sym.U16("v"))
		return &v
	case 5:
		v := bin.Varuint32(sym.U32("v"))
		return &v
	case 6:
		v := bin.Varint32(sym.I32("v"))
		return &v
	case 7:
		v := bin.JSONFloat64(sym.F64("f"))
		sym.Assume(v == v)
		return &v
	case 8:
		v := bin.Int64(sym.I64("v"))
		return &v
	case 9:
		v := bin.Uint64(sym.U64("v"))
		return &v
	case 10:
		return &bin.Uint128{Lo: sym.U64("lo"), Hi: sym.U64("hi")}
	case 11:
		return &bin.Int128{Lo: sym.U64("lo"), Hi: sym.U64("hi")}
	case 12:
		return &bin.Float128{Lo: sym.U64("lo"), Hi: sym.U64("hi")}
	}
	var t bin.TypeID
	copy(t[:], sym.Bytes("id", 8))
	return &t
}

// Each library type on its own: back as it was, alone or with bytes following; every proper prefix of its encoding is refused,
// through Decode and through its own method.
func C10_library() {
	e := chooseEnc()
	k := sym.Choose("type", len(libNames))
	name := libNames[k]
	v := libValue(k)
	out, err := marshal(e, v)
	sym.Assert(err == nil, name+": encodes")
	fresh := freshLike(v)
	tail := sym.Bytes("tail", 3)
	d := newDec(e, append(append([]byte{}, out...), tail...))
	sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 3, name+": decodes with bytes following")
	sym.Assert(sym.Eq(v, fresh), name+": same value")
	for cut := 0; cut < len(out); cut++ {
		sym.Assert(newDec(e, out[:cut]).Decode(freshLike(v)) != nil, name+": a truncated encoding is refused")
		if u, ok := freshLike(v).(bin.BinaryUnmarshaler); ok {
			sym.Assert(u.UnmarshalWithDecoder(newDec(e, out[:cut])) != nil, name+": a truncated encoding is refused by its own method")
		}
	}
	sym.Reach(name)
}
