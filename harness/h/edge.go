package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type reLists struct {
	A []uint16
	B []string
	C []inner2
	D map[uint8]uint16
	E map[string][]uint32
	F [][]uint64
	G []nU8
	H []nU16
	I []int32
	J []uint8
	K [][2]uint16
	L []bool
}

func (b *B) reLists(n int) reLists {
	var v reLists
	b.length(n)
	for i := 0; i < n; i++ {
		v.A = append(v.A, b.u16(false))
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.B = append(v.B, b.str(1))
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.C = append(v.C, inner2{b.u8()})
	}
	b.length(1)
	b.out = append(b.out, byte(n))
	v.D = map[uint8]uint16{uint8(n): b.u16(false)}
	b.length(1)
	b.out = append(refStrLen(b.out, b.e, 1), 'k')
	b.length(n)
	var w []uint32
	for i := 0; i < n; i++ {
		w = append(w, b.u32(false))
	}
	v.E = map[string][]uint32{"k": w}
	b.length(n)
	for i := 0; i < n; i++ {
		b.length(1)
		v.F = append(v.F, []uint64{b.u64(false)})
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.G = append(v.G, nU8(b.u8()))
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.H = append(v.H, nU16(b.u16(false)))
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.I = append(v.I, b.i32(false))
	}
	v.J = b.bytes(n)
	b.length(n)
	for i := 0; i < n; i++ {
		v.K = append(v.K, [2]uint16{b.u16(false), b.u16(false)})
	}
	b.length(n)
	for i := 0; i < n; i++ {
		v.L = append(v.L, b.boolean())
	}
	return v
}

// A second decode into the same variable gives it new lists and maps: those the caller kept from the first are not written to.
func C25_retarget() {
	e := chooseEnc()
	b1, b2 := &B{e: e}, &B{e: e}
	v1 := b1.reLists(1 + sym.Choose("n1", 2))
	v2 := b2.reLists(1 + sym.Choose("n2", 2))
	var t reLists
	sym.Assert(unmarshal(e, &t, b1.out) == nil, "first decode")
	kept := t
	sym.Assert(unmarshal(e, &t, b2.out) == nil && sym.Eq(&v2, &t), "second decode")
	sym.Assert(sym.Eq(&v1, &kept), "lists and maps kept from the first decode are unchanged")
	// nor is the memory behind a list the target was given
	base := []uint16{sym.U16("b0"), sym.U16("b1"), sym.U16("b2")}
	was := append([]uint16{}, base...)
	strs := []string{"a", "b", "c"}
	raws := sym.Bytes("raws", 3)
	wraw := append([]byte{}, raws...)
	t = reLists{A: base[:1], B: strs[:1:1], J: raws[:1]}
	sym.Assert(unmarshal(e, &t, b2.out) == nil && sym.Eq(&v2, &t), "decode over borrowed lists")
	sym.Assert(sym.Eq(&base, &was) && strs[0] == "a" && sym.BytesEq(raws, wraw), "the memory they borrowed is unchanged")
	sym.Reach("retarget")
}

type spare struct {
	A []byte
	B []uint16
	C []uint32
	D []uint64
	E []nU8
	F bin.HexBytes
	G []string
	H []int16
	I [][]byte
	J []inner2
}

// Lists with room behind them: encoding reads exactly the list and writes nothing, not even behind it.
func C26_spare() {
	e := chooseEnc()
	n := sym.Choose("n", 3)
	raw := sym.Bytes("raw", 4)
	u16 := []uint16{sym.U16("w"), sym.U16("w"), sym.U16("w"), sym.U16("w")}
	u32 := []uint32{sym.U32("d"), sym.U32("d"), sym.U32("d")}
	u64 := []uint64{sym.U64("q"), sym.U64("q"), sym.U64("q")}
	nu8 := []nU8{nU8(sym.U8("n")), nU8(sym.U8("n")), nU8(sym.U8("n"))}
	hex := sym.Bytes("hex", 4)
	strs := []string{"a", "bc", "d"}
	i16 := []int16{sym.I16("i"), sym.I16("i"), sym.I16("i")}
	in2 := []inner2{{sym.U8("x")}, {sym.U8("x")}, {sym.U8("x")}}
	v := &spare{raw[:n], u16[:n], u32[:n], u64[:n], nu8[:n], bin.HexBytes(hex[:n]), strs[:n], i16[:n], [][]byte{raw[:n]}, in2[:n]}
	exact := &spare{append([]byte{}, raw[:n]...), append([]uint16{}, u16[:n]...), append([]uint32{}, u32[:n]...), append([]uint64{}, u64[:n]...), append([]nU8{}, nu8[:n]...), append(bin.HexBytes{}, hex[:n]...), append([]string{}, strs[:n]...), append([]int16{}, i16[:n]...), [][]byte{append([]byte{}, raw[:n]...)}, append([]inner2{}, in2[:n]...)}
	type all struct {
		raw, hex []byte
		u16      []uint16
		u32      []uint32
		u64      []uint64
		nu8      []nU8
		strs     []string
		i16      []int16
		in2      []inner2
	}
	was := all{append([]byte{}, raw...), append([]byte{}, hex...), append([]uint16{}, u16...), append([]uint32{}, u32...), append([]uint64{}, u64...), append([]nU8{}, nu8...), append([]string{}, strs...), append([]int16{}, i16...), append([]inner2{}, in2...)}
	out, err := marshal(e, v)
	want, werr := marshal(e, exact)
	sym.Assert(err == nil && werr == nil && sym.BytesEq(out, want), "same bytes with and without room behind the lists")
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	sym.Assert(enc.WriteBytes(raw[:n], true) == nil && enc.WriteBytes(raw[:n], false) == nil, "typed writers")
	_, err = enc.Write(raw[:n])
	sym.Assert(err == nil, "typed writers")
	now := all{raw, hex, u16, u32, u64, nu8, strs, i16, in2}
	sym.Assert(sym.Eq(&was, &now), "nothing behind the lists is written")
	sym.Observe("bytes", out)
	sym.Reach("spare")
}

// Types that bear the names of the package's own but are plain types.
type (
	BorshEnum  uint8
	Uint128    struct{ A uint8 }
	Int64      uint16
	HexBytes   []uint16
	SafeString string
	Bool       uint32
)

type nsOwn struct {
	E struct {
		Tag bin.BorshEnum `borsh_enum:"true"`
		A   uint8
		B   uint16
	}
	U bin.Uint128
	I bin.Int64
	H bin.HexBytes
	S bin.SafeString
	B bin.Bool
}

type nsOther struct {
	E struct {
		Tag BorshEnum `borsh_enum:"true"`
		A   uint8
		B   uint16
	}
	U Uint128
	I Int64
	H HexBytes
	S SafeString
	B Bool
}

func (b *B) own() (interface{}, interface{}) {
	v := &nsOwn{}
	v.E.Tag = 1
	b.out = append(b.out, 1)
	if b.e != eBorsh {
		v.E.A = b.u8()
	}
	v.E.B = b.u16(false)
	v.U = b.u128(false)
	v.I = bin.Int64(b.i64(false))
	v.H = b.bytes(2)
	b.length(2)
	v.S = "xy"
	b.out = append(b.out, "xy"...)
	v.B = bin.Bool(b.boolean())
	return v, &nsOwn{}
}

func (b *B) other() (interface{}, interface{}) {
	v := &nsOther{}
	v.E.Tag = BorshEnum(b.u8())
	v.E.A = b.u8()
	v.E.B = b.u16(false)
	v.U.A = b.u8()
	v.I = Int64(b.u16(false))
	b.length(2)
	v.H = HexBytes{b.u16(false), b.u16(false)}
	v.S = SafeString(b.str(2))
	v.B = Bool(b.u32(false))
	return v, &nsOther{}
}

func namesakes() {
	e := chooseEnc()
	first := sym.Choose("first", 2)
	for i := 0; i < 2; i++ {
		b := &B{e: e}
		var v, fresh interface{}
		if i == first {
			v, fresh = b.own()
		} else {
			v, fresh = b.other()
		}
		if sym.Choose("decode first", 2) == 1 {
			sym.Assert(unmarshal(e, fresh, b.out) == nil && sym.Eq(v, fresh), "decoded by what the type is, not what it is called")
			fresh = freshLike(v)
		}
		out, err := marshal(e, v)
		sym.Assert(err == nil && sym.BytesEq(out, b.out), "encoded by what the type is, not what it is called")
		d := newDec(e, b.out)
		sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 0 && sym.Eq(v, fresh), "decoded by what the type is")
	}
	sym.Reach("namesakes")
}

// Types with the same name as the package's own, used before or after those.
func C25_namesakes() { namesakes() }
func C26_namesakes() { namesakes() }
func C15_namesakes() { namesakes() }
func C30_namesakes() { namesakes() }

type emPlain struct {
	A uint8
	E struct {
		gMark
	}
	F []struct{ gMark }
	G map[uint8]struct{ gMark }
	H *struct{ gMark } `bin:"optional"`
	I [1]struct {
		gMark
		X uint8
	}
	J uint16
}

// Unnamed struct types that take marshal methods from what they embed.
func C30_embedded() {
	e := chooseEnc()
	b := &B{e: e}
	mark := func() gMark {
		x := sym.U8("mark")
		b.out = append(b.out, x, ^x)
		return gMark{x}
	}
	v := &emPlain{}
	v.A = b.u8()
	v.E.gMark = mark()
	b.length(1)
	v.F = []struct{ gMark }{{mark()}}
	b.length(1)
	b.out = append(b.out, 7)
	v.G = map[uint8]struct{ gMark }{7: {mark()}}
	p := sym.Choose("present", 2) == 1
	b.opt(p)
	if p {
		v.H = &struct{ gMark }{mark()}
	}
	v.I[0].gMark = mark()
	v.J = b.u16(false)
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "encoded through the embedded type's method")
	var got emPlain
	d := newDec(e, b.out)
	sym.Assert(d.Decode(&got) == nil && d.Remaining() == 0 && sym.Eq(v, &got), "decoded through the embedded type's method")
	sym.Reach("embedded")
}
