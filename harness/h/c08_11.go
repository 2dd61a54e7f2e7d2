package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type hoIface struct {
	A uint8
	I interface{}
	B uint8
}

type hoInt struct {
	A uint8
	N int
	U uint
}

type hoDeep struct {
	A []struct {
		B []struct {
			C []uint8
		}
	}
}

type hoMix struct {
	A *uint8 `bin:"optional"`
	B []uint8
	C string
}

type hoEmb struct {
	Emb
	*EmbP
	X uint8
}

// hostile: a fresh target per type; encs says where the type is supported.
var hostile = []struct {
	name string
	mk   func() interface{}
	encs int
}{
	{"uint8", func() interface{} { return new(uint8) }, onAll},
	{"int64", func() interface{} { return new(int64) }, onAll},
	{"float32", func() interface{} { return new(float32) }, onAll},
	{"bool", func() interface{} { return new(bool) }, onAll},
	{"string", func() interface{} { return new(string) }, onAll},
	{"named string", func() interface{} { return new(nStr) }, onAll},
	{"[]byte", func() interface{} { return new([]byte) }, onAll},
	{"named []byte", func() interface{} { return new(nRaw) }, onAll},
	{"[]named uint8", func() interface{} { return new([]nU8) }, onAll},
	{"[]uint16", func() interface{} { return new([]uint16) }, onAll},
	{"[]uint32", func() interface{} { return new([]uint32) }, onAll},
	{"[]uint64", func() interface{} { return new([]uint64) }, onAll},
	{"[]named uint16", func() interface{} { return new([]nU16) }, onAll},
	{"[]int16", func() interface{} { return new([]int16) }, onAll},
	{"[]bool", func() interface{} { return new([]bool) }, onAll},
	{"[]float32", func() interface{} { return new([]float32) }, onAll},
	{"[]string", func() interface{} { return new([]string) }, onAll},
	{"[][]byte", func() interface{} { return new([][]byte) }, onAll},
	{"[]struct", func() interface{} { return new([]inner2) }, onAll},
	{"[]*uint16", func() interface{} { return new([]*uint16) }, onAll},
	{"[2]uint16", func() interface{} { return new([2]uint16) }, onAll},
	{"[3]byte", func() interface{} { return new([3]byte) }, onAll},
	{"[2]string", func() interface{} { return new([2]string) }, onAll},
	{"[2][]byte", func() interface{} { return new([2][]byte) }, onAll},
	{"map[uint8]uint8", func() interface{} { return new(map[uint8]uint8) }, onAll},
	{"map[string]uint8", func() interface{} { return new(map[string]uint8) }, onAll},
	{"map[uint16][]byte", func() interface{} { return new(map[uint16][]byte) }, onAll},
	{"map[float32]uint8", func() interface{} { return new(map[float32]uint8) }, onAll},
	{"map[uint8]map", func() interface{} { return new(map[uint8]map[uint8]uint8) }, onAll},
	{"*uint32", func() interface{} { return new(*uint32) }, onAll},
	{"**[]byte", func() interface{} { return new(**[]byte) }, onAll},
	{"struct", func() interface{} { return &inner{} }, onAll},
	{"optional *uint8", func() interface{} { return &oPU8{} }, onAll},
	{"optional string", func() interface{} { return &oStr{} }, onAll},
	{"optional []uint16", func() interface{} { return &oU16s{} }, onAll},
	{"optional *struct", func() interface{} { return &oPInner{} }, onAll},
	{"optional map", func() interface{} { return &oMap{} }, onAll},
	{"optional marshaler", func() interface{} { return &oPFix{} }, onAll},
	{"optional nested", func() interface{} { return &tOptInner{} }, onAll},
	{"c-option *struct", func() interface{} { return &cPInner{} }, onBsh},
	{"c-option bytes", func() interface{} { return &cRaw{} }, onBsh},
	{"enum", func() interface{} { return &tEnum{} }, onBsh},
	{"enum containers", func() interface{} { return &tEnumC{} }, onBsh},
	{"[]enum", func() interface{} { return new([]tEnumIn) }, onBsh},
	{"map of enum", func() interface{} { return new(map[uint8]tEnumIn) }, onBsh},
	{"recursive", func() interface{} { return &tList{} }, onAll},
	{"sized uint8", func() interface{} { return &zU8{} }, onAll},
	{"sized int8 uint16", func() interface{} { return &zI8{} }, onAll},
	{"sized uint16 uint32", func() interface{} { return &zU16{} }, onAll},
	{"sized int16", func() interface{} { return &zI16{} }, onAll},
	{"sized uint32 uint64", func() interface{} { return &zU32{} }, onAll},
	{"sized int32 string", func() interface{} { return &zI32{} }, onAll},
	{"sized uint64 struct", func() interface{} { return &zU64{} }, onAll},
	{"sized int64 pointers", func() interface{} { return &zI64{} }, onAll},
	{"sized named", func() interface{} { return &zNam{} }, onAll},
	{"sized uint64 uint16", func() interface{} { return &zH16{} }, onAll},
	{"sized uint64 uint32", func() interface{} { return &zH32{} }, onAll},
	{"sized uint64 uint64", func() interface{} { return &zH64{} }, onAll},
	{"sized int64 byte", func() interface{} { return &zHI{} }, onAll},
	{"extension", func() interface{} { return &tExt{} }, onAll},
	{"skipped", func() interface{} { return &tSkip{} }, onAll},
	{"embedded", func() interface{} { return &hoEmb{} }, onAll},
	{"marshaler", func() interface{} { return new(mFix) }, onAll},
	{"string marshaler", func() interface{} { return new(mStr) }, onAll},
	{"[]uint8 marshaler", func() interface{} { return new([]mU8) }, onAll},
	{"[]*marshaler", func() interface{} { return new([]*mPtr) }, onAll},
	{"[2]marshaler", func() interface{} { return new([2]mFix) }, onAll},
	{"hex bytes", func() interface{} { return new(bin.HexBytes) }, onAll},
	{"safe string", func() interface{} { return new(bin.SafeString) }, onAll},
	{"varint16", func() interface{} { return new(bin.Varint16) }, onAll},
	{"varuint32", func() interface{} { return new(bin.Varuint32) }, onAll},
	{"[]varuint16", func() interface{} { return new([]bin.Varuint16) }, onAll},
	{"uint128", func() interface{} { return new(bin.Uint128) }, onAll},
	{"json float", func() interface{} { return new(bin.JSONFloat64) }, onAll},
	{"type id", func() interface{} { return new(bin.TypeID) }, onAll},
	{"interface field", func() interface{} { return &hoIface{} }, onAll},
	{"unsupported kinds", func() interface{} { return &hoInt{} }, onAll},
	{"deep lists", func() interface{} { return &hoDeep{} }, onAll},
	{"mixed", func() interface{} { return &hoMix{} }, onAll},
	{"interface", func() interface{} { return new(interface{}) }, onAll},
}

type (
	zH16 struct {
		N uint64 `bin:"sizeof=L"`
		L []uint16
		P uint8
	}
	zH32 struct {
		N uint64 `bin:"sizeof=L"`
		L []uint32
		P uint8
	}
	zH64 struct {
		N uint64 `bin:"sizeof=L"`
		L []uint64
		P uint8
	}
	zHI struct {
		N int64 `bin:"sizeof=L"`
		L []uint8
		P uint8
	}
)

func pickHostile(e int) (string, interface{}) {
	var idx []int
	for i := range hostile {
		if hostile[i].encs&(1<<uint(e)) != 0 {
			idx = append(idx, i)
		}
	}
	h := &hostile[idx[sym.Choose("target", len(idx))]]
	return h.name, h.mk()
}

var hoLens = []int{0, 1, 2, 3, 5, 6, 8, 9, 11}
var hoLensDeep = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 17, 20}

// hoCap bounds the input length where the number of paths is exponential in it (quick, thorough; per byte of one-byte length prefixes).
var hoCap = map[string][2]int{
	"safe string":   {4, 5},
	"deep lists":    {6, 8},
	"[][]byte":      {6, 9},
	"[]varuint16":   {8, 9},
	"map[uint8]map": {8, 11},
}

func hoLen(name string, e int) int {
	l, t := hoLens, 0
	if sym.Tier() > 0 {
		l, t = hoLensDeep, 1
	}
	if c, ok := hoCap[name]; ok {
		max := c[t]
		if e == 1 {
			max += 3
		}
		k := 0
		for k < len(l) && l[k] <= max {
			k++
		}
		l = l[:k]
	}
	return l[sym.Choose("len", len(l))]
}

// Arbitrary bytes into a fresh target: a value or an error, never a panic, in a bounded number of steps; the cursor stays in the buffer.
func C08_bytes() {
	e := chooseEnc()
	name, t := pickHostile(e)
	n := hoLen(name, e)
	in := roomy(sym.Bytes("in", n))
	d := newDec(e, in)
	var err error
	sym.WithSteps(600000, func() { err = d.Decode(t) })
	sym.Assert(d.Position() <= uint(n) && d.Remaining() == n-int(d.Position()), name+": cursor in bounds")
	sym.Observe("err", err != nil)
	sym.Reach(name)
}

// A valid encoding of any catalogue value with a window of arbitrary bytes anywhere in it (lengths, flags and tags included).
func C08_corrupt() {
	e := chooseEnc()
	quick := named("optional", "optional-nested", "c-option", "map-fields", "recursive", "embedded", "skipped", "sized", "extension", "enum", "enum-containers", "enum-positions", "marshalers-top")
	en := pickEntry(e, func(en *entry) bool {
		return en.long || en.name == "enum-255" || (sym.Tier() == 0 && quick(en))
	})
	b := &B{e: e}
	_, fresh := en.mk(b)
	if len(b.out) == 0 {
		sym.Assume(false)
	}
	in := append([]byte{}, b.out...)
	pos := sym.Choose("pos", len(in))
	w := 1
	if sym.Tier() > 0 {
		w = 4
	}
	for i := 0; i < w && pos+i < len(in); i++ {
		in[pos+i] = sym.U8("corrupt")
	}
	d := newDec(e, in)
	sym.WithSteps(2000000, func() { _ = d.Decode(fresh) })
	sym.Assert(d.Position() <= uint(len(in)), en.name+": cursor in bounds")
	sym.Reach(en.name)
}

// Every typed reader on arbitrary bytes at an arbitrary position, with arbitrary arguments.
func C08_readers() {
	e := chooseEnc()
	n := sym.Choose("len", 11)
	in := roomy(sym.Bytes("in", n))
	d := newDec(e, in)
	if n > 0 {
		p := sym.Choose("pos", n+1)
		if p > 0 {
			sym.Assert(d.SkipBytes(uint(p)) == nil, "skip")
		}
	}
	o := bin.LE
	if sym.Choose("order", 2) == 1 {
		o = bin.BE
	}
	switch sym.Choose("reader", 36) {
	case 0:
		_, _ = d.ReadByte()
	case 1:
		_, _ = d.ReadBool()
	case 2:
		_, _ = d.ReadUint8()
	case 3:
		_, _ = d.ReadInt8()
	case 4:
		_, _ = d.ReadUint16(o)
	case 5:
		_, _ = d.ReadInt16(o)
	case 6:
		_, _ = d.ReadUint32(o)
	case 7:
		_, _ = d.ReadInt32(o)
	case 8:
		_, _ = d.ReadUint64(o)
	case 9:
		_, _ = d.ReadInt64(o)
	case 10:
		_, _ = d.ReadUint128(o)
	case 11:
		_, _ = d.ReadInt128(o)
	case 12:
		_, _ = d.ReadFloat32(o)
	case 13:
		_, _ = d.ReadFloat64(o)
	case 14:
		_, _ = d.ReadFloat128(o)
	case 15:
		_, _ = d.ReadUvarint64()
	case 16:
		_, _ = d.ReadVarint64()
	case 17:
		_, _ = d.ReadUvarint32()
	case 18:
		_, _ = d.ReadVarint32()
	case 19:
		_, _ = d.ReadUvarint16()
	case 20:
		_, _ = d.ReadVarint16()
	case 21:
		_, _ = d.ReadByteSlice()
	case 22:
		_, _ = d.ReadLength()
	case 23:
		_, _ = d.ReadString()
	case 24:
		_, _ = d.ReadRustString()
	case 25:
		_, _ = d.ReadCompactU16()
	case 26:
		_, _ = d.ReadCompactU16Length()
	case 27:
		_, _ = d.ReadOption()
	case 28:
		_, _ = d.ReadCOption()
	case 29:
		_, _ = d.ReadTypeID()
	case 30:
		_, _ = d.PeekDiscriminator()
	case 31:
		_, _ = d.ReadNBytes(sym.Int("n"))
	case 32:
		_, _ = d.Peek(sym.Int("n"))
	case 33:
		_ = d.Discard(sym.Int("n"))
	case 34:
		_ = d.SetPosition(sym.Uint("n"))
	case 35:
		_ = d.SkipBytes(sym.Uint("n"))
	}
	sym.Assert(d.Position() <= uint(n), "cursor in bounds")
	sym.Reach("reader")
}

// The UTF-8-safe reader and the stand-alone compact-u16 decoders.
func C08_misc() {
	e := chooseEnc()
	switch sym.Choose("what", 4) {
	case 0:
		var in []byte
		k := sym.Choose("n", 4)
		in = refLen(in, e, k)
		in = append(in, sym.Bytes("text", k)...)
		_, _ = newDec(e, in).SafeReadUTF8String()
	case 1:
		_, _ = newDec(e, sym.Bytes("in", sym.Choose("n", 5))).ReadString()
	case 2:
		_, _, _ = bin.DecodeCompactU16(sym.Bytes("in", sym.Choose("n", 5)))
	case 3:
		_, _ = bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader(sym.Bytes("in", sym.Choose("n", 5))))
	}
	sym.Reach("misc")
}

// Sequences: two decodes of different targets from the same hostile buffer.
func C08_twice() {
	e := chooseEnc()
	in := sym.Bytes("in", 7)
	d := newDec(e, in)
	first := []func() interface{}{func() interface{} { return new([]uint16) }, func() interface{} { return &oStr{} }, func() interface{} { return &tSkip{} }, func() interface{} { return new(map[uint8]uint8) }, func() interface{} { return &zI8{} }}
	_ = d.Decode(first[sym.Choose("first", len(first))]())
	_ = d.Decode(first[sym.Choose("second", len(first))]())
	sym.Assert(d.Position() <= 7, "cursor in bounds")
	sym.Reach("twice")
}

type ifField struct {
	X interface{}
	Y uint8
}

// Targets that are, or hold, interfaces with anything in them.
func C08_iface() {
	e := chooseEnc()
	in := sym.Bytes("in", sym.Choose("len", 4))
	var x interface{}
	u := new(uint16)
	switch sym.Choose("held", 8) {
	case 0:
	case 1:
		x = 5
	case 2:
		x = u
	case 3:
		x = (*uint16)(nil)
	case 4:
		x = struct{ A uint8 }{3}
	case 5:
		x = &u
	case 6:
		x = "text"
	case 7:
		x = &ifField{X: u}
	}
	d := newDec(e, in)
	if sym.Choose("field", 2) == 1 {
		_ = d.Decode(&ifField{X: x})
	} else {
		_ = d.Decode(&x)
	}
	sym.Assert(d.Position() <= uint(len(in)), "cursor in bounds")
	sym.Reach("iface")
}
