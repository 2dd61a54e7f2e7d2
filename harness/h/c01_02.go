package h

import (
	"encoding/binary"
	"math"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// scalar describes one typed writer/reader pair of the library.
type scalar struct {
	name  string
	size  int
	write func(*bin.Encoder, binary.ByteOrder, uint64, uint64) error
	read  func(*bin.Decoder, binary.ByteOrder) (uint64, uint64, error)
	flt   int  // 32 or 64 for floats
	flag  int  // 1: bool/option byte, 2: c-option
	fixed bool // byte order not applicable: always little
}

func b2u(b bool) uint64 { return sym.IteU64(b, 1, 0) }

func scalars() []scalar {
	type E = *bin.Encoder
	type D = *bin.Decoder
	type O = binary.ByteOrder
	return []scalar{
		{name: "Bool", size: 1, flag: 1,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteBool(lo&1 != 0) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadBool(); return b2u(v), 0, err }},
		{name: "Byte", size: 1,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteByte(byte(lo)) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadByte(); return uint64(v), 0, err }},
		{name: "Uint8", size: 1,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteUint8(uint8(lo)) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadUint8(); return uint64(v), 0, err }},
		{name: "Int8", size: 1,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteInt8(int8(lo)) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadInt8(); return uint64(uint8(v)), 0, err }},
		{name: "Uint16", size: 2,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteUint16(uint16(lo), o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadUint16(o); return uint64(v), 0, err }},
		{name: "Int16", size: 2,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteInt16(int16(lo), o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadInt16(o); return uint64(uint16(v)), 0, err }},
		{name: "Uint32", size: 4,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteUint32(uint32(lo), o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadUint32(o); return uint64(v), 0, err }},
		{name: "Int32", size: 4,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteInt32(int32(lo), o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadInt32(o); return uint64(uint32(v)), 0, err }},
		{name: "Uint64", size: 8,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteUint64(lo, o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadUint64(o); return v, 0, err }},
		{name: "Int64", size: 8,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteInt64(int64(lo), o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadInt64(o); return uint64(v), 0, err }},
		{name: "Float32", size: 4, flt: 32,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteFloat32(math.Float32frombits(uint32(lo)), o) },
			read: func(d D, o O) (uint64, uint64, error) {
				v, err := d.ReadFloat32(o)
				return uint64(math.Float32bits(v)), 0, err
			}},
		{name: "Float64", size: 8, flt: 64,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteFloat64(math.Float64frombits(lo), o) },
			read: func(d D, o O) (uint64, uint64, error) {
				v, err := d.ReadFloat64(o)
				return math.Float64bits(v), 0, err
			}},
		{name: "Uint128", size: 16,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteUint128(bin.Uint128{Lo: lo, Hi: hi}, o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadUint128(o); return v.Lo, v.Hi, err }},
		{name: "Int128", size: 16,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteInt128(bin.Int128{Lo: lo, Hi: hi}, o) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadInt128(o); return v.Lo, v.Hi, err }},
		{name: "Float128", size: 16,
			write: func(e E, o O, lo, hi uint64) error {
				return e.WriteUint128(bin.Uint128(bin.Float128{Lo: lo, Hi: hi}), o)
			},
			read: func(d D, o O) (uint64, uint64, error) { v, err := d.ReadFloat128(o); return v.Lo, v.Hi, err }},
		{name: "Option", size: 1, flag: 1,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteOption(lo&1 != 0) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadOption(); return b2u(v), 0, err }},
		{name: "COption", size: 4, flag: 2, fixed: true,
			write: func(e E, o O, lo, hi uint64) error { return e.WriteCOption(lo&1 != 0) },
			read:  func(d D, o O) (uint64, uint64, error) { v, err := d.ReadCOption(); return b2u(v), 0, err }},
	}
}

func (s *scalar) nan(lo uint64) bool {
	switch s.flt {
	case 32:
		return sym.And(lo&0x7f800000 == 0x7f800000, lo&0x007fffff != 0)
	case 64:
		return sym.And(lo&0x7ff0000000000000 == 0x7ff0000000000000, lo&0x000fffffffffffff != 0)
	}
	return false
}

// draw makes a symbolic value of the scalar's width (and range).
func (s *scalar) draw() (lo, hi uint64) {
	lo = sym.U64("lo")
	if s.size == 16 {
		hi = sym.U64("hi")
		return
	}
	if s.size < 8 {
		lo = lo & (1<<uint(8*s.size) - 1)
	}
	if s.flag != 0 {
		lo = lo & 1
	}
	return
}

func (s *scalar) layout(dst []byte, lo, hi uint64, big bool) []byte {
	big = big && !s.fixed
	if s.size == 16 {
		if big {
			return be(be(dst, hi, 8), lo, 8)
		}
		return le(le(dst, lo, 8), hi, 8)
	}
	return ord(dst, lo, s.size, big)
}

// Every value of every scalar kind, all writer/reader encoding pairs, both orders, with bytes before and after.
func C01_roundtrip() {
	ss := scalars()
	s := &ss[sym.Choose("scalar", len(ss))]
	we, re := sym.Choose("writer", 3), sym.Choose("reader", 3)
	o := chooseOrder()
	lo, hi := s.draw()
	if s.flt != 0 && (we == eBorsh || re == eBorsh) {
		sym.Assume(sym.Not(s.nan(lo)))
	}
	pre, post := sym.U8("pre"), sym.U8("post")
	out, err, written := capture(we, func(e *bin.Encoder) error {
		if err := e.WriteByte(pre); err != nil {
			return err
		}
		if err := s.write(e, o, lo, hi); err != nil {
			return err
		}
		return e.WriteByte(post)
	})
	sym.Assert(err == nil, s.name+": writes")
	sym.Assert(len(out) == s.size+2 && written == len(out), s.name+": natural width")
	d := newDec(re, out)
	p, err := d.ReadByte()
	sym.Assert(err == nil && p == pre, s.name+": byte before")
	glo, ghi, err := s.read(d, o)
	sym.Assert(err == nil, s.name+": reads")
	sym.Assert(sym.And(glo == lo, ghi == hi), s.name+": same bits")
	sym.Assert(d.Position() == uint(1+s.size), s.name+": consumes exactly its width")
	p, err = d.ReadByte()
	sym.Assert(err == nil && p == post, s.name+": byte after")
	sym.Assert(d.Remaining() == 0, s.name+": nothing left")
	sym.Observe("lo", lo)
	sym.Observe("hi", hi)
	sym.Reach(s.name)
}

// A sequence of three scalars of any kinds, written by one encoder and read by one decoder.
func C01_sequence() {
	ss := scalars()
	e := chooseEnc()
	n := 2 + sym.Tier()
	kinds := make([]int, n)
	los, his := make([]uint64, n), make([]uint64, n)
	orders := make([]binary.ByteOrder, n)
	total := 0
	for i := range kinds {
		kinds[i] = sym.Choose("scalar", len(ss))
		s := &ss[kinds[i]]
		orders[i] = binary.BigEndian
		if i%2 == 1 {
			orders[i] = binary.LittleEndian
		}
		los[i], his[i] = s.draw()
		if s.flt != 0 && e == eBorsh {
			sym.Assume(sym.Not(s.nan(los[i])))
		}
		total += s.size
	}
	out, err, written := capture(e, func(enc *bin.Encoder) error {
		for i := range kinds {
			if err := ss[kinds[i]].write(enc, orders[i], los[i], his[i]); err != nil {
				return err
			}
		}
		return nil
	})
	sym.Assert(err == nil && len(out) == total && written == total, "sequence writes")
	d := newDec(e, out)
	for i := range kinds {
		lo, hi, err := ss[kinds[i]].read(d, orders[i])
		sym.Assert(err == nil, "sequence reads")
		sym.Assert(sym.And(lo == los[i], hi == his[i]), "sequence item unchanged")
	}
	sym.Assert(d.Remaining() == 0, "sequence consumed")
	sym.Reach("sequence")
}

// The bytes written are the documented layout.
func C02_write() {
	ss := scalars()
	s := &ss[sym.Choose("scalar", len(ss))]
	e := chooseEnc()
	big := sym.Choose("order", 2) == 1
	lo, hi := s.draw()
	if e == eBorsh {
		sym.Assume(sym.Not(s.nan(lo)))
	}
	out, err, _ := capture(e, func(enc *bin.Encoder) error { return s.write(enc, orderOf(big), lo, hi) })
	sym.Assert(err == nil, s.name+": writes")
	sym.Assert(sym.BytesEq(out, s.layout(nil, lo, hi, big)), s.name+": documented layout")
	sym.Observe("out", out)
	sym.Reach(s.name)
}

func orderOf(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// Any byte pattern reads as the value the layout denotes.
func C02_read() {
	ss := scalars()
	s := &ss[sym.Choose("scalar", len(ss))]
	e := chooseEnc()
	big := sym.Choose("order", 2) == 1
	data := roomy(sym.Bytes("data", s.size+1))
	d := newDec(e, data)
	lo, hi, err := s.read(d, orderOf(big))
	var wlo, whi uint64
	get := func(off, n int, big bool) uint64 {
		var v uint64
		for i := 0; i < n; i++ {
			if big {
				v = v<<8 | uint64(data[off+i])
			} else {
				v |= uint64(data[off+i]) << (8 * uint(i))
			}
		}
		return v
	}
	b := big && !s.fixed
	switch {
	case s.size == 16 && b:
		whi, wlo = get(0, 8, b), get(8, 8, b)
	case s.size == 16:
		wlo, whi = get(0, 8, b), get(8, 8, b)
	default:
		wlo = get(0, s.size, b)
	}
	switch {
	case s.flag == 1:
		sym.Assert(err == nil, s.name+": any byte is a flag")
		sym.Assert(lo == b2u(wlo != 0), s.name+": non-zero is true")
	case s.flag == 2:
		sym.Assert((err != nil) == (wlo > 1), s.name+": values above 1 refused")
		if err == nil {
			sym.Assert(lo == wlo, s.name+": flag value")
		}
	case e == eBorsh && s.flt != 0:
		sym.Assert((err != nil) == s.nan(wlo), s.name+": Borsh refuses exactly NaN")
		if err == nil {
			sym.Assert(lo == wlo, s.name+": denoted value")
		}
	default:
		sym.Assert(err == nil, s.name+": reads")
		sym.Assert(sym.And(lo == wlo, hi == whi), s.name+": denoted value")
	}
	if err == nil {
		sym.Assert(d.Position() == uint(s.size), s.name+": consumes its width")
		sym.Observe("lo", lo)
	}
	sym.Reach(s.name)
}

type tScalarFields struct {
	A int8
	B uint16 `bin:"big"`
	C int32  `bin:"big"`
	D uint64
	E float32 `bin:"big"`
	F float64
	G bool
}

// The same layout when scalars are struct fields or top-level values (reflection path).
func C02_fields() {
	e := chooseEnc()
	b := &B{e: e}
	v := tScalarFields{A: b.i8(), B: b.u16(true), C: b.i32(true), D: b.u64(false), E: b.f32(true), F: b.f64(false), G: b.boolean()}
	out, err := marshal(e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "struct fields have the scalar layout")
	sym.Observe("out", out)
	var w tScalarFields
	sym.Assert(unmarshal(e, &w, b.out) == nil && sym.Eq(v, w), "and read back")
	sym.Reach("fields")
}

// The published sizes are those of the wire layout.
func C02_sizes() {
	s := bin.TypeSize
	sym.Assert(s.Bool == 1 && s.Byte == 1 && s.Int8 == 1 && s.Uint8 == 1, "one byte")
	sym.Assert(s.Int16 == 2 && s.Uint16 == 2 && s.Uint32 == 4 && s.Uint64 == 8 && s.Uint128 == 16, "integers")
	sym.Assert(s.Float32 == 4 && s.Float64 == 8 && s.PublicKey == 32 && s.Signature == 64, "floats, keys and signatures")
	sym.Reach("sizes")
}
