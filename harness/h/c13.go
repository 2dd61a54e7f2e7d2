package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func zigzag(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

// Every int, signed and unsigned varint writers: LEB128 (zig-zag) minimal bytes, read back unchanged.
func C13_write() {
	n := sym.Int("n")
	e := chooseEnc()
	signed := sym.Choose("signed", 2) == 1
	out, err, written := capture(e, func(enc *bin.Encoder) error {
		if signed {
			return enc.WriteVarInt(n)
		}
		return enc.WriteUVarInt(n)
	})
	sym.Assert(err == nil, "every int is writable")
	var want []byte
	if signed {
		want = refUvarint(nil, zigzag(int64(n)))
	} else {
		want = refUvarint(nil, uint64(n))
	}
	sym.Assert(sym.BytesEq(out, want), "minimal LEB128 bytes")
	sym.Assert(written == len(out), "written counter")
	d := newDec(chooseDec(), append(append([]byte{}, out...), 0xff))
	if signed {
		v, err := d.ReadVarint64()
		sym.Assert(err == nil && v == int64(n), "signed value read back")
	} else {
		v, err := d.ReadUvarint64()
		sym.Assert(err == nil && v == uint64(n), "unsigned value read back")
	}
	sym.Assert(d.Position() == uint(len(out)), "consumes exactly the varint")
	sym.Observe("out", out)
	sym.Reach("done")
}

func chooseDec() int { return sym.Choose("reader", 3) }

// The 16/32-bit varint readers and wrapper types return every value of their range.
func C13_typed() {
	e := chooseEnc()
	check := func(name string, v, fresh interface{}, want []byte) {
		out, err := marshal(e, v)
		sym.Assert(err == nil && sym.BytesEq(out, want), name+": varint bytes")
		d := newDec(e, out)
		sym.Assert(d.Decode(fresh) == nil, name+": decodes")
		sym.Assert(sym.Eq(v, fresh) && d.Remaining() == 0, name+": unchanged")
		sym.Observe(name, fresh)
		sym.Reach(name)
	}
	switch sym.Choose("type", 8) {
	case 0:
		v := bin.Varint16(sym.I16("v"))
		check("Varint16", &v, new(bin.Varint16), refUvarint(nil, zigzag(int64(v))))
	case 1:
		v := bin.Varuint16(sym.U16("v"))
		check("Varuint16", &v, new(bin.Varuint16), refUvarint(nil, uint64(v)))
	case 2:
		v := bin.Varint32(sym.I32("v"))
		check("Varint32", &v, new(bin.Varint32), refUvarint(nil, zigzag(int64(v))))
	case 3:
		v := bin.Varuint32(sym.U32("v"))
		check("Varuint32", &v, new(bin.Varuint32), refUvarint(nil, uint64(v)))
	case 4:
		v := sym.I16("v")
		d := newDec(e, refUvarint(nil, zigzag(int64(v))))
		r, err := d.ReadVarint16()
		sym.Assert(err == nil && r == v && d.Remaining() == 0, "ReadVarint16")
		sym.Reach("ReadVarint16")
	case 5:
		v := sym.U16("v")
		d := newDec(e, refUvarint(nil, uint64(v)))
		r, err := d.ReadUvarint16()
		sym.Assert(err == nil && r == v && d.Remaining() == 0, "ReadUvarint16")
		sym.Reach("ReadUvarint16")
	case 6:
		v := sym.I32("v")
		d := newDec(e, refUvarint(nil, zigzag(int64(v))))
		r, err := d.ReadVarint32()
		sym.Assert(err == nil && r == v && d.Remaining() == 0, "ReadVarint32")
		sym.Reach("ReadVarint32")
	case 7:
		v := sym.U32("v")
		d := newDec(e, refUvarint(nil, uint64(v)))
		r, err := d.ReadUvarint32()
		sym.Assert(err == nil && r == v && d.Remaining() == 0, "ReadUvarint32")
		sym.Reach("ReadUvarint32")
	}
}

// Any 0..12 bytes: accepted exactly when a terminated varint of at most 64 bits starts there; value and cursor follow.
func C13_read() {
	n := sym.Choose("len", 13)
	data := roomy(sym.Bytes("data", n))
	e := chooseEnc()
	d := newDec(e, data)
	size := uvLen(data)
	var want uint64
	for i := 0; i < size; i++ {
		want |= uint64(data[i]&0x7f) << (7 * uint(i))
	}
	swant := int64(want>>1) ^ -int64(want&1)
	var err error
	ok := true
	op := sym.Choose("op", 6)
	switch op {
	case 0:
		var v uint64
		v, err = d.ReadUvarint64()
		ok = v == want
	case 1:
		var v int64
		v, err = d.ReadVarint64()
		ok = v == swant
	case 2:
		var v uint32
		v, err = d.ReadUvarint32()
		ok = v == uint32(want)
	case 3:
		var v int32
		v, err = d.ReadVarint32()
		ok = v == int32(swant)
	case 4:
		var v uint16
		v, err = d.ReadUvarint16()
		ok = v == uint16(want)
	case 5:
		var v int16
		v, err = d.ReadVarint16()
		ok = v == int16(swant)
	}
	sym.Assert((err == nil) == (size > 0), "accepted exactly when well formed")
	if size == 0 {
		sym.Assert(d.Position() == 0, "refusal leaves the cursor")
		sym.Reach("refused")
		return
	}
	if op < 2 || want < 1<<15 {
		sym.Assert(ok, "value of the varint")
	}
	sym.Assert(d.Position() == uint(size), "cursor after the varint")
	sym.Observe("want", want)
	sym.Reach("accepted")
}
