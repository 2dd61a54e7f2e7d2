package h

import (
	"encoding/binary"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// invariant that must hold of a decoder at all times
func cursorOK(d *bin.Decoder, n int) {
	sym.Assert(d.Position() <= uint(n), "position within the buffer")
	sym.Assert(d.Len() == n, "length is the buffer's")
	sym.Assert(d.Remaining() >= 0 && d.Position()+uint(d.Remaining()) == uint(n), "position + remaining = length")
	sym.Assert(d.HasRemaining() == (d.Remaining() > 0), "HasRemaining")
}

// uvLen: bytes of the varint at the start of b, 0 if truncated or over 64 bits.
func uvLen(b []byte) int {
	for i := 0; i < len(b) && i < 10; i++ {
		if b[i] < 0x80 {
			if i == 9 && b[i] > 1 {
				return 0
			}
			return i + 1
		}
	}
	return 0
}

// step performs one operation and checks its cursor contract.
func step(d *bin.Decoder, data []byte, e int) {
	ss := scalars()
	extra := []string{"uvarint64", "varint64", "uvarint32", "varint32", "uvarint16", "varint16",
		"compactU16", "compactU16Length", "skip", "discard", "readN", "readBytes", "peek", "read", "setPosition",
		"typeID", "discriminator", "peekDiscriminator", "byteSlice", "string", "rustString", "safeString", "length", "reset"}
	op := sym.Choose("op", len(ss)+len(extra))
	pos := int(d.Position())
	rem := d.Remaining()
	n := len(data)
	rest := data[pos:]
	delta := func() int { return int(d.Position()) - pos }
	exact := func(name string, err error, size int, ok bool) {
		sym.Assert((err == nil) == ok, name+": succeeds exactly when enough data remains")
		if err == nil {
			sym.Assert(delta() == size, name+": advances by exactly its size")
			sym.Reach(name + "/ok")
		} else {
			sym.Assert(delta() == 0, name+": failure leaves the cursor")
			sym.Reach(name + "/failed")
		}
	}
	if op < len(ss) {
		s := &ss[op]
		big := sym.Choose("order", 2) == 1
		_, _, err := s.read(d, orderOf(big))
		if rem < s.size {
			exact(s.name, err, s.size, false)
			return
		}
		sym.Assert(delta() == s.size, s.name+": advances by its width")
		if s.flag != 2 && (s.flt == 0 || e != eBorsh) {
			sym.Assert(err == nil, s.name+": reads what is there")
		}
		sym.Reach(s.name + "/ok")
		return
	}
	name := extra[op-len(ss)]
	switch name {
	case "uvarint64", "varint64", "uvarint32", "varint32", "uvarint16", "varint16":
		var err error
		switch name {
		case "uvarint64":
			_, err = d.ReadUvarint64()
		case "varint64":
			_, err = d.ReadVarint64()
		case "uvarint32":
			_, err = d.ReadUvarint32()
		case "varint32":
			_, err = d.ReadVarint32()
		case "uvarint16":
			_, err = d.ReadUvarint16()
		case "varint16":
			_, err = d.ReadVarint16()
		}
		w := uvLen(rest)
		exact(name, err, w, w != 0)
	case "compactU16", "compactU16Length":
		var err error
		if name == "compactU16" {
			_, err = d.ReadCompactU16()
		} else {
			_, err = d.ReadCompactU16Length()
		}
		if err != nil {
			sym.Assert(delta() == 0, name+": failure leaves the cursor")
			sym.Reach(name + "/failed")
			return
		}
		w := 1
		for w < 3 && rest[w-1] >= 0x80 {
			w++
		}
		sym.Assert(delta() == w, name+": advances by exactly its size")
		sym.Reach(name + "/ok")
	case "skip":
		k := sym.Uint("n")
		err := d.SkipBytes(k)
		exact(name, err, int(k), k <= uint(rem))
	case "discard":
		k := sym.Int("n")
		err := d.Discard(k)
		exact(name, err, k, k >= 0 && k <= rem)
	case "readN", "readBytes":
		k := sym.Int("n")
		var err error
		var out []byte
		if name == "readN" {
			out, err = d.ReadNBytes(k)
		} else {
			out, err = d.ReadBytes(k)
		}
		exact(name, err, k, k >= 0 && k <= rem)
		if err == nil {
			sym.Assert(sym.BytesEq(out, rest[:k]), name+": returns the next bytes")
		}
	case "peek":
		k := sym.Int("n")
		out, err := d.Peek(k)
		sym.Assert((err == nil) == (k >= 0 && k <= rem), "peek: succeeds exactly when enough data remains")
		sym.Assert(delta() == 0, "peek: never moves the cursor")
		if err == nil {
			sym.Assert(sym.BytesEq(out, rest[:k]), "peek: returns the next bytes")
			sym.Reach("peek/ok")
		} else {
			sym.Reach("peek/failed")
		}
	case "read":
		k := []int{0, 1, 2, 5}[sym.Choose("buflen", 4)]
		buf := make([]byte, k)
		m, err := d.Read(buf)
		exact(name, err, k, k <= rem)
		if err == nil {
			sym.Assert(m == k && sym.BytesEq(buf, rest[:k]), "read: fills the buffer with the next bytes")
		}
	case "setPosition":
		k := sym.Uint("n")
		err := d.SetPosition(k)
		sym.Assert((err == nil) == (k < uint(n)), "setPosition: succeeds exactly inside the buffer")
		if err == nil {
			sym.Assert(d.Position() == k, "setPosition: moves there")
			sym.Reach("setPosition/ok")
		} else {
			sym.Assert(delta() == 0, "setPosition: failure leaves the cursor")
			sym.Reach("setPosition/failed")
		}
	case "typeID", "discriminator":
		var err error
		var id bin.TypeID
		if name == "typeID" {
			id, err = d.ReadTypeID()
		} else {
			id, err = d.ReadDiscriminator()
		}
		exact(name, err, 8, rem >= 8)
		if err == nil {
			sym.Assert(sym.BytesEq(id[:], rest[:8]), name+": the next 8 bytes")
		}
	case "peekDiscriminator":
		id, err := d.PeekDiscriminator()
		sym.Assert((err == nil) == (rem >= 8) && delta() == 0, "peekDiscriminator")
		if err == nil {
			sym.Assert(sym.BytesEq(id[:], rest[:8]), name+": the next 8 bytes")
		}
	case "byteSlice", "string", "safeString":
		var err error
		ln := 0
		switch name {
		case "byteSlice":
			var out []byte
			out, err = d.ReadByteSlice()
			ln = len(out)
		case "string":
			var out string
			out, err = d.ReadString()
			ln = len(out)
		case "safeString":
			if rem > []int{3, 6, 3}[e] {
				return // decoding long symbolic text is C28's business
			}
			_, err = d.SafeReadUTF8String()
		}
		if err != nil {
			sym.Reach(name + "/failed")
			return
		}
		want, w := prefixAt(rest, e)
		if name != "safeString" {
			sym.Assert(ln == want, name+": as long as announced")
		}
		sym.Assert(delta() == w+want, name+": advances past prefix and bytes")
		sym.Reach(name + "/ok")
	case "rustString":
		out, err := d.ReadRustString()
		if err != nil {
			sym.Reach(name + "/failed")
			return
		}
		want := int(binary.LittleEndian.Uint64(rest))
		sym.Assert(len(out) == want && delta() == 8+want, name+": advances past prefix and bytes")
		sym.Reach(name + "/ok")
	case "length":
		v, err := d.ReadLength()
		if err != nil {
			sym.Reach(name + "/failed")
			return
		}
		want, w := prefixAt(rest, e)
		sym.Assert(v == want && delta() == w, "length: value and size of the prefix")
		sym.Reach(name + "/ok")
	case "reset":
		d.Reset(data)
		sym.Assert(d.Position() == 0 && d.Remaining() == n, "reset: back to the start")
		sym.Reach(name)
	}
}

// prefixAt decodes a well-formed length prefix (value, size).
func prefixAt(b []byte, e int) (int, int) {
	switch e {
	case eBorsh:
		return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24, 4
	case eBin:
		v := 0
		for i := 0; ; i++ {
			v |= int(b[i]&0x7f) << (7 * uint(i))
			if b[i] < 0x80 {
				return v, i + 1
			}
		}
	}
	v := int(b[0] & 0x7f)
	if b[0] < 0x80 {
		return v, 1
	}
	v |= int(b[1]&0x7f) << 7
	if b[1] < 0x80 {
		return v, 2
	}
	return v | int(b[2])<<14, 3
}

// One step from an arbitrary valid cursor: with the base case (a new decoder) this
// is an induction over every sequence of operations on buffers of these lengths.
func C09_step() {
	lens := []int{0, 1, 4, 9, 18}
	if sym.Tier() > 0 {
		lens = []int{0, 1, 2, 3, 4, 7, 8, 9, 11, 15, 16, 17, 18, 24}
	}
	n := lens[sym.Choose("len", len(lens))]
	e := chooseEnc()
	data := roomy(sym.Bytes("data", n))
	d := newDec(e, data)
	cursorOK(d, n)
	sym.Assert(d.Position() == 0, "a new decoder starts at 0")
	p := sym.Choose("pos", n+1)
	sym.Assert(d.SkipBytes(uint(p)) == nil && d.Position() == uint(p), "reach the start position")
	cursorOK(d, n)
	step(d, data, e)
	cursorOK(d, n)
	sym.Observe("pos", d.Position())
}

// Two operations in a row, in any combination.
func C09_two() {
	n := []int{5, 10}[sym.Choose("len", 2)]
	e := chooseEnc()
	data := roomy(sym.Bytes("data", n))
	d := newDec(e, data)
	step(d, data, e)
	cursorOK(d, n)
	if sym.Tier() > 0 {
		step(d, data, e)
	} else {
		p := d.Position()
		_, err := d.ReadUint16(binary.LittleEndian)
		sym.Assert((err == nil) == (p+2 <= uint(n)), "the next read starts where the last ended")
		if err == nil {
			sym.Assert(d.Position() == p+2, "the next read advances by its width")
		}
	}
	cursorOK(d, n)
	sym.Reach("two")
}

// Decoding whole values of catalogue types keeps the invariant, on success and on failure alike.
func C09_decode() {
	e := chooseEnc()
	en := pickEntry(e, nil)
	b := &B{e: e}
	v, fresh := en.mk(b)
	if b.bad {
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	if len(out) > 40+300*sym.Tier() {
		sym.Reach("skipped")
		return
	}
	tail := sym.Bytes("tail", 2)
	all := append(append([]byte{}, out...), tail...)
	d := newDec(e, all)
	err = d.Decode(fresh)
	cursorOK(d, len(all))
	sym.Assert(err == nil, en.name+": decodes")
	if !en.ext {
		sym.Assert(d.Position() == uint(len(out)), en.name+": advances by exactly the value's size")
	}
	for cut := 0; cut < len(out); cut++ {
		d := newDec(e, out[:cut])
		_ = d.Decode(fresh)
		cursorOK(d, cut)
	}
	sym.Reach(en.name)
}

// Far into a long buffer: the cursor operations with arbitrary arguments, where offsets no longer fit 16 bits.
func C09_far() {
	n := 70003
	d := newDec(eBin, make([]byte, n))
	p := sym.Uint("pos")
	err := d.SetPosition(p)
	sym.Assert((err == nil) == (p < uint(n)), "far: SetPosition succeeds exactly inside the buffer")
	if err != nil {
		sym.Assert(d.Position() == 0, "far: failure leaves the cursor")
		return
	}
	sym.Assert(d.Position() == p && d.Remaining() == n-int(p) && d.HasRemaining() == (n-int(p) > 0) && d.Len() == n, "far: cursor and remaining")
	k := sym.Int("n")
	ok := k >= 0 && k <= n-int(p)
	switch sym.Choose("op", 2) {
	case 0:
		err = d.SkipBytes(uint(k))
	case 1:
		err = d.Discard(k)
	}
	sym.Assert((err == nil) == ok, "far: moves exactly within the buffer")
	want := p
	if ok {
		want += uint(k)
	}
	sym.Assert(d.Position() == want && d.Remaining() == n-int(want), "far: cursor and remaining after the move")
	sym.Reach("far")
}
