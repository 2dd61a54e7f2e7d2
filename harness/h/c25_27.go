package h

import (
	"bytes"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// sameResult: the decoded value is v. Where parts of the target take no part in the
// decode (unselected enum variants), compare by re-encoding.
func sameResult(e int, en *entry, v, got interface{}, out []byte, free bool) bool {
	if strings.HasPrefix(en.name, "enum") {
		again, err := marshal(e, got)
		return err == nil && (free && len(again) == len(out) || sym.BytesEq(again, out))
	}
	return sym.Eq(v, got)
}

// Decoding into a target full of junk gives the value, exactly as into a fresh one.
func C25_dirty() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long })
	b := &B{e: e}
	v, fresh := en.mk(b)
	target := dirtyOf(fresh)
	d := newDec(e, b.out)
	err := d.Decode(target)
	sym.Assert(err == nil, en.name+": decodes into a used variable")
	sym.Assert(sameResult(e, en, v, target, b.out, b.free), en.name+": what the target held before does not show")
	sym.Assert(d.Remaining() == 0, en.name+": consumed")
	sym.Reach(en.name)
}

// Absent binary-extension fields are the one thing left alone.
type tEmptyable struct {
	A []uint8
	B []inner
	C map[string]uint8
	D string
	E []*uint16
	F map[uint8][]string
	G [][]uint32
	H nRaw
	I []nU16
	J *[]inner
	K uint8
}

// Empty lists, maps and strings over a used target.
func C25_empty() {
	e := chooseEnc()
	var want tEmptyable
	b := &B{e: e}
	n := sym.Choose("n", 2)
	b.length(0)
	b.length(0)
	b.length(0)
	b.out = refStrLen(b.out, e, 0)
	b.length(0)
	b.length(0)
	b.length(n)
	if n == 1 {
		b.length(0)
		want.G = [][]uint32{nil}
	}
	b.length(0)
	b.length(0)
	b.length(0)
	want.J = &[]inner{}
	want.K = b.u8()
	target := dirtyOf(&tEmptyable{}).(*tEmptyable)
	sym.Assert(unmarshal(e, target, b.out) == nil, "decodes")
	sym.Assert(len(target.A) == 0 && len(target.B) == 0 && len(target.E) == 0 && len(target.H) == 0 && len(target.I) == 0, "empty slices decode as empty")
	sym.Assert(len(target.C) == 0 && len(target.F) == 0, "empty maps decode as empty")
	sym.Assert(sym.Eq(&want, target), "empty content replaces what the target held")
	sym.Reach("empty")
}

// A decoder reused through Reset, after success or after a failure midway, behaves like a new one; the input is never modified.
func C25_reset() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long || en.name == "enum-255" })
	b := &B{e: e}
	v, fresh := en.mk(b)
	input := append([]byte{}, b.out...)
	d := newDec(e, nil)
	switch sym.Choose("before", 4) {
	case 0:
		// fails in the middle of a tagged field
		var x tBig
		d.Reset([]byte{1, 2, 3, 4, 5})
		sym.Assert(d.Decode(&x) != nil, "first decode fails")
	case 1:
		b1 := &B{e: e}
		v1, f1 := mkOptPtr(b1)
		d.Reset(b1.out)
		sym.Assert(d.Decode(f1) == nil && sym.Eq(v1, f1), "first decode succeeds")
	case 2:
		var x tSized
		d.Reset([]byte{2, 0, 0, 1, 0, 2})
		_ = d.Decode(&x)
		_, _ = d.ReadByte()
	case 3:
		var x tOptNest
		d.Reset(sym.Bytes("prev", 5))
		_ = d.Decode(&x)
	}
	d.Reset(input)
	sym.Assert(d.Position() == 0 && d.Remaining() == len(input), "reset starts at the beginning of the new input")
	err := d.Decode(fresh)
	sym.Assert(err == nil, en.name+": decodes after Reset")
	sym.Assert(sym.Eq(v, fresh), en.name+": same value after Reset")
	sym.Assert(d.Remaining() == 0, en.name+": consumed after Reset")
	sym.Assert(sym.BytesEq(input, b.out), en.name+": the input buffer is not modified")
	sym.Reach(en.name)
}

// Direct use of the wrapper types' methods and typed readers right after Reset does not see an earlier field's tags.
func C25_tags() {
	e := chooseEnc()
	raw := sym.Bytes("raw", 8)
	d := newDec(e, nil)
	if sym.Choose("before", 2) == 1 {
		var x tLibBig
		d.Reset(sym.Bytes("prev", 20))
		_ = d.Decode(&x)
	}
	d.Reset(raw)
	var i bin.Int64
	sym.Assert(d.Decode(&i) == nil, "decodes")
	var want uint64
	for k := 7; k >= 0; k-- {
		want = want<<8 | uint64(raw[k])
	}
	sym.Assert(uint64(i) == want, "top-level values are little-endian whatever was decoded before")
	sym.Observe("i", int64(i))
	sym.Reach("tags")
}

// Repeated encoding, any route: same bytes, value untouched.
func C26_repeat() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long })
	b := &B{e: e}
	v, _ := en.mk(b)
	snap := cloneOf(v)
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	sym.Assert(sym.Eq(snap, v), en.name+": encoding does not modify the value")
	same := func(got []byte, what string) {
		if b.free {
			sym.Assert(len(got) == len(out), en.name+": "+what)
			return
		}
		sym.Assert(sym.BytesEq(got, out), en.name+": "+what)
	}
	switch sym.Choose("route", 5) {
	case 0:
		again, err := marshal(e, v)
		sym.Assert(err == nil, en.name+": encodes again")
		same(again, "encoding twice gives the same bytes")
	case 1:
		var buf bytes.Buffer
		enc := newEnc(e, &buf)
		sym.Assert(enc.Encode(v) == nil && enc.Encode(v) == nil, en.name+": one encoder, twice")
		all := buf.Bytes()
		sym.Assert(len(all) == 2*len(out), en.name+": twice the bytes")
		same(all[:len(out)], "first use of an encoder")
		same(all[len(out):], "second use of an encoder")
	case 2:
		// after operations and a failed encode on the same encoder
		var buf bytes.Buffer
		enc := newEnc(e, &buf)
		_ = enc.Encode(&struct {
			A uint32 `bin:"big optional"`
			B chan int
		}{A: 5})
		_ = enc.WriteUint16(7, orderOf(true))
		n := buf.Len()
		sym.Assert(enc.Encode(v) == nil, en.name+": encodes after a failure")
		same(buf.Bytes()[n:], "after a failed encode")
	case 3:
		rv := reflect.ValueOf(v)
		if en.name == "marshalers-top" {
			break // pointer-receiver marshalers are only found through a pointer
		}
		got, err := marshal(e, rv.Elem().Interface())
		sym.Assert(err == nil, en.name+": encodes by value")
		same(got, "by value as through a pointer")
		got, err = marshal(e, &v)
		sym.Assert(err == nil, en.name+": encodes through an interface pointer")
		_ = got
		pp := reflect.New(rv.Type())
		pp.Elem().Set(rv)
		got, err = marshal(e, pp.Interface())
		sym.Assert(err == nil, en.name+": encodes through two pointers")
		same(got, "through two pointers")
	case 4:
		got, err := marshal(e, snap)
		sym.Assert(err == nil, en.name+": encodes a copy")
		same(got, "an equal value gives the same bytes")
	}
	sym.Assert(sym.Eq(snap, v), en.name+": still unmodified")
	sym.Reach(en.name)
}

// Trace logging on: same bytes, same values, same errors.
func C27_trace() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long })
	b := &B{e: e}
	v, fresh := en.mk(b)
	fresh2 := freshLike(fresh)
	if en.name == "skipped" {
		fresh2 = cloneOf(fresh)
	}
	sym.SetTrace(false)
	out, err := marshal(e, v)
	sym.SetTrace(true)
	out2, err2 := marshal(e, v)
	sym.Assert((err == nil) == (err2 == nil), en.name+": same encode outcome")
	if b.free {
		sym.Assert(len(out) == len(out2), en.name+": same size")
	} else {
		sym.Assert(sym.BytesEq(out, out2), en.name+": same bytes")
	}
	d2 := newDec(e, out)
	derr2 := d2.Decode(fresh2)
	sym.SetTrace(false)
	d := newDec(e, out)
	derr := d.Decode(fresh)
	sym.Assert((derr == nil) == (derr2 == nil), en.name+": same decode outcome")
	sym.Assert(sym.Eq(fresh, fresh2), en.name+": same value")
	sym.Assert(d.Position() == d2.Position(), en.name+": same cursor")
	sym.Reach(en.name)
}

// Malformed input with trace logging on: same error or value.
func C27_hostile() {
	e := chooseEnc()
	data := sym.Bytes("data", []int{0, 3, 7}[sym.Choose("len", 3)])
	var mk func() interface{}
	k := sym.Choose("type", 10)
	mk = func() interface{} {
		switch k {
		case 0:
			return new(tOptInner)
		case 1:
			return new([]inner2)
		case 2:
			return new(map[uint8]uint16)
		case 3:
			return new(tF)
		case 4:
			return new([2]uint16)
		case 5:
			return new(bin.Uint128)
		case 6:
			return new(tCOpt)
		case 7:
			return new(string)
		case 8:
			return new(mFix)
		}
		return new(tExt)
	}
	a, b := mk(), mk()
	sym.SetTrace(true)
	d1 := newDec(e, data)
	err1 := d1.Decode(a)
	sym.SetTrace(false)
	d2 := newDec(e, data)
	err2 := d2.Decode(b)
	sym.Assert((err1 == nil) == (err2 == nil), "same outcome")
	if err1 == nil {
		sym.Assert(sym.Eq(a, b), "same value")
		sym.Reach("ok")
	} else {
		sym.Reach("failed")
	}
	sym.Assert(d1.Position() == d2.Position(), "same cursor")
}

// The typed readers and writers with trace logging on.
func C27_typed() {
	e := chooseEnc()
	ss := scalars()
	k := sym.Choose("op", len(ss)+12)
	n := []int{0, 2, 9, 17}[sym.Choose("len", 4)]
	data := sym.Bytes("data", n)
	num := sym.Int("n")
	run := func() (pos uint, r1, r2 uint64, failed bool, s string, out []byte, werr bool) {
		d := newDec(e, data)
		var err error
		var w error
		var buf bytes.Buffer
		enc := newEnc(e, &buf)
		if k < len(ss) {
			r1, r2, err = ss[k].read(d, orderOf(true))
			w = ss[k].write(enc, orderOf(true), uint64(num), uint64(num)^0x5a5a)
		} else {
			switch k - len(ss) {
			case 0:
				r1, err = d.ReadUvarint64()
				w = enc.WriteUVarInt(num)
			case 1:
				var x int64
				x, err = d.ReadVarint64()
				r1 = uint64(x)
				w = enc.WriteVarInt(num)
			case 2:
				var x int
				x, err = d.ReadCompactU16()
				r1 = uint64(x)
				w = enc.WriteCompactU16(num)
			case 3:
				var x []byte
				x, err = d.ReadByteSlice()
				s = string(x)
				w = enc.WriteBytes(data, true)
			case 4:
				s, err = d.ReadString()
				w = enc.WriteString(string(data))
			case 5:
				s, err = d.ReadRustString()
				w = enc.WriteRustString(string(data))
			case 6:
				var x []byte
				x, err = d.Peek(num)
				s = string(x)
				_, w = enc.Write(data)
			case 7:
				var x int
				x, err = d.ReadLength()
				r1 = uint64(x)
				w = enc.WriteLength(num)
			case 8:
				var id bin.TypeID
				id, err = d.ReadTypeID()
				s = string(id[:])
			case 9:
				var x uint32
				x, err = d.ReadUvarint32()
				r1 = uint64(x)
				_, _ = d.ReadVarint32()
			case 10:
				var x uint16
				x, err = d.ReadUvarint16()
				r1 = uint64(x)
				_, _ = d.ReadVarint16()
			case 11:
				err = d.SkipBytes(uint(num))
			}
		}
		return d.Position(), r1, r2, err != nil, s, buf.Bytes(), w != nil
	}
	sym.SetTrace(true)
	p, a, b, f, s, out, w := run()
	sym.SetTrace(false)
	p2, a2, b2, f2, s2, out2, w2 := run()
	sym.Assert(p == p2 && f == f2 && w == w2, "same cursor and outcome")
	sym.Assert(sym.And(a == a2, b == b2, sym.StrEq(s, s2)), "same value")
	sym.Assert(sym.BytesEq(out, out2), "same bytes")
	sym.Reach("typed")
}
