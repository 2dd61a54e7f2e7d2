package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// Everything another user of the package might be doing meanwhile: encodes and decodes of other values, in encoding o.
type otherWork struct {
	A uint64  `bin:"big"`
	B *uint32 `bin:"optional"`
	C string
	N uint8 `bin:"sizeof=L"`
	L []uint16
	D [3]uint8
	E []byte
	F map[uint8]string
	G float64
	H bin.Uint128
	I bin.Int64 `bin:"big"`
	J []otherIn
	K bool
}

type otherIn struct {
	X int32 `bin:"big"`
	Y uint8 `bin:"-"`
	Z bin.Varint32
}

func doOther(o int) {
	x := uint32(0xdddddddd)
	v := otherWork{A: 0xeeeeeeeeeeeeeeee, B: &x, C: "zzzzzzzz", N: 2, L: []uint16{0xcccc, 0xbbbb}, D: [3]uint8{0xaa, 0x99, 0x88},
		E: []byte{0x77, 0x77, 0x77, 0x77}, F: map[uint8]string{0x66: "yyyy"}, G: -1.5, H: bin.Uint128{Lo: 0x5555555555555555, Hi: 0x4444444444444444},
		I: -2, J: []otherIn{{X: -3, Z: -4}, {X: 5, Z: 6}}, K: true}
	out, err := marshal(o, &v)
	sym.Assert(err == nil, "other encode")
	var back otherWork
	sym.Assert(unmarshal(o, &back, out) == nil, "other decode")
	_ = newDec(o, out[:9]).Decode(&back) // one that fails midway in a tagged field
}

// busyWriter: other work goes on between the moment the encoder hands over its bytes and the moment they are taken.
type busyWriter struct {
	buf  bytes.Buffer
	o    int
	busy bool
}

func (w *busyWriter) Write(p []byte) (int, error) {
	if !w.busy {
		w.busy = true
		doOther(w.o)
		w.busy = false
	}
	return w.buf.Write(p)
}

// Other encoders and decoders at work between any two writes leave the bytes as they are.
func C26_interleaved() {
	e := chooseEnc()
	o := sym.Choose("other", 3)
	en := pickEntry(e, func(en *entry) bool { return en.long || en.name == "enum-255" })
	b := &B{e: e}
	v, _ := en.mk(b)
	if b.bad {
		return
	}
	w := &busyWriter{o: o}
	sym.Assert(newEnc(e, w).Encode(v) == nil, en.name+": encodes")
	if b.free {
		sym.Assert(w.buf.Len() == len(b.out), en.name+": same size with other work in between")
	} else {
		sym.Assert(sym.BytesEq(w.buf.Bytes(), b.out), en.name+": same bytes with other work in between")
	}
	sym.Reach(en.name)
}

// Marshalled output belongs to the caller: later operations do not touch it, and changing it changes nothing else.
func C26_owned() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long || en.name == "enum-255" })
	b := &B{e: e}
	v, _ := en.mk(b)
	if b.bad {
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	snap := append([]byte{}, out...)
	doOther(sym.Choose("other", 3))
	sym.Assert(sym.BytesEq(out, snap), en.name+": later operations do not touch the output")
	val := cloneOf(v)
	for i := range out {
		out[i] = ^out[i]
	}
	_ = append(out, 1, 2, 3)
	sym.Assert(sym.Eq(val, v), en.name+": the output is no alias of the value")
	again, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes again")
	if !b.free {
		sym.Assert(sym.BytesEq(again, snap), en.name+": the caller's changes to the output do not show later")
	}
	sym.Reach(en.name)
}

// reentrant: a type whose own methods use the package before, between and after its bytes.
type reentrant struct{ V, W uint16 }

func (r reentrant) MarshalWithEncoder(e *bin.Encoder) error {
	doOther(curOther)
	if err := e.WriteUint16(r.V, bin.LE); err != nil {
		return err
	}
	doOther(curOther)
	if err := e.Encode(r.W); err != nil {
		return err
	}
	doOther(curOther)
	return nil
}

func (r *reentrant) UnmarshalWithDecoder(d *bin.Decoder) error {
	doOther(curOther)
	v, err := d.ReadUint16(bin.LE)
	if err != nil {
		return err
	}
	doOther(curOther)
	r.V = v
	if err := d.Decode(&r.W); err != nil {
		return err
	}
	doOther(curOther)
	return nil
}

var curOther int

type tReent struct {
	A uint32 `bin:"big"`
	R reentrant
	B int16 `bin:"big"`
	N uint8 `bin:"sizeof=L"`
	P *reentrant
	L []reentrant
	O *reentrant `bin:"optional"`
	Q [1]reentrant
	M map[uint8]reentrant
	U []uint16
	S string
	Z int64 `bin:"big"`
}

// Custom marshalers that themselves use the package, while an encode or decode is under way.
func C26_reentrant() {
	e := chooseEnc()
	curOther = sym.Choose("other", 3)
	b := &B{e: e}
	big := e != eBorsh
	re := func() reentrant { return reentrant{b.u16(false), b.u16(false)} }
	var v tReent
	v.A = b.u32(big)
	v.R = re()
	v.B = b.i16(big)
	v.N = 2
	b.out = append(b.out, 2)
	p := re()
	v.P = &p
	v.L = []reentrant{re(), re()}
	b.out = refOpt(b.out, e, true)
	o := re()
	v.O = &o
	v.Q[0] = re()
	b.length(1)
	k := b.u8()
	v.M = map[uint8]reentrant{k: re()}
	b.length(2)
	v.U = []uint16{b.u16(false), b.u16(false)}
	v.S = b.str(2)
	v.Z = b.i64(big)
	out, err := marshal(e, &v)
	sym.Assert(err == nil, "encodes")
	sym.Assert(sym.BytesEq(out, b.out), "same bytes when its parts use the package themselves")
	var back tReent
	d := newDec(e, b.out)
	sym.Assert(d.Decode(&back) == nil && d.Remaining() == 0, "decodes")
	sym.Assert(sym.Eq(&v, &back), "same value when its parts use the package themselves")
	sym.Reach("reentrant")
}

// Decoded values stay as they are whatever is decoded afterwards, by the same decoder or others.
func C25_kept() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.long || en.name == "enum-255" })
	b := &B{e: e}
	v, fresh := en.mk(b)
	d := newDec(e, b.out)
	sym.Assert(d.Decode(fresh) == nil, en.name+": decodes")
	doOther(sym.Choose("other", 3))
	d.Reset([]byte{9, 8, 7, 6, 5, 4, 3, 2, 1, 9, 8, 7, 6, 5, 4, 3, 2, 1})
	var x otherWork
	_ = d.Decode(&x)
	sym.Assert(sym.Eq(v, fresh), en.name+": later operations do not touch a decoded value")
	sym.Reach(en.name)
}

// Types that print alike (declared in different functions) and types that share field names or tags do not influence each other.
func twinA() (interface{}, func(b *B) interface{}) {
	type twin struct {
		A uint16 `bin:"big"`
		B *uint8 `bin:"optional"`
		C uint32
	}
	return new(twin), func(b *B) interface{} {
		big := b.e != eBorsh
		v := &twin{}
		v.A = b.u16(big)
		b.out = refOpt(b.out, b.e, true)
		x := b.u8()
		v.B = &x
		v.C = b.u32(false)
		return v
	}
}

func twinB() (interface{}, func(b *B) interface{}) {
	type twin struct {
		A uint16
		B *uint8
		C uint32 `bin:"big"`
	}
	return new(twin), func(b *B) interface{} {
		big := b.e != eBorsh
		v := &twin{}
		v.A = b.u16(false)
		x := b.u8()
		v.B = &x
		v.C = b.u32(big)
		return v
	}
}

func twinC() (interface{}, func(b *B) interface{}) {
	type twin struct {
		A uint16 `bin:"-"`
		B *uint8
		C []uint8
	}
	return new(twin), func(b *B) interface{} {
		v := &twin{}
		x := b.u8()
		v.B = &x
		v.C = b.bytes(1)
		return v
	}
}

func C25_twins() {
	e := chooseEnc()
	twins := []func() (interface{}, func(b *B) interface{}){twinA, twinB, twinC}
	for _, t := range [2]int{sym.Choose("first", 3), sym.Choose("second", 3)} {
		fresh, mk := twins[t]()
		b := &B{e: e}
		v := mk(b)
		out, err := marshal(e, v)
		sym.Assert(err == nil && sym.BytesEq(out, b.out), "encoded by its own tags")
		d := newDec(e, b.out)
		sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 0 && sym.Eq(v, fresh), "decoded by its own tags")
	}
	sym.Reach("twins")
}

type tScribble struct {
	A string
	B []uint16
	C [3]uint8
	D map[uint8]string
	E []string
	F *string `bin:"optional"`
	G []uint64
	H []inner2
	I bin.SafeString
	J [2]uint32
	K map[string]uint8
	L [][2]uint8
}

// Decoded strings, numbers and lists of them are independent of the input buffer (byte lists may be views of it).
func C25_scribble() {
	e := chooseEnc()
	b := &B{e: e}
	v := &tScribble{}
	v.A = b.str(2)
	b.length(2)
	v.B = []uint16{b.u16(false), b.u16(false)}
	v.C = [3]uint8{b.u8(), b.u8(), b.u8()}
	b.length(1)
	b.out = append(b.out, 4)
	v.D = map[uint8]string{4: b.str(2)}
	b.length(2)
	v.E = []string{b.str(1), b.str(2)}
	b.out = refOpt(b.out, e, true)
	f := b.str(2)
	v.F = &f
	b.length(1)
	v.G = []uint64{b.u64(false)}
	b.length(2)
	v.H = []inner2{{b.u8()}, {b.u8()}}
	v.I = "ab"
	b.length(2)
	b.out = append(b.out, "ab"...)
	v.J = [2]uint32{b.u32(false), b.u32(false)}
	b.length(1)
	b.out = append(refStrLen(b.out, e, 2), "xy"...)
	v.K = map[string]uint8{"xy": b.u8()}
	b.length(1)
	v.L = [][2]uint8{{b.u8(), b.u8()}}
	var got tScribble
	d := newDec(e, b.out)
	sym.Assert(d.Decode(&got) == nil && d.Remaining() == 0, "decodes")
	s, err := newDec(e, b.out).ReadString()
	_ = err
	snap := string(append([]byte{}, s...))
	for i := range b.out {
		b.out[i] = ^b.out[i]
	}
	sym.Assert(sym.Eq(v, &got), "overwriting the input does not change a decoded value")
	sym.Assert(s == snap, "nor a string read")
	sym.Reach("scribble")
}
