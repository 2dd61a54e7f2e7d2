package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// One type per position for each kind the format has no encoding for.
type unsup struct {
	name string
	// mk builds a non-nil value holding one element of the kind, and a fresh target
	mk func() (interface{}, interface{})
}

type uInt struct {
	A uint8
	B int
}
type uUint struct {
	A uint8
	B uint
}
type uPtr struct {
	A uint8
	B uintptr
}
type uCplx struct {
	A uint8
	B complex128
}
type uChan struct {
	A uint8
	B chan int
}
type uFunc struct {
	A uint8
	B func()
}
type uOpt struct {
	A uint8
	B *int `bin:"optional"`
}
type uCOpt struct {
	A uint8
	B *uint `bin:"coption"`
}
type uSized struct {
	N uint8 `bin:"sizeof=B"`
	B []int
}
type uEnum struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	V   int
	W   uint8
}
type uNamed int
type uDeep struct {
	A uint8
	B []uInt
}

var unsups = []unsup{
	{"int", func() (interface{}, interface{}) { v := sym.Int("v"); return v, new(int) }},
	{"uint", func() (interface{}, interface{}) { v := sym.Uint("v"); return v, new(uint) }},
	{"uintptr", func() (interface{}, interface{}) { return uintptr(7), new(uintptr) }},
	{"complex64", func() (interface{}, interface{}) { return complex64(1), new(complex64) }},
	{"complex128", func() (interface{}, interface{}) { return complex128(1), new(complex128) }},
	{"chan", func() (interface{}, interface{}) { return make(chan int), new(chan int) }},
	{"func", func() (interface{}, interface{}) { return func() {}, new(func()) }},
	{"named int", func() (interface{}, interface{}) { return uNamed(sym.Int("v")), new(uNamed) }},
	{"*int", func() (interface{}, interface{}) { v := sym.Int("v"); return &v, new(*int) }},
	{"int field", func() (interface{}, interface{}) { return &uInt{sym.U8("a"), sym.Int("v")}, new(uInt) }},
	{"uint field", func() (interface{}, interface{}) { return &uUint{sym.U8("a"), sym.Uint("v")}, new(uUint) }},
	{"uintptr field", func() (interface{}, interface{}) { return &uPtr{1, 2}, new(uPtr) }},
	{"complex field", func() (interface{}, interface{}) { return &uCplx{1, 2}, new(uCplx) }},
	{"chan field", func() (interface{}, interface{}) { return &uChan{1, make(chan int)}, new(uChan) }},
	{"func field", func() (interface{}, interface{}) { return &uFunc{1, func() {}}, new(uFunc) }},
	{"optional int", func() (interface{}, interface{}) { v := sym.Int("v"); return &uOpt{1, &v}, new(uOpt) }},
	{"c-option uint", func() (interface{}, interface{}) { v := sym.Uint("v"); return &uCOpt{1, &v}, new(uCOpt) }},
	{"sized ints", func() (interface{}, interface{}) { return &uSized{1, []int{sym.Int("v")}}, new(uSized) }},
	{"deep", func() (interface{}, interface{}) { return &uDeep{1, []uInt{{1, sym.Int("v")}}}, new(uDeep) }},
	{"[]int", func() (interface{}, interface{}) { return []int{sym.Int("v")}, new([]int) }},
	{"[]uint", func() (interface{}, interface{}) { return []uint{sym.Uint("v")}, new([]uint) }},
	{"[]*int", func() (interface{}, interface{}) { v := sym.Int("v"); return []*int{&v}, new([]*int) }},
	{"[]chan", func() (interface{}, interface{}) { return []chan int{make(chan int)}, new([]chan int) }},
	{"[][]uint", func() (interface{}, interface{}) { return [][]uint{{sym.Uint("v")}}, new([][]uint) }},
	{"[1]int", func() (interface{}, interface{}) { return [1]int{sym.Int("v")}, new([1]int) }},
	{"[1]uint", func() (interface{}, interface{}) { return [1]uint{sym.Uint("v")}, new([1]uint) }},
	{"[1]complex", func() (interface{}, interface{}) { return [1]complex64{1}, new([1]complex64) }},
	{"map value", func() (interface{}, interface{}) { return map[uint8]int{1: sym.Int("v")}, new(map[uint8]int) }},
	{"map key", func() (interface{}, interface{}) { return map[int]uint8{3: sym.U8("v")}, new(map[int]uint8) }},
	{"map chan", func() (interface{}, interface{}) {
		return map[uint8]chan int{1: make(chan int)}, new(map[uint8]chan int)
	}},
	{"enum", func() (interface{}, interface{}) { return &uEnum{0, sym.Int("v"), 1}, new(uEnum) }},
}

// A value holding a kind without encoding: Encode reports an error.
func C33_encode() {
	e := chooseEnc()
	u := &unsups[sym.Choose("type", len(unsups))]
	if u.name == "enum" && e != eBorsh {
		return
	}
	v, _ := u.mk()
	var buf bytes.Buffer
	sym.Assert(newEnc(e, &buf).Encode(v) != nil, u.name+": Encode refuses")
	_, err := marshal(e, v)
	sym.Assert(err != nil, u.name+": Marshal refuses")
	_, err = byteCount(e, v)
	sym.Assert(err != nil, u.name+": no byte count")
	sym.Reach(u.name)
}

// A target holding a kind without encoding: Decode reports an error whenever it gets to it.
func C33_decode() {
	e := chooseEnc()
	u := &unsups[sym.Choose("type", len(unsups))]
	if u.name == "enum" && e != eBorsh {
		return
	}
	_, t := u.mk()
	var in []byte
	switch u.name {
	case "[]int", "[]uint", "[]*int", "[]chan", "map key":
		in = refLen(nil, e, 1)
	case "[][]uint":
		in = refLen(refLen(nil, e, 1), e, 1)
	case "map value", "map chan":
		in = append(refLen(nil, e, 1), sym.U8("key"))
	case "optional int":
		in = refOpt([]byte{sym.U8("a")}, e, true)
	case "c-option uint":
		in = []byte{sym.U8("a"), 1, 0, 0, 0}
	case "sized ints":
		in = []byte{1}
	case "deep":
		in = append(refLen([]byte{sym.U8("a")}, e, 1), sym.U8("b"))
	case "enum":
		in = []byte{0}
	default:
		in = []byte{sym.U8("a")}
	}
	in = append(in, sym.Bytes("rest", 16)...)
	d := newDec(e, in)
	sym.Assert(d.Decode(t) != nil, u.name+": Decode refuses")
	sym.Assert(d.Position() <= uint(len(in)), u.name+": cursor in bounds")
	sym.Reach(u.name)
}
