package h

import (
	"bytes"
	"errors"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// Input that nests values of recursive types as deeply as it is long.

type dpList struct{ Kids []dpList }

type dpMap struct {
	Kids map[uint8]dpMap
}

type dpOpt struct {
	A    uint8
	Next *dpOpt `bin:"optional"`
}

type dpCOpt struct {
	A    uint8
	Next *dpCOpt `bin:"coption"`
}

type dpSelf []dpSelf

type dpPtrs []*dpPtrs

type dpIn struct{ P *[]dpIn }

type dpSized struct {
	N uint8 `bin:"sizeof=L"`
	L []dpSized
}

type dpExt struct {
	A    uint8
	Next *dpExt `bin:"binary_extension"`
}

type dpEnum struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	X    uint8
	Kids []dpEnum
}

type dpOwn struct {
	A    uint8
	Next *dpOwn
}

func (o *dpOwn) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	if o.A, err = d.ReadUint8(); err != nil || o.A == 0 {
		return err
	}
	o.Next = &dpOwn{}
	return d.Decode(o.Next)
}

func (o dpOwn) MarshalWithEncoder(*bin.Encoder) error { return errors.New("never") }

// deepInput: one level of the type, which holds another one; and the target.
func deepInput(e int) (level []byte, target interface{}) {
	one := refLen(nil, e, 1)
	k := 9
	if e == eBorsh {
		k = 11
	}
	switch sym.Choose("deep type", k) {
	case 0:
		return one, &dpList{}
	case 1:
		return append(one, 7), &dpMap{}
	case 2:
		return refOpt([]byte{7}, e, true), &dpOpt{}
	case 3:
		return one, new(dpSelf)
	case 4:
		return one, new(dpPtrs)
	case 5:
		return []byte{1}, &dpSized{}
	case 6:
		return []byte{1}, &dpExt{}
	case 7:
		return []byte{1}, &dpOwn{}
	case 8:
		return one, &dpIn{}
	case 9:
		return []byte{7, 1, 0, 0, 0}, &dpCOpt{}
	}
	return append([]byte{1}, one...), &dpEnum{}
}

// However deep the input nests, decoding it returns: it does not exhaust the stack, which would end the process.
func C08_deep() {
	e := chooseEnc()
	level, target := deepInput(e)
	n := 120000
	if sym.Native() {
		n = 2000000 // enough for the real stack
	}
	err := newDec(e, bytes.Repeat(level, n)).Decode(target)
	sym.Observe("err", err != nil)
	sym.Reach("deep")
}

// Deeply nested input that breaks off takes no more memory than its length accounts for, errors included.
func C11_nested() {
	e := chooseEnc()
	level, target := deepInput(e)
	n := 1500
	if sym.Tier() > 0 {
		n = 3000
	}
	in := append(bytes.Repeat(level, n), sym.Bytes("tail", 2)...)
	sym.WithTotal(256<<10+n*4096, func() { _ = newDec(e, in).Decode(target) })
	sym.Reach("nested")
}

// A decode that failed far down, too deep or for lack of input, leaves nothing behind after Reset.
func C25_deep() {
	e := chooseEnc()
	level, target := deepInput(e)
	bad := bytes.Repeat(level, []int{4900, 12000}[sym.Choose("first", 2)])
	d := newDec(e, bad)
	_ = d.Decode(target)
	good := append(bytes.Repeat(level, 2000), make([]byte, 8)...)
	one, two := freshLike(target), freshLike(target)
	f := newDec(e, good)
	ferr := f.Decode(one)
	d.Reset(good)
	derr := d.Decode(two)
	sym.Assert((ferr == nil) == (derr == nil) && f.Remaining() == d.Remaining(), "the same outcome as with a new decoder")
	sym.Assert(ferr == nil, "decodes")
	sym.Reach("deep")
}
