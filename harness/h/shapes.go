// Code generated by tools/genshapes.py. DO NOT EDIT.

package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// raw bytes between the parts of a shape
type raw []byte

type shape struct {
	name  string
	encs  int
	v     interface{}
	parts []interface{}
}

type shIn struct {
	A uint16
	B uint8
}

func numF32(n string) float32 {
	f := sym.F32(n)
	sym.Assume(f == f)
	return f
}

func numF64(n string) float64 {
	f := sym.F64(n)
	sym.Assume(f == f)
	return f
}

type shLastBool struct {
	P uint8
	V bool
}
type shFirstBool struct {
	V bool
	P uint8
}
type shPtrBool struct {
	V *bool
	P uint8
}
type shOptBool struct {
	V *bool `bin:"optional"`
	P uint8
}
type shCOptBool struct {
	V *bool `bin:"coption"`
	P uint8
}
type shSizedBool struct {
	N uint16 `bin:"sizeof=V"`
	V []bool
	P uint8
}
type shInBool struct {
	V shLastBool
	W *shFirstBool
}
type shEnumBool struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bool
	W   *bool
}

func shapesBool(e int, which int) *shape {
	mk := func(n string) bool { return sym.Bool(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastBool{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstBool{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrBool{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptBool{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptBool{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedBool{2, []bool{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bool{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bool{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bool{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInBool{shLastBool{p, a}, &shFirstBool{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumBool{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumBool{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastBool{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bool{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bool{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstBool{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastU8 struct {
	P uint8
	V uint8
}
type shFirstU8 struct {
	V uint8
	P uint8
}
type shPtrU8 struct {
	V *uint8
	P uint8
}
type shOptU8 struct {
	V *uint8 `bin:"optional"`
	P uint8
}
type shCOptU8 struct {
	V *uint8 `bin:"coption"`
	P uint8
}
type shSizedU8 struct {
	N uint16 `bin:"sizeof=V"`
	V []uint8
	P uint8
}
type shInU8 struct {
	V shLastU8
	W *shFirstU8
}
type shEnumU8 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   uint8
	W   *uint8
}

func shapesU8(e int, which int) *shape {
	mk := func(n string) uint8 { return sym.U8(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastU8{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstU8{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrU8{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptU8{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptU8{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedU8{2, []uint8{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []uint8{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]uint8{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]uint8{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInU8{shLastU8{p, a}, &shFirstU8{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumU8{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumU8{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastU8{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]uint8{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*uint8{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstU8{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[uint8]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastU16 struct {
	P uint8
	V uint16
}
type shFirstU16 struct {
	V uint16
	P uint8
}
type shPtrU16 struct {
	V *uint16
	P uint8
}
type shOptU16 struct {
	V *uint16 `bin:"optional"`
	P uint8
}
type shCOptU16 struct {
	V *uint16 `bin:"coption"`
	P uint8
}
type shSizedU16 struct {
	N uint16 `bin:"sizeof=V"`
	V []uint16
	P uint8
}
type shInU16 struct {
	V shLastU16
	W *shFirstU16
}
type shEnumU16 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   uint16
	W   *uint16
}

func shapesU16(e int, which int) *shape {
	mk := func(n string) uint16 { return sym.U16(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastU16{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstU16{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrU16{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptU16{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptU16{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedU16{2, []uint16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []uint16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]uint16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]uint16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInU16{shLastU16{p, a}, &shFirstU16{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumU16{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumU16{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastU16{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]uint16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*uint16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstU16{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[uint16]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastU32 struct {
	P uint8
	V uint32
}
type shFirstU32 struct {
	V uint32
	P uint8
}
type shPtrU32 struct {
	V *uint32
	P uint8
}
type shOptU32 struct {
	V *uint32 `bin:"optional"`
	P uint8
}
type shCOptU32 struct {
	V *uint32 `bin:"coption"`
	P uint8
}
type shSizedU32 struct {
	N uint16 `bin:"sizeof=V"`
	V []uint32
	P uint8
}
type shInU32 struct {
	V shLastU32
	W *shFirstU32
}
type shEnumU32 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   uint32
	W   *uint32
}

func shapesU32(e int, which int) *shape {
	mk := func(n string) uint32 { return sym.U32(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastU32{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstU32{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrU32{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptU32{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptU32{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedU32{2, []uint32{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []uint32{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]uint32{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]uint32{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInU32{shLastU32{p, a}, &shFirstU32{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumU32{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumU32{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastU32{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]uint32{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*uint32{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstU32{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[uint32]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastU64 struct {
	P uint8
	V uint64
}
type shFirstU64 struct {
	V uint64
	P uint8
}
type shPtrU64 struct {
	V *uint64
	P uint8
}
type shOptU64 struct {
	V *uint64 `bin:"optional"`
	P uint8
}
type shCOptU64 struct {
	V *uint64 `bin:"coption"`
	P uint8
}
type shSizedU64 struct {
	N uint16 `bin:"sizeof=V"`
	V []uint64
	P uint8
}
type shInU64 struct {
	V shLastU64
	W *shFirstU64
}
type shEnumU64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   uint64
	W   *uint64
}

func shapesU64(e int, which int) *shape {
	mk := func(n string) uint64 { return sym.U64(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastU64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstU64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrU64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptU64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptU64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedU64{2, []uint64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []uint64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]uint64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]uint64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInU64{shLastU64{p, a}, &shFirstU64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumU64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumU64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastU64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]uint64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*uint64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstU64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[uint64]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastI8 struct {
	P uint8
	V int8
}
type shFirstI8 struct {
	V int8
	P uint8
}
type shPtrI8 struct {
	V *int8
	P uint8
}
type shOptI8 struct {
	V *int8 `bin:"optional"`
	P uint8
}
type shCOptI8 struct {
	V *int8 `bin:"coption"`
	P uint8
}
type shSizedI8 struct {
	N uint16 `bin:"sizeof=V"`
	V []int8
	P uint8
}
type shInI8 struct {
	V shLastI8
	W *shFirstI8
}
type shEnumI8 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   int8
	W   *int8
}

func shapesI8(e int, which int) *shape {
	mk := func(n string) int8 { return sym.I8(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastI8{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstI8{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrI8{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptI8{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptI8{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedI8{2, []int8{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []int8{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]int8{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]int8{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInI8{shLastI8{p, a}, &shFirstI8{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumI8{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumI8{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastI8{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]int8{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*int8{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstI8{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[int8]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastI16 struct {
	P uint8
	V int16
}
type shFirstI16 struct {
	V int16
	P uint8
}
type shPtrI16 struct {
	V *int16
	P uint8
}
type shOptI16 struct {
	V *int16 `bin:"optional"`
	P uint8
}
type shCOptI16 struct {
	V *int16 `bin:"coption"`
	P uint8
}
type shSizedI16 struct {
	N uint16 `bin:"sizeof=V"`
	V []int16
	P uint8
}
type shInI16 struct {
	V shLastI16
	W *shFirstI16
}
type shEnumI16 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   int16
	W   *int16
}

func shapesI16(e int, which int) *shape {
	mk := func(n string) int16 { return sym.I16(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastI16{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstI16{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrI16{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptI16{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptI16{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedI16{2, []int16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []int16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]int16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]int16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInI16{shLastI16{p, a}, &shFirstI16{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumI16{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumI16{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastI16{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]int16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*int16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstI16{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[int16]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastI32 struct {
	P uint8
	V int32
}
type shFirstI32 struct {
	V int32
	P uint8
}
type shPtrI32 struct {
	V *int32
	P uint8
}
type shOptI32 struct {
	V *int32 `bin:"optional"`
	P uint8
}
type shCOptI32 struct {
	V *int32 `bin:"coption"`
	P uint8
}
type shSizedI32 struct {
	N uint16 `bin:"sizeof=V"`
	V []int32
	P uint8
}
type shInI32 struct {
	V shLastI32
	W *shFirstI32
}
type shEnumI32 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   int32
	W   *int32
}

func shapesI32(e int, which int) *shape {
	mk := func(n string) int32 { return sym.I32(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastI32{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstI32{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrI32{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptI32{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptI32{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedI32{2, []int32{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []int32{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]int32{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]int32{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInI32{shLastI32{p, a}, &shFirstI32{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumI32{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumI32{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastI32{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]int32{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*int32{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstI32{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[int32]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastI64 struct {
	P uint8
	V int64
}
type shFirstI64 struct {
	V int64
	P uint8
}
type shPtrI64 struct {
	V *int64
	P uint8
}
type shOptI64 struct {
	V *int64 `bin:"optional"`
	P uint8
}
type shCOptI64 struct {
	V *int64 `bin:"coption"`
	P uint8
}
type shSizedI64 struct {
	N uint16 `bin:"sizeof=V"`
	V []int64
	P uint8
}
type shInI64 struct {
	V shLastI64
	W *shFirstI64
}
type shEnumI64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   int64
	W   *int64
}

func shapesI64(e int, which int) *shape {
	mk := func(n string) int64 { return sym.I64(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastI64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstI64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrI64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptI64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptI64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedI64{2, []int64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []int64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]int64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]int64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInI64{shLastI64{p, a}, &shFirstI64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumI64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumI64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastI64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]int64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*int64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstI64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[int64]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastF32 struct {
	P uint8
	V float32
}
type shFirstF32 struct {
	V float32
	P uint8
}
type shPtrF32 struct {
	V *float32
	P uint8
}
type shOptF32 struct {
	V *float32 `bin:"optional"`
	P uint8
}
type shCOptF32 struct {
	V *float32 `bin:"coption"`
	P uint8
}
type shSizedF32 struct {
	N uint16 `bin:"sizeof=V"`
	V []float32
	P uint8
}
type shInF32 struct {
	V shLastF32
	W *shFirstF32
}
type shEnumF32 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   float32
	W   *float32
}

func shapesF32(e int, which int) *shape {
	mk := func(n string) float32 { return numF32(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastF32{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstF32{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrF32{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptF32{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptF32{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedF32{2, []float32{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []float32{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]float32{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]float32{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInF32{shLastF32{p, a}, &shFirstF32{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumF32{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumF32{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastF32{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]float32{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*float32{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstF32{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastF64 struct {
	P uint8
	V float64
}
type shFirstF64 struct {
	V float64
	P uint8
}
type shPtrF64 struct {
	V *float64
	P uint8
}
type shOptF64 struct {
	V *float64 `bin:"optional"`
	P uint8
}
type shCOptF64 struct {
	V *float64 `bin:"coption"`
	P uint8
}
type shSizedF64 struct {
	N uint16 `bin:"sizeof=V"`
	V []float64
	P uint8
}
type shInF64 struct {
	V shLastF64
	W *shFirstF64
}
type shEnumF64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   float64
	W   *float64
}

func shapesF64(e int, which int) *shape {
	mk := func(n string) float64 { return numF64(n) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastF64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstF64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrF64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptF64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptF64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedF64{2, []float64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []float64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]float64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]float64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInF64{shLastF64{p, a}, &shFirstF64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumF64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumF64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastF64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]float64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*float64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstF64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastStr struct {
	P uint8
	V string
}
type shFirstStr struct {
	V string
	P uint8
}
type shPtrStr struct {
	V *string
	P uint8
}
type shOptStr struct {
	V *string `bin:"optional"`
	P uint8
}
type shCOptStr struct {
	V *string `bin:"coption"`
	P uint8
}
type shSizedStr struct {
	N uint16 `bin:"sizeof=V"`
	V []string
	P uint8
}
type shInStr struct {
	V shLastStr
	W *shFirstStr
}
type shEnumStr struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   string
	W   *string
}

func shapesStr(e int, which int) *shape {
	mk := func(n string) string { return string(sym.Bytes(n, 2)) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastStr{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstStr{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrStr{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptStr{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptStr{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedStr{2, []string{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []string{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]string{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]string{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInStr{shLastStr{p, a}, &shFirstStr{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumStr{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumStr{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastStr{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]string{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*string{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstStr{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	case 17:
		v := map[string]uint8{a: 5}
		return &shape{"map key", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a, uint8(5)}}
	}
	return nil
}

type shLastSU8 struct {
	P uint8
	V []uint8
}
type shFirstSU8 struct {
	V []uint8
	P uint8
}
type shPtrSU8 struct {
	V *[]uint8
	P uint8
}
type shOptSU8 struct {
	V *[]uint8 `bin:"optional"`
	P uint8
}
type shCOptSU8 struct {
	V *[]uint8 `bin:"coption"`
	P uint8
}
type shSizedSU8 struct {
	N uint16 `bin:"sizeof=V"`
	V [][]uint8
	P uint8
}
type shInSU8 struct {
	V shLastSU8
	W *shFirstSU8
}
type shEnumSU8 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []uint8
	W   *[]uint8
}

func shapesSU8(e int, which int) *shape {
	mk := func(n string) []uint8 { return sym.Bytes(n, 2) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSU8{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSU8{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSU8{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSU8{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSU8{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSU8{2, [][]uint8{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]uint8{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]uint8{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]uint8{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSU8{shLastSU8{p, a}, &shFirstSU8{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSU8{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSU8{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSU8{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]uint8{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]uint8{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSU8{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSU16 struct {
	P uint8
	V []uint16
}
type shFirstSU16 struct {
	V []uint16
	P uint8
}
type shPtrSU16 struct {
	V *[]uint16
	P uint8
}
type shOptSU16 struct {
	V *[]uint16 `bin:"optional"`
	P uint8
}
type shCOptSU16 struct {
	V *[]uint16 `bin:"coption"`
	P uint8
}
type shSizedSU16 struct {
	N uint16 `bin:"sizeof=V"`
	V [][]uint16
	P uint8
}
type shInSU16 struct {
	V shLastSU16
	W *shFirstSU16
}
type shEnumSU16 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []uint16
	W   *[]uint16
}

func shapesSU16(e int, which int) *shape {
	mk := func(n string) []uint16 { return []uint16{sym.U16(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSU16{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSU16{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSU16{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSU16{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSU16{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSU16{2, [][]uint16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]uint16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]uint16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]uint16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSU16{shLastSU16{p, a}, &shFirstSU16{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSU16{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSU16{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSU16{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]uint16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]uint16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSU16{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSU32 struct {
	P uint8
	V []uint32
}
type shFirstSU32 struct {
	V []uint32
	P uint8
}
type shPtrSU32 struct {
	V *[]uint32
	P uint8
}
type shOptSU32 struct {
	V *[]uint32 `bin:"optional"`
	P uint8
}
type shCOptSU32 struct {
	V *[]uint32 `bin:"coption"`
	P uint8
}
type shSizedSU32 struct {
	N uint16 `bin:"sizeof=V"`
	V [][]uint32
	P uint8
}
type shInSU32 struct {
	V shLastSU32
	W *shFirstSU32
}
type shEnumSU32 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []uint32
	W   *[]uint32
}

func shapesSU32(e int, which int) *shape {
	mk := func(n string) []uint32 { return []uint32{sym.U32(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSU32{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSU32{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSU32{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSU32{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSU32{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSU32{2, [][]uint32{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]uint32{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]uint32{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]uint32{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSU32{shLastSU32{p, a}, &shFirstSU32{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSU32{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSU32{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSU32{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]uint32{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]uint32{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSU32{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSU64 struct {
	P uint8
	V []uint64
}
type shFirstSU64 struct {
	V []uint64
	P uint8
}
type shPtrSU64 struct {
	V *[]uint64
	P uint8
}
type shOptSU64 struct {
	V *[]uint64 `bin:"optional"`
	P uint8
}
type shCOptSU64 struct {
	V *[]uint64 `bin:"coption"`
	P uint8
}
type shSizedSU64 struct {
	N uint16 `bin:"sizeof=V"`
	V [][]uint64
	P uint8
}
type shInSU64 struct {
	V shLastSU64
	W *shFirstSU64
}
type shEnumSU64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []uint64
	W   *[]uint64
}

func shapesSU64(e int, which int) *shape {
	mk := func(n string) []uint64 { return []uint64{sym.U64(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSU64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSU64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSU64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSU64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSU64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSU64{2, [][]uint64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]uint64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]uint64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]uint64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSU64{shLastSU64{p, a}, &shFirstSU64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSU64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSU64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSU64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]uint64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]uint64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSU64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSI16 struct {
	P uint8
	V []int16
}
type shFirstSI16 struct {
	V []int16
	P uint8
}
type shPtrSI16 struct {
	V *[]int16
	P uint8
}
type shOptSI16 struct {
	V *[]int16 `bin:"optional"`
	P uint8
}
type shCOptSI16 struct {
	V *[]int16 `bin:"coption"`
	P uint8
}
type shSizedSI16 struct {
	N uint16 `bin:"sizeof=V"`
	V [][]int16
	P uint8
}
type shInSI16 struct {
	V shLastSI16
	W *shFirstSI16
}
type shEnumSI16 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []int16
	W   *[]int16
}

func shapesSI16(e int, which int) *shape {
	mk := func(n string) []int16 { return []int16{sym.I16(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSI16{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSI16{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSI16{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSI16{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSI16{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSI16{2, [][]int16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]int16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]int16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]int16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSI16{shLastSI16{p, a}, &shFirstSI16{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSI16{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSI16{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSI16{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]int16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]int16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSI16{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSBool struct {
	P uint8
	V []bool
}
type shFirstSBool struct {
	V []bool
	P uint8
}
type shPtrSBool struct {
	V *[]bool
	P uint8
}
type shOptSBool struct {
	V *[]bool `bin:"optional"`
	P uint8
}
type shCOptSBool struct {
	V *[]bool `bin:"coption"`
	P uint8
}
type shSizedSBool struct {
	N uint16 `bin:"sizeof=V"`
	V [][]bool
	P uint8
}
type shInSBool struct {
	V shLastSBool
	W *shFirstSBool
}
type shEnumSBool struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []bool
	W   *[]bool
}

func shapesSBool(e int, which int) *shape {
	mk := func(n string) []bool { return []bool{sym.Bool(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSBool{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSBool{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSBool{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSBool{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSBool{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSBool{2, [][]bool{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]bool{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]bool{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]bool{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSBool{shLastSBool{p, a}, &shFirstSBool{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSBool{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSBool{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSBool{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]bool{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]bool{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSBool{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSStr struct {
	P uint8
	V []string
}
type shFirstSStr struct {
	V []string
	P uint8
}
type shPtrSStr struct {
	V *[]string
	P uint8
}
type shOptSStr struct {
	V *[]string `bin:"optional"`
	P uint8
}
type shCOptSStr struct {
	V *[]string `bin:"coption"`
	P uint8
}
type shSizedSStr struct {
	N uint16 `bin:"sizeof=V"`
	V [][]string
	P uint8
}
type shInSStr struct {
	V shLastSStr
	W *shFirstSStr
}
type shEnumSStr struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   []string
	W   *[]string
}

func shapesSStr(e int, which int) *shape {
	mk := func(n string) []string { return []string{string(sym.Bytes(n, 1))} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSStr{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSStr{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSStr{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSStr{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSStr{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSStr{2, [][]string{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][]string{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][]string{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][]string{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSStr{shLastSStr{p, a}, &shFirstSStr{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSStr{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSStr{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSStr{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][]string{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[]string{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSStr{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastAU8 struct {
	P uint8
	V [2]uint8
}
type shFirstAU8 struct {
	V [2]uint8
	P uint8
}
type shPtrAU8 struct {
	V *[2]uint8
	P uint8
}
type shOptAU8 struct {
	V *[2]uint8 `bin:"optional"`
	P uint8
}
type shCOptAU8 struct {
	V *[2]uint8 `bin:"coption"`
	P uint8
}
type shSizedAU8 struct {
	N uint16 `bin:"sizeof=V"`
	V [][2]uint8
	P uint8
}
type shInAU8 struct {
	V shLastAU8
	W *shFirstAU8
}
type shEnumAU8 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   [2]uint8
	W   *[2]uint8
}

func shapesAU8(e int, which int) *shape {
	mk := func(n string) [2]uint8 { return [2]uint8{sym.U8(n), sym.U8(n + "'")} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastAU8{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstAU8{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrAU8{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptAU8{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptAU8{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedAU8{2, [][2]uint8{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][2]uint8{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][2]uint8{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][2]uint8{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInAU8{shLastAU8{p, a}, &shFirstAU8{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumAU8{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumAU8{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastAU8{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][2]uint8{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[2]uint8{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstAU8{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastAU16 struct {
	P uint8
	V [1]uint16
}
type shFirstAU16 struct {
	V [1]uint16
	P uint8
}
type shPtrAU16 struct {
	V *[1]uint16
	P uint8
}
type shOptAU16 struct {
	V *[1]uint16 `bin:"optional"`
	P uint8
}
type shCOptAU16 struct {
	V *[1]uint16 `bin:"coption"`
	P uint8
}
type shSizedAU16 struct {
	N uint16 `bin:"sizeof=V"`
	V [][1]uint16
	P uint8
}
type shInAU16 struct {
	V shLastAU16
	W *shFirstAU16
}
type shEnumAU16 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   [1]uint16
	W   *[1]uint16
}

func shapesAU16(e int, which int) *shape {
	mk := func(n string) [1]uint16 { return [1]uint16{sym.U16(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastAU16{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstAU16{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrAU16{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptAU16{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptAU16{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedAU16{2, [][1]uint16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][1]uint16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][1]uint16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][1]uint16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInAU16{shLastAU16{p, a}, &shFirstAU16{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumAU16{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumAU16{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastAU16{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][1]uint16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[1]uint16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstAU16{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastAU32 struct {
	P uint8
	V [1]uint32
}
type shFirstAU32 struct {
	V [1]uint32
	P uint8
}
type shPtrAU32 struct {
	V *[1]uint32
	P uint8
}
type shOptAU32 struct {
	V *[1]uint32 `bin:"optional"`
	P uint8
}
type shCOptAU32 struct {
	V *[1]uint32 `bin:"coption"`
	P uint8
}
type shSizedAU32 struct {
	N uint16 `bin:"sizeof=V"`
	V [][1]uint32
	P uint8
}
type shInAU32 struct {
	V shLastAU32
	W *shFirstAU32
}
type shEnumAU32 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   [1]uint32
	W   *[1]uint32
}

func shapesAU32(e int, which int) *shape {
	mk := func(n string) [1]uint32 { return [1]uint32{sym.U32(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastAU32{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstAU32{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrAU32{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptAU32{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptAU32{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedAU32{2, [][1]uint32{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][1]uint32{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][1]uint32{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][1]uint32{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInAU32{shLastAU32{p, a}, &shFirstAU32{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumAU32{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumAU32{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastAU32{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][1]uint32{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[1]uint32{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstAU32{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastAU64 struct {
	P uint8
	V [1]uint64
}
type shFirstAU64 struct {
	V [1]uint64
	P uint8
}
type shPtrAU64 struct {
	V *[1]uint64
	P uint8
}
type shOptAU64 struct {
	V *[1]uint64 `bin:"optional"`
	P uint8
}
type shCOptAU64 struct {
	V *[1]uint64 `bin:"coption"`
	P uint8
}
type shSizedAU64 struct {
	N uint16 `bin:"sizeof=V"`
	V [][1]uint64
	P uint8
}
type shInAU64 struct {
	V shLastAU64
	W *shFirstAU64
}
type shEnumAU64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   [1]uint64
	W   *[1]uint64
}

func shapesAU64(e int, which int) *shape {
	mk := func(n string) [1]uint64 { return [1]uint64{sym.U64(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastAU64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstAU64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrAU64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptAU64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptAU64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedAU64{2, [][1]uint64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][1]uint64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][1]uint64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][1]uint64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInAU64{shLastAU64{p, a}, &shFirstAU64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumAU64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumAU64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastAU64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][1]uint64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[1]uint64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstAU64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastAF64 struct {
	P uint8
	V [1]float64
}
type shFirstAF64 struct {
	V [1]float64
	P uint8
}
type shPtrAF64 struct {
	V *[1]float64
	P uint8
}
type shOptAF64 struct {
	V *[1]float64 `bin:"optional"`
	P uint8
}
type shCOptAF64 struct {
	V *[1]float64 `bin:"coption"`
	P uint8
}
type shSizedAF64 struct {
	N uint16 `bin:"sizeof=V"`
	V [][1]float64
	P uint8
}
type shInAF64 struct {
	V shLastAF64
	W *shFirstAF64
}
type shEnumAF64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   [1]float64
	W   *[1]float64
}

func shapesAF64(e int, which int) *shape {
	mk := func(n string) [1]float64 { return [1]float64{numF64(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastAF64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstAF64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrAF64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptAF64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptAF64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedAF64{2, [][1]float64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := [][1]float64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2][1]float64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8][1]float64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInAF64{shLastAF64{p, a}, &shFirstAF64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumAF64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumAF64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastAF64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][][1]float64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*[1]float64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstAF64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastMap struct {
	P uint8
	V map[uint8]uint16
}
type shFirstMap struct {
	V map[uint8]uint16
	P uint8
}
type shPtrMap struct {
	V *map[uint8]uint16
	P uint8
}
type shOptMap struct {
	V *map[uint8]uint16 `bin:"optional"`
	P uint8
}
type shCOptMap struct {
	V *map[uint8]uint16 `bin:"coption"`
	P uint8
}
type shSizedMap struct {
	N uint16 `bin:"sizeof=V"`
	V []map[uint8]uint16
	P uint8
}
type shInMap struct {
	V shLastMap
	W *shFirstMap
}
type shEnumMap struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   map[uint8]uint16
	W   *map[uint8]uint16
}

func shapesMap(e int, which int) *shape {
	mk := func(n string) map[uint8]uint16 { return map[uint8]uint16{7: sym.U16(n)} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastMap{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstMap{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrMap{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptMap{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptMap{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedMap{2, []map[uint8]uint16{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []map[uint8]uint16{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]map[uint8]uint16{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]map[uint8]uint16{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInMap{shLastMap{p, a}, &shFirstMap{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumMap{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumMap{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastMap{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]map[uint8]uint16{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*map[uint8]uint16{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstMap{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastSt struct {
	P uint8
	V shIn
}
type shFirstSt struct {
	V shIn
	P uint8
}
type shPtrSt struct {
	V *shIn
	P uint8
}
type shOptSt struct {
	V *shIn `bin:"optional"`
	P uint8
}
type shCOptSt struct {
	V *shIn `bin:"coption"`
	P uint8
}
type shSizedSt struct {
	N uint16 `bin:"sizeof=V"`
	V []shIn
	P uint8
}
type shInSt struct {
	V shLastSt
	W *shFirstSt
}
type shEnumSt struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   shIn
	W   *shIn
}

func shapesSt(e int, which int) *shape {
	mk := func(n string) shIn { return shIn{sym.U16(n), sym.U8(n + "'")} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastSt{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstSt{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrSt{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptSt{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptSt{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedSt{2, []shIn{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []shIn{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]shIn{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]shIn{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInSt{shLastSt{p, a}, &shFirstSt{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumSt{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumSt{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastSt{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]shIn{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*shIn{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstSt{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastU128 struct {
	P uint8
	V bin.Uint128
}
type shFirstU128 struct {
	V bin.Uint128
	P uint8
}
type shPtrU128 struct {
	V *bin.Uint128
	P uint8
}
type shOptU128 struct {
	V *bin.Uint128 `bin:"optional"`
	P uint8
}
type shCOptU128 struct {
	V *bin.Uint128 `bin:"coption"`
	P uint8
}
type shSizedU128 struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.Uint128
	P uint8
}
type shInU128 struct {
	V shLastU128
	W *shFirstU128
}
type shEnumU128 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.Uint128
	W   *bin.Uint128
}

func shapesU128(e int, which int) *shape {
	mk := func(n string) bin.Uint128 { return bin.Uint128{Lo: sym.U64(n), Hi: sym.U64(n + "'")} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastU128{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstU128{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrU128{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptU128{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptU128{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedU128{2, []bin.Uint128{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.Uint128{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.Uint128{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.Uint128{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInU128{shLastU128{p, a}, &shFirstU128{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumU128{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumU128{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastU128{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.Uint128{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.Uint128{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstU128{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastI128 struct {
	P uint8
	V bin.Int128
}
type shFirstI128 struct {
	V bin.Int128
	P uint8
}
type shPtrI128 struct {
	V *bin.Int128
	P uint8
}
type shOptI128 struct {
	V *bin.Int128 `bin:"optional"`
	P uint8
}
type shCOptI128 struct {
	V *bin.Int128 `bin:"coption"`
	P uint8
}
type shSizedI128 struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.Int128
	P uint8
}
type shInI128 struct {
	V shLastI128
	W *shFirstI128
}
type shEnumI128 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.Int128
	W   *bin.Int128
}

func shapesI128(e int, which int) *shape {
	mk := func(n string) bin.Int128 { return bin.Int128{Lo: sym.U64(n), Hi: sym.U64(n + "'")} }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastI128{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstI128{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrI128{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptI128{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptI128{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedI128{2, []bin.Int128{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.Int128{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.Int128{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.Int128{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInI128{shLastI128{p, a}, &shFirstI128{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumI128{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumI128{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastI128{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.Int128{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.Int128{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstI128{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastLBool struct {
	P uint8
	V bin.Bool
}
type shFirstLBool struct {
	V bin.Bool
	P uint8
}
type shPtrLBool struct {
	V *bin.Bool
	P uint8
}
type shOptLBool struct {
	V *bin.Bool `bin:"optional"`
	P uint8
}
type shCOptLBool struct {
	V *bin.Bool `bin:"coption"`
	P uint8
}
type shSizedLBool struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.Bool
	P uint8
}
type shInLBool struct {
	V shLastLBool
	W *shFirstLBool
}
type shEnumLBool struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.Bool
	W   *bin.Bool
}

func shapesLBool(e int, which int) *shape {
	mk := func(n string) bin.Bool { return bin.Bool(sym.Bool(n)) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastLBool{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstLBool{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrLBool{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptLBool{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptLBool{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedLBool{2, []bin.Bool{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.Bool{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.Bool{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.Bool{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInLBool{shLastLBool{p, a}, &shFirstLBool{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumLBool{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumLBool{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastLBool{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.Bool{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.Bool{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstLBool{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastLI64 struct {
	P uint8
	V bin.Int64
}
type shFirstLI64 struct {
	V bin.Int64
	P uint8
}
type shPtrLI64 struct {
	V *bin.Int64
	P uint8
}
type shOptLI64 struct {
	V *bin.Int64 `bin:"optional"`
	P uint8
}
type shCOptLI64 struct {
	V *bin.Int64 `bin:"coption"`
	P uint8
}
type shSizedLI64 struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.Int64
	P uint8
}
type shInLI64 struct {
	V shLastLI64
	W *shFirstLI64
}
type shEnumLI64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.Int64
	W   *bin.Int64
}

func shapesLI64(e int, which int) *shape {
	mk := func(n string) bin.Int64 { return bin.Int64(sym.I64(n)) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastLI64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstLI64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrLI64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptLI64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptLI64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedLI64{2, []bin.Int64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.Int64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.Int64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.Int64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInLI64{shLastLI64{p, a}, &shFirstLI64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumLI64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumLI64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastLI64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.Int64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.Int64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstLI64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastLU64 struct {
	P uint8
	V bin.Uint64
}
type shFirstLU64 struct {
	V bin.Uint64
	P uint8
}
type shPtrLU64 struct {
	V *bin.Uint64
	P uint8
}
type shOptLU64 struct {
	V *bin.Uint64 `bin:"optional"`
	P uint8
}
type shCOptLU64 struct {
	V *bin.Uint64 `bin:"coption"`
	P uint8
}
type shSizedLU64 struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.Uint64
	P uint8
}
type shInLU64 struct {
	V shLastLU64
	W *shFirstLU64
}
type shEnumLU64 struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.Uint64
	W   *bin.Uint64
}

func shapesLU64(e int, which int) *shape {
	mk := func(n string) bin.Uint64 { return bin.Uint64(sym.U64(n)) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastLU64{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstLU64{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrLU64{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptLU64{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptLU64{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedLU64{2, []bin.Uint64{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.Uint64{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.Uint64{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.Uint64{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInLU64{shLastLU64{p, a}, &shFirstLU64{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumLU64{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumLU64{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastLU64{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.Uint64{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.Uint64{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstLU64{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

type shLastHex struct {
	P uint8
	V bin.HexBytes
}
type shFirstHex struct {
	V bin.HexBytes
	P uint8
}
type shPtrHex struct {
	V *bin.HexBytes
	P uint8
}
type shOptHex struct {
	V *bin.HexBytes `bin:"optional"`
	P uint8
}
type shCOptHex struct {
	V *bin.HexBytes `bin:"coption"`
	P uint8
}
type shSizedHex struct {
	N uint16 `bin:"sizeof=V"`
	V []bin.HexBytes
	P uint8
}
type shInHex struct {
	V shLastHex
	W *shFirstHex
}
type shEnumHex struct {
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   bin.HexBytes
	W   *bin.HexBytes
}

func shapesHex(e int, which int) *shape {
	mk := func(n string) bin.HexBytes { return bin.HexBytes(sym.Bytes(n, 2)) }
	a := mk("a")
	switch which {
	case 0:
		return &shape{"alone", onAll, &a, []interface{}{a}}
	case 1:
		p := sym.U8("p")
		return &shape{"last field", onAll, &shLastHex{p, a}, []interface{}{p, a}}
	case 2:
		p := sym.U8("p")
		return &shape{"first field", onAll, &shFirstHex{a, p}, []interface{}{a, p}}
	case 3:
		p := sym.U8("p")
		return &shape{"pointer field", onAll, &shPtrHex{&a, p}, []interface{}{a, p}}
	case 4:
		p := sym.U8("p")
		return &shape{"present optional", onAll, &shOptHex{&a, p}, []interface{}{raw(refOpt(nil, e, true)), a, p}}
	case 5:
		p := sym.U8("p")
		return &shape{"present c-option", onBsh, &shCOptHex{&a, p}, []interface{}{raw{1, 0, 0, 0}, a, p}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{"sized slice", onAll, &shSizedHex{2, []bin.HexBytes{a, b}, p}, []interface{}{uint16(2), a, b, p}}
	case 7:
		b := mk("b")
		v := []bin.HexBytes{a, b}
		return &shape{"slice", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), a, b}}
	case 8:
		b := mk("b")
		return &shape{"array", onAll, &[2]bin.HexBytes{a, b}, []interface{}{a, b}}
	case 9:
		v := map[uint8]bin.HexBytes{3: a}
		return &shape{"map value", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{"nested", onAll, &shInHex{shLastHex{p, a}, &shFirstHex{b, q}}, []interface{}{p, a, b, q}}
	case 11:
		return &shape{"enum variant", onBsh, &shEnumHex{Tag: 1, V: a}, []interface{}{raw{1}, a}}
	case 12:
		return &shape{"enum pointer variant", onBsh, &shEnumHex{Tag: 2, W: &a}, []interface{}{raw{2}, a}}
	case 13:
		b := mk("b")
		v := []shLastHex{{1, a}, {2, b}}
		return &shape{"slice of structs", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}
	case 14:
		b := mk("b")
		v := [][]bin.HexBytes{{a}, {b}}
		return &shape{"slice of slices", onAll, &v, []interface{}{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}
	case 15:
		v := []*bin.HexBytes{&a}
		return &shape{"slice of pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), a}}
	case 16:
		v := map[uint8]*shFirstHex{3: {a, 9}}
		return &shape{"map of struct pointers", onAll, &v, []interface{}{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}
	}
	return nil
}

const nShapes = 18

var shapeKinds = []struct {
	name string
	mk   func(e, which int) *shape
}{
	{"bool", shapesBool},
	{"uint8", shapesU8},
	{"uint16", shapesU16},
	{"uint32", shapesU32},
	{"uint64", shapesU64},
	{"int8", shapesI8},
	{"int16", shapesI16},
	{"int32", shapesI32},
	{"int64", shapesI64},
	{"float32", shapesF32},
	{"float64", shapesF64},
	{"string", shapesStr},
	{"[]uint8", shapesSU8},
	{"[]uint16", shapesSU16},
	{"[]uint32", shapesSU32},
	{"[]uint64", shapesSU64},
	{"[]int16", shapesSI16},
	{"[]bool", shapesSBool},
	{"[]string", shapesSStr},
	{"[2]uint8", shapesAU8},
	{"[1]uint16", shapesAU16},
	{"[1]uint32", shapesAU32},
	{"[1]uint64", shapesAU64},
	{"[1]float64", shapesAF64},
	{"map[uint8]uint16", shapesMap},
	{"shIn", shapesSt},
	{"bin.Uint128", shapesU128},
	{"bin.Int128", shapesI128},
	{"bin.Bool", shapesLBool},
	{"bin.Int64", shapesLI64},
	{"bin.Uint64", shapesLU64},
	{"bin.HexBytes", shapesHex},
}
