# Generates harness/h/shapes.go: every element kind in every position (the module's language version has no generics).
K=[("Bool","bool","sym.Bool(n)",0),
("U8","uint8","sym.U8(n)",1),("U16","uint16","sym.U16(n)",1),("U32","uint32","sym.U32(n)",1),("U64","uint64","sym.U64(n)",1),
("I8","int8","sym.I8(n)",1),("I16","int16","sym.I16(n)",1),("I32","int32","sym.I32(n)",1),("I64","int64","sym.I64(n)",1),
("F32","float32","numF32(n)",0),("F64","float64","numF64(n)",0),
("Str","string","string(sym.Bytes(n, 2))",1),
("SU8","[]uint8","sym.Bytes(n, 2)",0),
("SU16","[]uint16","[]uint16{sym.U16(n)}",0),("SU32","[]uint32","[]uint32{sym.U32(n)}",0),("SU64","[]uint64","[]uint64{sym.U64(n)}",0),
("SI16","[]int16","[]int16{sym.I16(n)}",0),
("SBool","[]bool","[]bool{sym.Bool(n)}",0),
("SStr","[]string","[]string{string(sym.Bytes(n, 1))}",0),
("AU8","[2]uint8","[2]uint8{sym.U8(n), sym.U8(n+\"'\")}",0),
("AU16","[1]uint16","[1]uint16{sym.U16(n)}",0),("AU32","[1]uint32","[1]uint32{sym.U32(n)}",0),("AU64","[1]uint64","[1]uint64{sym.U64(n)}",0),
("AF64","[1]float64","[1]float64{numF64(n)}",0),
("Map","map[uint8]uint16","map[uint8]uint16{7: sym.U16(n)}",0),
("St","shIn","shIn{sym.U16(n), sym.U8(n+\"'\")}",0),
("U128","bin.Uint128","bin.Uint128{Lo: sym.U64(n), Hi: sym.U64(n+\"'\")}",0),
("I128","bin.Int128","bin.Int128{Lo: sym.U64(n), Hi: sym.U64(n+\"'\")}",0),
("LBool","bin.Bool","bin.Bool(sym.Bool(n))",0),
("LI64","bin.Int64","bin.Int64(sym.I64(n))",0),
("LU64","bin.Uint64","bin.Uint64(sym.U64(n))",0),
("Hex","bin.HexBytes","bin.HexBytes(sym.Bytes(n, 2))",0),
]
o=['''// Code generated by tools/genshapes.py. DO NOT EDIT.

package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// raw bytes between the parts of a shape
type raw []byte

type shape struct {
	name  string
	encs  int
	v     interface{}
	parts []interface{}
}

type shIn struct {
	A uint16
	B uint8
}

func numF32(n string) float32 {
	f := sym.F32(n)
	sym.Assume(f == f)
	return f
}

func numF64(n string) float64 {
	f := sym.F64(n)
	sym.Assume(f == f)
	return f
}
''']
names=[]
for n,t,mk,key in K:
    o.append(f'''
type shLast{n} struct {{
	P uint8
	V {t}
}}
type shFirst{n} struct {{
	V {t}
	P uint8
}}
type shPtr{n} struct {{
	V *{t}
	P uint8
}}
type shOpt{n} struct {{
	V *{t} `bin:"optional"`
	P uint8
}}
type shCOpt{n} struct {{
	V *{t} `bin:"coption"`
	P uint8
}}
type shSized{n} struct {{
	N uint16 `bin:"sizeof=V"`
	V []{t}
	P uint8
}}
type shIn{n} struct {{
	V shLast{n}
	W *shFirst{n}
}}
type shEnum{n} struct {{
	Tag bin.BorshEnum `borsh_enum:"true"`
	P   uint8
	V   {t}
	W   *{t}
}}

func shapes{n}(e int, which int) *shape {{
	mk := func(n string) {t} {{ return {mk} }}
	a := mk("a")
	switch which {{
	case 0:
		return &shape{{"alone", onAll, &a, []interface{{}}{{a}}}}
	case 1:
		p := sym.U8("p")
		return &shape{{"last field", onAll, &shLast{n}{{p, a}}, []interface{{}}{{p, a}}}}
	case 2:
		p := sym.U8("p")
		return &shape{{"first field", onAll, &shFirst{n}{{a, p}}, []interface{{}}{{a, p}}}}
	case 3:
		p := sym.U8("p")
		return &shape{{"pointer field", onAll, &shPtr{n}{{&a, p}}, []interface{{}}{{a, p}}}}
	case 4:
		p := sym.U8("p")
		return &shape{{"present optional", onAll, &shOpt{n}{{&a, p}}, []interface{{}}{{raw(refOpt(nil, e, true)), a, p}}}}
	case 5:
		p := sym.U8("p")
		return &shape{{"present c-option", onBsh, &shCOpt{n}{{&a, p}}, []interface{{}}{{raw{{1, 0, 0, 0}}, a, p}}}}
	case 6:
		p := sym.U8("p")
		b := mk("b")
		return &shape{{"sized slice", onAll, &shSized{n}{{2, []{t}{{a, b}}, p}}, []interface{{}}{{uint16(2), a, b, p}}}}
	case 7:
		b := mk("b")
		v := []{t}{{a, b}}
		return &shape{{"slice", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 2)), a, b}}}}
	case 8:
		b := mk("b")
		return &shape{{"array", onAll, &[2]{t}{{a, b}}, []interface{{}}{{a, b}}}}
	case 9:
		v := map[uint8]{t}{{3: a}}
		return &shape{{"map value", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 1)), uint8(3), a}}}}
	case 10:
		p, q := sym.U8("p"), sym.U8("q")
		b := mk("b")
		return &shape{{"nested", onAll, &shIn{n}{{shLast{n}{{p, a}}, &shFirst{n}{{b, q}}}}, []interface{{}}{{p, a, b, q}}}}
	case 11:
		return &shape{{"enum variant", onBsh, &shEnum{n}{{Tag: 1, V: a}}, []interface{{}}{{raw{{1}}, a}}}}
	case 12:
		return &shape{{"enum pointer variant", onBsh, &shEnum{n}{{Tag: 2, W: &a}}, []interface{{}}{{raw{{2}}, a}}}}
	case 13:
		b := mk("b")
		v := []shLast{n}{{{{1, a}}, {{2, b}}}}
		return &shape{{"slice of structs", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 2)), uint8(1), a, uint8(2), b}}}}
	case 14:
		b := mk("b")
		v := [][]{t}{{{{a}}, {{b}}}}
		return &shape{{"slice of slices", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 2)), raw(refLen(nil, e, 1)), a, raw(refLen(nil, e, 1)), b}}}}
	case 15:
		v := []*{t}{{&a}}
		return &shape{{"slice of pointers", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 1)), a}}}}
	case 16:
		v := map[uint8]*shFirst{n}{{3: {{a, 9}}}}
		return &shape{{"map of struct pointers", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 1)), uint8(3), a, uint8(9)}}}}
''')
    if key:
        o.append(f'''	case 17:
		v := map[{t}]uint8{{a: 5}}
		return &shape{{"map key", onAll, &v, []interface{{}}{{raw(refLen(nil, e, 1)), a, uint8(5)}}}}
''')
    o.append('''	}
	return nil
}
''')
    names.append(n)
o.append("\nconst nShapes = 18\n\nvar shapeKinds = []struct {\n\tname string\n\tmk   func(e, which int) *shape\n}{\n")
for n,t,_,_ in K: o.append('\t{"%s", shapes%s},\n'%(t,n))
o.append("}\n")
open('/verif/harness/h/shapes.go','w').write(''.join(o))
import subprocess; subprocess.run(['gofmt','-w','/verif/harness/h/shapes.go'],check=True)
