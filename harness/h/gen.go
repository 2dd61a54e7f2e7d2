package h

import (
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// Types made on the fly: every way of nesting the constructors below, to a given depth,
// with a filler that draws the value and writes the bytes the format prescribes for it.
type gnode struct {
	name string
	t    reflect.Type
	fill func(b *B, v reflect.Value)
}

// gMark is a type with its own bytes: its value twice, the second time inverted.
type gMark struct{ V uint8 }

func (m gMark) MarshalWithEncoder(e *bin.Encoder) error {
	return e.WriteBytes([]byte{m.V, ^m.V}, false)
}

func (m *gMark) UnmarshalWithDecoder(d *bin.Decoder) error {
	p, err := d.ReadNBytes(2)
	if err != nil {
		return err
	}
	m.V = p[0]
	return nil
}

// gList is a list with its own bytes: one byte for the length, then the elements reversed.
type gList []uint8

func (m gList) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteByte(byte(len(m))); err != nil {
		return err
	}
	for i := len(m) - 1; i >= 0; i-- {
		if err := e.WriteByte(m[i]); err != nil {
			return err
		}
	}
	return nil
}

func (m *gList) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := d.ReadByte()
	if err != nil {
		return err
	}
	var out gList
	for i := 0; i < int(n); i++ {
		x, err := d.ReadByte()
		if err != nil {
			return err
		}
		out = append(gList{x}, out...)
	}
	*m = out
	return nil
}

type gPair struct {
	A uint8
	B uint32
}

func leafOf(name string, zero interface{}, f func(b *B) interface{}) gnode {
	t := reflect.TypeOf(zero)
	return gnode{name, t, func(b *B, v reflect.Value) { v.Set(reflect.ValueOf(f(b)).Convert(t)) }}
}

const (
	gU16 = iota
	gStr
	gBytes
	gU8
	gBool
	gF64
	gU128
	gMarkLeaf
	gListLeaf
	gArr
	gU64s
	gPairLeaf
	gNamed
	gI32
	gI16s
	gStrs
	nLeaves
)

func leaf(k int) gnode {
	switch k {
	case gU16:
		return leafOf("uint16", uint16(0), func(b *B) interface{} { return b.u16(false) })
	case gStr:
		return leafOf("string", "", func(b *B) interface{} { return b.str(2) })
	case gBytes:
		return leafOf("[]byte", []byte(nil), func(b *B) interface{} { return b.bytes(2) })
	case gU8:
		return leafOf("uint8", uint8(0), func(b *B) interface{} { return b.u8() })
	case gBool:
		return leafOf("bool", false, func(b *B) interface{} { return b.boolean() })
	case gF64:
		return leafOf("float64", float64(0), func(b *B) interface{} { return b.f64(false) })
	case gU128:
		return leafOf("Uint128", bin.Uint128{}, func(b *B) interface{} { return b.u128(false) })
	case gMarkLeaf:
		return leafOf("marshaler", gMark{}, func(b *B) interface{} {
			x := sym.U8("mark")
			b.out = append(b.out, x, ^x)
			return gMark{x}
		})
	case gListLeaf:
		return leafOf("list marshaler", gList(nil), func(b *B) interface{} {
			p := sym.Bytes("list", 2)
			b.out = append(b.out, 2, p[1], p[0])
			return gList(p)
		})
	case gArr:
		return leafOf("[2]byte", [2]byte{}, func(b *B) interface{} {
			p := b.arr(2)
			return [2]byte{p[0], p[1]}
		})
	case gU64s:
		return leafOf("[]uint64", []uint64(nil), func(b *B) interface{} {
			b.length(2)
			return []uint64{b.u64(false), b.u64(false)}
		})
	case gPairLeaf:
		return leafOf("struct", gPair{}, func(b *B) interface{} {
			var p gPair
			p.A = b.u8()
			p.B = b.u32(false)
			return p
		})
	case gNamed:
		return leafOf("named int64", nI64(0), func(b *B) interface{} { return b.i64(false) })
	case gI32:
		return leafOf("int32", int32(0), func(b *B) interface{} { return b.i32(false) })
	case gI16s:
		return leafOf("[2]int16", [2]int16{}, func(b *B) interface{} { return [2]int16{b.i16(false), b.i16(false)} })
	}
	return leafOf("[]string", []string(nil), func(b *B) interface{} {
		b.length(2)
		return []string{b.str(1), b.str(0)}
	})
}

func field(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

var (
	tU8        = reflect.TypeOf(uint8(0))
	tU16       = reflect.TypeOf(uint16(0))
	tStr       = reflect.TypeOf("")
	tBorshEnum = reflect.TypeOf(bin.BorshEnum(0))
)

func setU8(b *B, v reflect.Value)    { v.SetUint(uint64(b.u8())) }
func setU16BE(b *B, v reflect.Value) { v.SetUint(uint64(b.u16(true))) }

// newFilled is a pointer to a filled x.
func newFilled(b *B, x gnode) reflect.Value {
	p := reflect.New(x.t)
	x.fill(b, p.Elem())
	return p
}

const (
	gPlain = iota
	gField
	gOpt
	gAbsent
	gSlice
	gArray
	gMap
	gSized
	gSkip
	gPtrSlice
	gStrMap
	gPtr
	gExt
	gEmpty
	gCOpt
	gEnum
	gOptSlice
	nCtors
)

// ctor wraps x; ok is false where the combination has no meaning.
func ctor(k, e int, x gnode) (y gnode, ok bool) {
	switch k {
	case gPlain:
		t := reflect.StructOf([]reflect.StructField{field("P", tU8, ""), field("V", x.t, ""), field("Q", tU16, `bin:"big"`)})
		return gnode{"struct{" + x.name + "}", t, func(b *B, v reflect.Value) {
			setU8(b, v.Field(0))
			x.fill(b, v.Field(1))
			setU16BE(b, v.Field(2))
		}}, true
	case gField:
		t := reflect.StructOf([]reflect.StructField{field("V", reflect.PtrTo(x.t), ""), field("P", tU16, "")})
		return gnode{"struct{*" + x.name + "}", t, func(b *B, v reflect.Value) {
			v.Field(0).Set(newFilled(b, x))
			v.Field(1).SetUint(uint64(b.u16(false)))
		}}, true
	case gOpt:
		t := reflect.StructOf([]reflect.StructField{field("V", reflect.PtrTo(x.t), `bin:"optional"`), field("P", tU8, "")})
		return gnode{"opt{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.opt(true)
			v.Field(0).Set(newFilled(b, x))
			setU8(b, v.Field(1))
		}}, true
	case gAbsent:
		if x.t.Kind() == reflect.Ptr {
			return y, false
		}
		t := reflect.StructOf([]reflect.StructField{field("V", reflect.PtrTo(x.t), `bin:"optional"`), field("P", x.t, "")})
		return gnode{"absent{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.opt(false)
			x.fill(b, v.Field(1))
		}}, true
	case gSlice:
		return gnode{"[]" + x.name, reflect.SliceOf(x.t), func(b *B, v reflect.Value) {
			b.length(2)
			s := reflect.MakeSlice(v.Type(), 2, 2)
			x.fill(b, s.Index(0))
			x.fill(b, s.Index(1))
			v.Set(s)
		}}, true
	case gArray:
		return gnode{"[2]" + x.name, reflect.ArrayOf(2, x.t), func(b *B, v reflect.Value) {
			x.fill(b, v.Index(0))
			x.fill(b, v.Index(1))
		}}, true
	case gMap:
		return gnode{"map[uint16]" + x.name, reflect.MapOf(tU16, x.t), func(b *B, v reflect.Value) {
			m := reflect.MakeMap(v.Type())
			if b.many {
				b.length(2)
				b.out = append(b.out, 3, 0)
				m.SetMapIndex(reflect.ValueOf(uint16(3)), newFilled(b, x).Elem())
				b.out = append(b.out, 2, 1)
				m.SetMapIndex(reflect.ValueOf(uint16(0x102)), newFilled(b, x).Elem())
				b.free = b.free || b.e != eBorsh
				v.Set(m)
				return
			}
			b.length(1)
			key := b.u16(false)
			m.SetMapIndex(reflect.ValueOf(key), newFilled(b, x).Elem())
			v.Set(m)
		}}, true
	case gSized:
		t := reflect.StructOf([]reflect.StructField{field("N", tU8, `bin:"sizeof=V"`), field("V", reflect.SliceOf(x.t), ""), field("P", tU8, "")})
		return gnode{"sized{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.out = append(b.out, 2)
			v.Field(0).SetUint(2)
			s := reflect.MakeSlice(v.Field(1).Type(), 2, 2)
			x.fill(b, s.Index(0))
			x.fill(b, s.Index(1))
			v.Field(1).Set(s)
			setU8(b, v.Field(2))
		}}, true
	case gSkip:
		t := reflect.StructOf([]reflect.StructField{field("S", x.t, `bin:"-"`), field("V", x.t, ""), field("T", reflect.PtrTo(x.t), `bin:"-"`)})
		return gnode{"skip{" + x.name + "}", t, func(b *B, v reflect.Value) { x.fill(b, v.Field(1)) }}, true
	case gPtrSlice:
		return gnode{"[]*" + x.name, reflect.SliceOf(reflect.PtrTo(x.t)), func(b *B, v reflect.Value) {
			b.length(2)
			s := reflect.MakeSlice(v.Type(), 2, 2)
			s.Index(0).Set(newFilled(b, x))
			s.Index(1).Set(newFilled(b, x))
			v.Set(s)
		}}, true
	case gStrMap:
		return gnode{"map[string]" + x.name, reflect.MapOf(tStr, x.t), func(b *B, v reflect.Value) {
			m := reflect.MakeMap(v.Type())
			keys := []string{"k", "ka"}
			if b.e != eBorsh && !b.many {
				keys = keys[1:]
			}
			b.free = b.free || b.many && b.e != eBorsh
			b.length(len(keys))
			for _, k := range keys {
				b.out = append(refStrLen(b.out, b.e, len(k)), k...)
				m.SetMapIndex(reflect.ValueOf(k), newFilled(b, x).Elem())
			}
			v.Set(m)
		}}, true
	case gPtr:
		return gnode{"*" + x.name, reflect.PtrTo(x.t), func(b *B, v reflect.Value) { v.Set(newFilled(b, x)) }}, true
	case gExt:
		t := reflect.StructOf([]reflect.StructField{field("P", tU8, ""), field("V", x.t, `bin:"binary_extension"`)})
		return gnode{"ext{" + x.name + "}", t, func(b *B, v reflect.Value) {
			setU8(b, v.Field(0))
			x.fill(b, v.Field(1))
		}}, true
	case gEmpty:
		t := reflect.StructOf([]reflect.StructField{field("V", reflect.SliceOf(x.t), ""), field("M", reflect.MapOf(tU8, x.t), ""), field("P", x.t, "")})
		return gnode{"empty{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.length(0)
			b.length(0)
			x.fill(b, v.Field(2))
		}}, true
	case gCOpt:
		if e != eBorsh {
			return y, false
		}
		t := reflect.StructOf([]reflect.StructField{field("U", reflect.PtrTo(tU8), `bin:"coption"`), field("V", reflect.PtrTo(x.t), `bin:"coption"`), field("P", x.t, "")})
		return gnode{"c-option{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.out = append(b.out, 0, 0, 0, 0, 1, 0, 0, 0)
			v.Field(1).Set(newFilled(b, x))
			x.fill(b, v.Field(2))
		}}, true
	case gEnum:
		if e != eBorsh {
			return y, false
		}
		t := reflect.StructOf([]reflect.StructField{field("Tag", tBorshEnum, `borsh_enum:"true"`), field("A", tU8, ""), field("V", x.t, ""), field("W", reflect.PtrTo(x.t), "")})
		return gnode{"enum{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.out = append(b.out, 1)
			v.Field(0).SetUint(1)
			x.fill(b, v.Field(2))
		}}, true
	case gOptSlice:
		t := reflect.StructOf([]reflect.StructField{field("V", reflect.SliceOf(x.t), `bin:"optional"`), field("M", reflect.MapOf(tU8, x.t), `bin:"optional"`), field("P", tU16, "")})
		return gnode{"opt[]{" + x.name + "}", t, func(b *B, v reflect.Value) {
			b.opt(true)
			b.length(1)
			s := reflect.MakeSlice(v.Field(0).Type(), 1, 1)
			x.fill(b, s.Index(0))
			v.Field(0).Set(s)
			b.opt(false)
			v.Field(2).SetUint(uint64(b.u16(false)))
		}}, true
	}
	panic("no such constructor")
}

// genOf nests constructors around one of the leaves: at each level one of the given ones (nil: any).
func genOf(b *B, leaves []gnode, levels ...[]int) (name string, v, fresh interface{}) {
	x := leaves[sym.Choose("leaf", len(leaves))]
	ok := true
	for _, l := range levels {
		k := 0
		if l == nil {
			k = sym.Choose("ctor", nCtors)
		} else {
			k = l[sym.Choose("ctor", len(l))]
		}
		if x, ok = ctor(k, b.e, x); !ok {
			return "", nil, nil
		}
	}
	p := reflect.New(x.t)
	x.fill(b, p.Elem())
	return x.name, p.Interface(), reflect.New(x.t).Interface()
}

func leaves(ks ...int) []gnode {
	var out []gnode
	for _, k := range ks {
		out = append(out, leaf(k))
	}
	return out
}

func allLeaves() []gnode {
	var out []gnode
	for k := 0; k < nLeaves; k++ {
		out = append(out, leaf(k))
	}
	return out
}

// nested: two levels around every leaf, three around a few (thorough: around all, and four around one), or two
// constructors side by side in one struct.
func nested(b *B) (name string, v, fresh interface{}) {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	switch sym.Choose("form", n) {
	case 0:
		return genOf(b, allLeaves(), nil, nil)
	case 1:
		return siblings(b, leaves(gU16, gBytes, gListLeaf))
	case 2:
		if sym.Tier() > 0 {
			return genOf(b, allLeaves(), nil, nil, nil)
		}
		return genOf(b, leaves(gU16, gBytes), nil, nil, nil)
	}
	return genOf(b, leaves(gU16), nil, nil, nil, nil)
}

// siblings: two types of one constructor each, the fields of one struct.
func siblings(b *B, leaves []gnode) (name string, v, fresh interface{}) {
	x, ok := ctor(sym.Choose("ctor", nCtors), b.e, leaves[sym.Choose("leaf", len(leaves))])
	if !ok {
		return "", nil, nil
	}
	y, ok := ctor(sym.Choose("ctor", nCtors), b.e, leaves[sym.Choose("leaf", len(leaves))])
	if !ok {
		return "", nil, nil
	}
	t := reflect.StructOf([]reflect.StructField{field("X", x.t, ""), field("Y", y.t, "")})
	p := reflect.New(t)
	x.fill(b, p.Elem().Field(0))
	y.fill(b, p.Elem().Field(1))
	return x.name + " beside " + y.name, p.Interface(), reflect.New(t).Interface()
}

// nestedFew: two levels around a few leaves, in the thorough tier around all.
func nestedFew(b *B) (name string, v, fresh interface{}) {
	if sym.Tier() > 0 {
		return genOf(b, allLeaves(), nil, nil)
	}
	return genOf(b, leaves(gU16, gBytes, gMarkLeaf), nil, nil)
}

func genRoundTrip(e int) {
	b := &B{e: e, many: true}
	name, v, fresh := nested(b)
	if v == nil {
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, name+": encodes")
	d := newDec(e, out)
	sym.Assert(d.Decode(fresh) == nil, name+": decodes")
	sym.Assert(sym.Eq(v, fresh), name+": decodes to the same value")
	sym.Assert(d.Remaining() == 0, name+": every byte consumed")
	if !b.free {
		sym.Observe("bytes", out)
	}
	sym.Reach("nested")
}

// Round trip of every nesting of the constructors.
func C03_anywhere() { genRoundTrip(eBorsh) }
func C04_anywhere() { genRoundTrip(eBin) }
func C05_anywhere() { genRoundTrip(eCompact) }

func genLayout(b *B, name string, v, fresh interface{}) {
	if v == nil {
		return
	}
	out, err := marshal(b.e, v)
	sym.Assert(err == nil, name+": encodes")
	sym.Assert(len(out) == len(b.out) && (b.free || sym.BytesEq(out, b.out)), name+": bytes are exactly the specified layout")
	d := newDec(b.e, b.out)
	sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 0, name+": specified bytes decode")
	sym.Assert(sym.Eq(v, fresh), name+": specified bytes decode to the value")
	if !b.free {
		sym.Observe("bytes", out)
	}
	sym.Reach("nested")
}

func genLayoutOf(e int) {
	b := &B{e: e}
	name, v, fresh := nested(b)
	genLayout(b, name, v, fresh)
}

// The layout of every nesting of the constructors.
func C06_anywhere() { genLayoutOf(eBorsh) }
func C07_anywhere() { genLayoutOf([]int{eBin, eCompact}[sym.Choose("encoding", 2)]) }
func C34_anywhere() {
	b := &B{e: chooseEnc(), many: sym.Choose("entries", 2) == 1}
	name, v, fresh := nested(b)
	genLayout(b, name, v, fresh)
}

// Optional, enum and tagged fields, and types with their own methods, between any two constructors.
func genVia(leaves []gnode, via ...int) {
	b := &B{e: chooseEnc()}
	name, v, fresh := genOf(b, leaves, nil, via, nil)
	genLayout(b, name, v, fresh)
}

func C14_anywhere() { genVia(leaves(gU16, gStr, gListLeaf), gOpt, gAbsent, gCOpt, gOptSlice) }
func C15_anywhere() { genVia(leaves(gU16, gStr, gListLeaf, gBool), gEnum) }
func C18_anywhere() { genVia(leaves(gU16, gStr, gListLeaf), gSized, gSkip, gExt) }
func C30_anywhere() { genVia(leaves(gMarkLeaf, gListLeaf, gU128), nilCtors...) }

var nilCtors = []int{gPlain, gOpt, gAbsent, gSlice, gArray, gMap, gSized, gPtrSlice, gPtr, gEnum}

// Every proper prefix of every nesting is refused; extra bytes stay unread.
func C10_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, fresh := nestedFew(b)
	if v == nil {
		return
	}
	for cut := 0; cut < len(b.out); cut++ {
		if !hasExt(reflect.TypeOf(v)) {
			sym.Assert(newDec(b.e, b.out[:cut]).Decode(freshLike(v)) != nil, name+": a truncated encoding is refused")
		}
	}
	d := newDec(b.e, append(append([]byte{}, b.out...), sym.Bytes("tail", 3)...))
	sym.Assert(d.Decode(fresh) == nil && sym.Eq(v, fresh) && d.Remaining() == 3, name+": extra bytes change nothing and stay unread")
	sym.Reach("nested")
}

func hasExt(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return hasExt(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag == `bin:"binary_extension"` || hasExt(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// Counts, the written counter and what reaches the writer, for every nesting.
func C19_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, _ := nested(b)
	if v == nil {
		return
	}
	n, err := byteCount(b.e, v)
	sym.Assert(err == nil && n == uint64(len(b.out)), name+": byte count")
	w := &failWriter{k: -1}
	enc := newEnc(b.e, w)
	sym.Assert(enc.Encode(v) == nil && enc.Written() == len(b.out), name+": written counter")
	sym.Assert(sym.BytesEq(w.buf.Bytes(), b.out), name+": what reaches the writer")
	sym.Reach("nested")
}

// A failure at every write of every nesting.
func C20_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, _ := nestedFew(b)
	if v == nil {
		return
	}
	ok := &failWriter{k: -1}
	sym.Assert(newEnc(b.e, ok).Encode(v) == nil && ok.buf.Len() == len(b.out), name+": no failure, no error")
	once := sym.Choose("once", 2) == 1
	for k := 0; k < ok.calls; k++ {
		w := &failWriter{k: k, part: k % 3, once: once}
		sym.Assert(newEnc(b.e, w).Encode(v) != nil, name+": a failed write is reported")
		got := w.buf.Bytes()
		sym.Assert(len(got) <= len(b.out) && sym.BytesEq(got, b.out[:len(got)]), name+": accepted bytes are a prefix of the encoding")
	}
	sym.Reach("nested")
}

// Every nesting over a used target, by a used decoder.
func C25_anywhere() {
	b := &B{e: chooseEnc(), many: true}
	name, v, fresh := nestedFew(b)
	if v == nil {
		return
	}
	in := append([]byte{}, b.out...)
	d := newDec(b.e, in)
	target := dirtyOf(fresh)
	sym.Assert(d.Decode(target) == nil && d.Remaining() == 0, name+": decodes into a used variable")
	again, err := marshal(b.e, target)
	sym.Assert(err == nil && len(again) == len(b.out) && (b.free || sym.BytesEq(again, b.out)), name+": what the target held before does not show")
	if len(in) > 1 {
		d.Reset(in[:len(in)-1])
		_ = d.Decode(freshLike(v))
	}
	d.Reset(in)
	fresh = freshLike(v)
	sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 0 && sym.Eq(v, fresh), name+": same value after a failure and Reset")
	sym.Assert(sym.BytesEq(in, b.out), name+": the input buffer is not modified")
	sym.Reach("nested")
}

// Every nesting encoded by value, through a pointer, twice, after a failure.
func C26_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, _ := nestedFew(b)
	if v == nil {
		return
	}
	_ = newEnc(b.e, &failWriter{k: 1, part: 1}).Encode(v)
	one, err := marshal(b.e, v)
	sym.Assert(err == nil && sym.BytesEq(one, b.out), name+": after a failure")
	two, err := marshal(b.e, reflect.ValueOf(v).Elem().Interface())
	sym.Assert(err == nil && sym.BytesEq(two, b.out), name+": by value")
	three, err := marshal(b.e, v)
	sym.Assert(err == nil && sym.BytesEq(three, b.out) && sym.BytesEq(one, b.out), name+": again")
	sym.Reach("nested")
}

// Every nesting with one byte of its encoding arbitrary.
func C08_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, fresh := genOf(b, leaves(gU16), nil, nil)
	if v == nil {
		return
	}
	in := append([]byte{}, b.out...)
	in[sym.Choose("at", len(in))] = sym.U8("byte")
	d := newDec(b.e, in)
	sym.WithSteps(2000000, func() { _ = d.Decode(fresh) })
	sym.Assert(d.Position() <= uint(len(in)), name+": cursor in bounds")
	sym.Reach("nested")
}

// Every container inside every constructor, with any one byte of its encoding arbitrary, under the allocation limit.
func C11_anywhere() {
	b := &B{e: chooseEnc()}
	_, v, fresh := genOf(b, leaves(gU16), []int{gSlice, gPtrSlice, gMap, gStrMap, gSized, gOptSlice, gEmpty}, nil)
	if v == nil {
		return
	}
	in := append([]byte{}, b.out...)
	in[sym.Choose("at", len(in))] = sym.U8("byte")
	d := newDec(b.e, in)
	sym.WithAlloc(alLimit, func() { _ = d.Decode(fresh) })
	sym.Reach("nested")
}

// Maps of three entries inside any two constructors, iterated in any order.
func C16_anywhere() {
	b := &B{e: eBorsh}
	ints := leafOf("map[int16]uint8", map[int16]uint8(nil), func(b *B) interface{} {
		b.length(3)
		m := map[int16]uint8{}
		for _, k := range []int16{-2, 5, 300} {
			b.out = le(b.out, uint64(uint16(k)), 2)
			m[k] = b.u8()
		}
		return m
	})
	strs := leafOf("map[nStr]uint8", map[nStr]uint8(nil), func(b *B) interface{} {
		keys := []nStr{"", "B", "a"}
		b.length(len(keys))
		m := map[nStr]uint8{}
		for _, k := range keys {
			b.out = append(le(b.out, uint64(len(k)), 4), k...)
			m[k] = b.u8()
		}
		return m
	})
	one := []int{gPlain, gOpt, gSlice, gMap, gSized, gPtr, gEnum, gAbsent}
	var name string
	var v, fresh interface{}
	if sym.Choose("depth", 2) == 0 {
		name, v, fresh = genOf(b, []gnode{ints, strs}, nil)
	} else {
		name, v, fresh = genOf(b, []gnode{ints, strs}, []int{gPlain, gField, gOpt, gMap, gPtr, gEnum, gExt, gCOpt}, one)
	}
	if v == nil {
		return
	}
	if len(b.out) < 40 {
		sym.MapOrder(true)
	}
	out, err := marshal(b.e, v)
	sym.MapOrder(false)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), name+": entries in ascending key order")
	sym.Assert(unmarshal(b.e, fresh, b.out) == nil && sym.Eq(v, fresh), name+": the same map")
	sym.Reach("nested")
}

// Every nesting with tracing on.
func C27_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, fresh := nestedFew(b)
	if v == nil {
		return
	}
	sym.SetTrace(true)
	out, err := marshal(b.e, v)
	derr := unmarshal(b.e, fresh, b.out)
	var cut error
	if len(b.out) > 1 {
		cut = unmarshal(b.e, freshLike(v), b.out[:len(b.out)-1])
	}
	sym.SetTrace(false)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), name+": same bytes")
	sym.Assert(derr == nil && sym.Eq(v, fresh), name+": same value")
	if len(b.out) > 1 {
		sym.Assert((cut != nil) == (unmarshal(b.e, freshLike(v), b.out[:len(b.out)-1]) != nil), name+": same outcome on a cut input")
	}
	sym.Reach("nested")
}

// Two encodes, two decodes or one of each of every nesting, at the same time.
func C35_anywhere() {
	b := &B{e: chooseEnc()}
	name, v, fresh := genOf(b, leaves(gU16, gBytes, gMarkLeaf), nil, nil)
	if v == nil {
		return
	}
	f := &parOp{e: b.e, b: b, v: v, got: fresh, nm: name}
	g := &parOp{e: b.e, b: b, v: v, got: freshLike(v), nm: name}
	switch sym.Choose("ops", 3) {
	case 1:
		f.dec = true
	case 2:
		f.dec, g.dec = true, true
	}
	sym.Par(f.run, g.run, func() { f.check(); g.check() })
	sym.Reach("nested")
}

// Kinds without an encoding inside every nesting.
func C33_anywhere() {
	b := &B{e: chooseEnc()}
	bad := func(zero interface{}) gnode {
		return gnode{"unsupported", reflect.TypeOf(zero), func(b *B, v reflect.Value) {}}
	}
	name, v, fresh := genOf(b, []gnode{bad(int(0)), bad(uint(0)), bad(uintptr(0)), bad(complex64(0)), bad(complex128(0)), bad((chan int)(nil)), bad((func())(nil)), bad(uNamed(0))}, nil, nil)
	if v == nil {
		return
	}
	_, err := marshal(b.e, v)
	sym.Assert(err != nil, name+": refused by Marshal")
	_, err = byteCount(b.e, v)
	sym.Assert(err != nil, name+": refused by the byte count")
	sym.Assert(newDec(b.e, append(b.out, sym.Bytes("tail", 16)...)).Decode(fresh) != nil, name+": refused by Decode")
	sym.Reach("nested")
}

// Any float inside every nesting.
func C17_anywhere() {
	b := &B{e: chooseEnc()}
	nan := false
	l32 := leafOf("float32", float32(0), func(b *B) interface{} {
		u := sym.U32("f32")
		nan = sym.Or(nan, sym.And(u&0x7f800000 == 0x7f800000, u&0x007fffff != 0))
		b.out = le(b.out, uint64(u), 4)
		return math.Float32frombits(u)
	})
	l64 := leafOf("float64", float64(0), func(b *B) interface{} {
		u := sym.U64("f64")
		nan = sym.Or(nan, sym.And(u&0x7ff0000000000000 == 0x7ff0000000000000, u&0x000fffffffffffff != 0))
		b.out = le(b.out, u, 8)
		return math.Float64frombits(u)
	})
	name, v, fresh := genOf(b, []gnode{l32, l64}, nil, nil)
	if v == nil {
		return
	}
	out, err := marshal(b.e, v)
	sym.Assert(sym.Iff(err != nil, sym.And(b.e == eBorsh, nan)), name+": refused exactly where a NaN goes to Borsh")
	err = newDec(b.e, b.out).Decode(fresh)
	sym.Assert(sym.Iff(err != nil, sym.And(b.e == eBorsh, nan)), name+": refused exactly where a NaN comes from Borsh")
	sym.Assert(sym.Or(nan, sym.And(sym.BytesEq(out, b.out), sym.Eq(v, fresh))), name+": otherwise bit for bit")
	sym.Reach("nested")
}
