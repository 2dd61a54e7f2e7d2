package h

import (
	"reflect"

	"github.com/gagliardetto/binary/zz_verif/sym"
)

// What a struct tag asks for.
var tagKinds = []struct {
	tag       string
	big, skip bool
	opt, copt bool
}{
	{tag: ``},
	{tag: `bin:"big"`, big: true},
	{tag: `bin:"little"`},
	{tag: `bin:"optional"`, opt: true},
	{tag: `bin:"option"`, opt: true},
	{tag: `bin:"coption"`, copt: true},
	{tag: `bin:"big optional"`, big: true, opt: true},
	{tag: `bin:"optional big" json:"x"`, big: true, opt: true},
	{tag: `bin:"-"`, skip: true},
	{tag: `bin:"skip"`, skip: true},
	{tag: `bin:"big" borsh_skip:"true"`, skip: true},
	{tag: `bin:"optional" borsh_skip:"true"`, skip: true},
	{tag: `bin:"optional" borsh_skip:"false"`, opt: true},
	{tag: `borsh_skip:"true"`, skip: true},
	{tag: `bin:"big" borsh_enum:"true"`, big: true},
	{tag: `bin:"big enum"`, big: true},
	{tag: `bin:"unknown big"`, big: true},
	{tag: `json:"-"`},
	{tag: `bin:"optional" json:"big,-"`, opt: true},
	{tag: `bin:"big" xml:"optional"`, big: true},
}

// Any two tags side by side: each governs its own field only.
func C18_pairs() {
	b := &B{e: chooseEnc()}
	fs := []reflect.StructField{field("A", tU8, "")}
	var ks []int
	for i := 0; i < 2; i++ {
		k := sym.Choose("tag", len(tagKinds))
		ks = append(ks, k)
		fs = append(fs, field([]string{"F", "G"}[i], tU16, tagKinds[k].tag))
	}
	fs = append(fs, field("Z", tU16, ""))
	t := reflect.StructOf(fs)
	v, w := reflect.New(t), reflect.New(t)
	setU8(b, v.Elem().Field(0))
	var held []uint16
	for i, k := range ks {
		g := tagKinds[k]
		h := sym.U16("held")
		held = append(held, h)
		w.Elem().Field(i + 1).SetUint(uint64(h))
		if g.skip {
			v.Elem().Field(i + 1).SetUint(uint64(sym.U16("skipped")))
			continue
		}
		present := true
		if g.opt || g.copt && b.e == eBorsh {
			present = b.present()
			if g.opt {
				b.opt(present)
			} else if present {
				b.out = append(b.out, 1, 0, 0, 0)
			} else {
				b.out = append(b.out, 0, 0, 0, 0)
			}
			if present {
				x := b.u16(g.big)
				sym.Assume(x != 0)
				v.Elem().Field(i + 1).SetUint(uint64(x))
			}
			continue
		}
		v.Elem().Field(i + 1).SetUint(uint64(b.u16(g.big)))
	}
	v.Elem().Field(3).SetUint(uint64(b.u16(false)))
	out, err := marshal(b.e, v.Interface())
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "each tag governs its own field")
	d := newDec(b.e, b.out)
	sym.Assert(d.Decode(w.Interface()) == nil && d.Remaining() == 0, "decodes")
	for i, k := range ks {
		want := v.Elem().Field(i + 1).Uint()
		if tagKinds[k].skip {
			want = uint64(held[i])
		}
		sym.Assert(w.Elem().Field(i+1).Uint() == want, "each field by its own tag")
	}
	sym.Assert(sym.And(w.Elem().Field(0).Uint() == v.Elem().Field(0).Uint(), w.Elem().Field(3).Uint() == v.Elem().Field(3).Uint()), "neighbours")
	sym.Reach("pair")
}

// Sizes beyond what one or two bytes count.
func C18_sizedLong() {
	b := &B{e: chooseEnc()}
	n := []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000}[sym.Choose("n", 9)]
	m := []int{0, 3, 300}[sym.Choose("m", 3)]
	v := &tLongSizedB{N: uint32(n), M: int64(m)}
	b.out = le(le(b.out, uint64(n), 4), uint64(m), 8)
	v.V = b.arr(n)
	for i := 0; i < m; i++ {
		v.W = append(v.W, uint16(i*7))
		b.out = le(b.out, uint64(i*7), 2)
	}
	v.P = b.u8()
	fresh := &tLongSizedB{}
	out, err := marshal(b.e, v)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "no prefix, all the elements")
	d := newDec(b.e, b.out)
	sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 0 && sym.Eq(v, fresh), "the size field counts the elements")
	sym.Reach("sized")
}
