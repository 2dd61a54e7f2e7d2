package h

import (
	"reflect"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// enumCase: an enum value with its selected payload drawn and the expected bytes.
func pickEnum(b *B) (interface{}, interface{}) {
	switch sym.Choose("enum", 3) {
	case 0:
		return mkEnum(b)
	case 1:
		return mkEnumC(b)
	}
	return mkEnumBig(b)
}

// tagOf is the variant a value selects, by the enum's first field.
func tagOf(v interface{}) int { return int(reflect.ValueOf(v).Elem().Field(0).Uint()) }

// fillOthers gives every unselected variant junk content.
func fillOthers(v interface{}, tag int) {
	rv := reflect.ValueOf(v).Elem()
	n := rv.NumField()
	if n > 20 {
		// the 255-variant enum: the neighbours and the ends
		for _, i := range []int{1, 2, tag, tag + 2, n - 1} {
			if i > 0 && i < n && i != tag+1 {
				dirty(rv.Field(i), 1)
			}
		}
		return
	}
	for i := 1; i < n; i++ {
		if i != tag+1 {
			dirty(rv.Field(i), 1)
		}
	}
}

// Encoding writes the tag and the selected variant only, whatever the other variants hold.
func C15_encode() {
	b := &B{e: eBorsh}
	v, _ := pickEnum(b)
	tag := tagOf(v)
	fillOthers(v, tag)
	out, err := marshal(eBorsh, v)
	sym.Assert(err == nil, "encodes")
	sym.Assert(sym.BytesEq(out, b.out), "exactly the tag and the selected variant")
	sym.Observe("bytes", out)
	sym.Reach("encode")
}

// Decoding fills exactly the selected variant and leaves the others as they were.
func C15_decode() {
	b := &B{e: eBorsh}
	v, fresh := pickEnum(b)
	tag := tagOf(v)
	t := dirtyOf(fresh)
	before := cloneOf(t)
	d := newDec(eBorsh, append(append([]byte{}, b.out...), 0xaa))
	sym.Assert(d.Decode(t) == nil, "decodes")
	sym.Assert(d.Remaining() == 1, "consumed exactly the enum")
	rt, rb, rw := reflect.ValueOf(t).Elem(), reflect.ValueOf(before).Elem(), reflect.ValueOf(v).Elem()
	sym.Assert(int(rt.Field(0).Uint()) == tag, "tag")
	for i := 1; i < rt.NumField(); i++ {
		if i == tag+1 {
			sel := rt.Field(i).Interface()
			if rt.Field(i).Type() == reflect.TypeOf(tEnumIn{}) || rt.Field(i).Type() == reflect.TypeOf(&tEnumIn{}) {
				again, err := marshal(eBorsh, sel)
				sym.Assert(err == nil && sym.BytesEq(again, b.out[1:]), "selected nested enum variant")
				continue
			}
			sym.Assert(sym.Eq(sel, rw.Field(i).Interface()), "selected variant holds the payload")
			continue
		}
		sym.Assert(sym.Eq(rt.Field(i).Interface(), rb.Field(i).Interface()), "unselected variants are left untouched")
	}
	sym.Reach("decode")
}

// A tag that selects no variant is an error in both directions.
func C15_badtag() {
	tag := sym.U8("tag")
	pay := sym.Bytes("payload", 6)
	switch sym.Choose("enum", 5) {
	case 0:
		sym.Assume(tag >= 12)
		_, err := marshal(eBorsh, &tEnum{Enum: bin.BorshEnum(tag), A: 1})
		sym.Assert(err != nil, "encoding a tag without a variant is refused")
		sym.Assert(unmarshal(eBorsh, &tEnum{}, append([]byte{tag}, pay...)) != nil, "decoding a tag without a variant is refused")
	case 1:
		sym.Assume(tag >= 11)
		_, err := marshal(eBorsh, tEnumC{Enum: bin.BorshEnum(tag)})
		sym.Assert(err != nil, "encoding a tag without a variant is refused")
		sym.Assert(unmarshal(eBorsh, &tEnumC{}, append([]byte{tag}, pay...)) != nil, "decoding a tag without a variant is refused")
	case 2:
		sym.Assume(tag >= 2)
		_, err := marshal(eBorsh, []tEnumIn{{Kind: 0}, {Kind: bin.BorshEnum(tag)}})
		sym.Assert(err != nil, "a bad tag inside a list is refused")
		var l []tEnumIn
		sym.Assert(unmarshal(eBorsh, &l, append([]byte{1, 0, 0, 0, tag}, pay...)) != nil, "a bad tag inside a list is refused")
	case 3:
		sym.Assume(tag == 255)
		_, err := marshal(eBorsh, &tEnum255{Enum: bin.BorshEnum(tag)})
		sym.Assert(err != nil, "encoding a tag without a variant is refused")
		sym.Assert(unmarshal(eBorsh, &tEnum255{}, append([]byte{tag}, pay...)) != nil, "decoding a tag without a variant is refused")
	case 4:
		_, err := marshal(eBorsh, tEnumNone{Enum: bin.BorshEnum(tag)})
		sym.Assert(err != nil, "an enum without variants has no valid tag")
		sym.Assert(unmarshal(eBorsh, &tEnumNone{}, append([]byte{tag}, pay...)) != nil, "an enum without variants has no valid tag")
	}
	sym.Reach("badtag")
}

type tEnumNone struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
}

// tNotEnum has a BorshEnum field that is not tagged as an enum: all fields are encoded.
type tNotEnum struct {
	E bin.BorshEnum
	A uint8
	B uint16
}

// Only a first field tagged as the enum tag makes a struct an enum; every byte is a valid tag value otherwise.
func C15_plain() {
	v := tNotEnum{E: bin.BorshEnum(sym.U8("e")), A: sym.U8("a"), B: sym.U16("b")}
	out, err := marshal(eBorsh, &v)
	sym.Assert(err == nil && sym.BytesEq(out, []byte{byte(v.E), v.A, byte(v.B), byte(v.B >> 8)}), "plain struct with a BorshEnum field")
	var g tNotEnum
	sym.Assert(unmarshal(eBorsh, &g, out) == nil && g == v, "decodes")
	sym.Reach("plain")
}

// Every tag byte of the 12-variant enum over arbitrary payload bytes: success only with a valid tag, and then the tag is the byte read.
func C15_anytag() {
	in := sym.Bytes("in", 9)
	if sym.Choose("which", 2) == 0 {
		var v tEnum
		err := unmarshal(eBorsh, &v, in)
		if err == nil {
			sym.Assert(byte(v.Enum) == in[0] && in[0] < 12, "the tag read selects the variant")
			sym.Reach("ok")
		}
		return
	}
	var v tEnumC
	err := unmarshal(eBorsh, &v, in)
	if err == nil {
		sym.Assert(byte(v.Enum) == in[0] && in[0] < 11, "the tag read selects the variant")
		sym.Reach("ok2")
	}
}
