package h

import (
	"crypto/sha256"
	"encoding/binary"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// leb writes the LEB128 form of a 32-bit value.
func leb(v uint32) []byte {
	var out []byte
	for i := 0; i < 5; i++ {
		if v < 0x80 {
			return append(out, byte(v))
		}
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return out
}

func pad8(b []byte) [8]byte {
	var out [8]byte
	copy(out[:], b)
	return out
}

// Type IDs to and from integers and discriminators.
func C21_ids() {
	switch sym.Choose("what", 5) {
	case 0:
		v := sym.U8("v")
		id := bin.TypeIDFromUint8(v)
		sym.Assert(id == bin.TypeID{v}, "uint8 layout")
		sym.Assert(bin.Uint8FromTypeID(id) == v && id.Uint8() == v, "uint8 back")
	case 1:
		v := sym.U32("v")
		id := bin.TypeIDFromUint32(v, binary.LittleEndian)
		sym.Assert(id == bin.TypeID{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}, "uint32 little-endian layout")
		sym.Assert(bin.Uint32FromTypeID(id, binary.LittleEndian) == v && id.Uint32() == v, "uint32 back")
	case 2:
		v := sym.U32("v")
		id := bin.TypeIDFromUint32(v, binary.BigEndian)
		sym.Assert(id == bin.TypeID{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, "uint32 big-endian layout")
		sym.Assert(bin.Uint32FromTypeID(id, binary.BigEndian) == v, "big-endian uint32 back")
	case 3:
		v := sym.U32("v")
		id := bin.TypeIDFromUvarint32(v)
		sym.Assert(id == bin.TypeID(pad8(leb(v))), "uvarint layout")
		sym.Assert(bin.Uvarint32FromTypeID(id) == v && id.Uvarint32() == v, "uvarint back")
	case 4:
		n := sym.Choose("n", 9)
		b := sym.Bytes("b", n)
		id := bin.TypeIDFromBytes(b)
		want := pad8(b)
		sym.Assert(id == bin.TypeID(want), "bytes kept, zero padded")
		sym.Assert(bin.TypeIDFromSighash(b) == id, "sighash form")
		sym.Assert(sym.BytesEq(id.Bytes(), want[:]), "Bytes")
		m := []int{0, 7, 8, 9}[sym.Choose("m", 4)]
		o := sym.Bytes("o", m)
		sym.Assert(sym.Iff(id.Equal(o), sym.BytesEq(o, want[:])), "Equal")
	}
	sym.Reach("id")
}

// Reading and peeking discriminators.
func C21_discriminators() {
	e := chooseEnc()
	n := []int{0, 1, 7, 8, 9, 17}[sym.Choose("len", 6)]
	in := roomy(sym.Bytes("in", n))
	d := newDec(e, in)
	p := 0
	if n > 8 && sym.Choose("skip", 2) == 1 {
		p = n - 8
		sym.Assert(d.SkipBytes(uint(p)) == nil, "skip")
	}
	for k := 0; k < 2; k++ {
		id, err := d.PeekDiscriminator()
		if n-p < 8 {
			sym.Assert(err != nil, "peek of a short discriminator must fail")
		} else {
			sym.Assert(err == nil && id == bin.TypeID(pad8(in[p:p+8])), "peeked discriminator")
		}
		sym.Assert(d.Position() == uint(p), "peek keeps the cursor")
	}
	var id bin.TypeID
	var err error
	switch sym.Choose("read", 2) {
	case 0:
		id, err = d.ReadTypeID()
	case 1:
		id, err = d.ReadDiscriminator()
	}
	if n-p < 8 {
		sym.Assert(err != nil, "short discriminator must fail")
		sym.Assert(d.Position() == uint(p), "failed read keeps the cursor")
	} else {
		sym.Assert(err == nil && id == bin.TypeID(pad8(in[p:p+8])), "discriminator read")
		sym.Assert(d.Position() == uint(p+8), "cursor past the discriminator")
	}
	sym.Reach("discriminator")
}

type (
	vA struct {
		A uint16
		B uint8
	}
	vB struct {
		S string
	}
	vC uint32
	vD struct{ P *vA }
)

var vTypes = []bin.VariantType{
	{Name: "alpha", Type: (*vA)(nil)},
	{Name: "bravo", Type: vB{}},
	{Name: "charlie", Type: vC(0)},
	{Name: "delta", Type: &vD{}},
	{Name: "echo", Type: (*mFix)(nil)},
}

// vPayload appends the payload of variant i and returns its expected implementation value.
func vPayload(b *B, i int) interface{} {
	switch i % 5 {
	case 0:
		return &vA{b.u16(false), b.u8()}
	case 1:
		return vB{b.str(b.pick("sl", 0, 1, 2))}
	case 2:
		return vC(b.u32(false))
	case 3:
		v := vA{b.u16(false), b.u8()}
		return &vD{&v}
	}
	v := b.fix()
	return &v
}

const (
	vUvarint = iota
	vU32
	vU8
	vAnchor
	vNone
)

var vEncs = []bin.TypeIDEncoding{bin.Uvarint32TypeIDEncoding, bin.Uint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.AnchorTypeIDEncoding, bin.NoTypeIDEncoding}

// vID is the wire form of the ID of entry i of types.
func vID(k, i int, types []bin.VariantType) []byte {
	switch k {
	case vUvarint:
		return leb(uint32(i))
	case vU32:
		return []byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)}
	case vU8:
		return []byte{byte(i)}
	case vAnchor:
		sum := sha256.Sum256([]byte("global:" + types[i].Name))
		return sum[:8]
	}
	return nil
}

func vCheck(v *bin.BaseVariant, def *bin.VariantDefinition, id []byte, name string, want interface{}) {
	sym.Assert(v.TypeID == bin.TypeID(pad8(id)), "type ID")
	switch w := want.(type) {
	case *vA:
		g, ok := v.Impl.(*vA)
		sym.Assert(ok && g != nil, "implementation type")
		sym.Assert(sym.Eq(*g, *w), "implementation value")
	case vB:
		g, ok := v.Impl.(vB)
		sym.Assert(ok, "implementation type")
		sym.Assert(sym.Eq(g, w), "implementation value")
	case vC:
		g, ok := v.Impl.(vC)
		sym.Assert(ok, "implementation type")
		sym.Assert(g == w, "implementation value")
	case *vD:
		g, ok := v.Impl.(*vD)
		sym.Assert(ok && g != nil && g.P != nil, "implementation type")
		sym.Assert(sym.Eq(*g.P, *w.P), "implementation value")
	case *mFix:
		g, ok := v.Impl.(*mFix)
		sym.Assert(ok && g != nil, "implementation type")
		sym.Assert(g.V == w.V, "implementation value")
	}
	tid, nm, impl := v.Obtain(def)
	sym.Assert(tid == v.TypeID && nm == name && sym.Eq(impl, v.Impl), "Obtain")
	sym.Assert(def.TypeID(name) == v.TypeID, "TypeID of the name")
}

// Dispatch to the registered type: five ID encodings, three payload encodings, fresh or reused variants, with a byte left over.
func C21_dispatch() {
	e := chooseEnc()
	k := sym.Choose("id encoding", 5)
	i := sym.Choose("variant", 5)
	types := vTypes
	if k == vNone {
		types = vTypes[i : i+1]
	}
	def := bin.NewVariantDefinition(vEncs[k], types)
	b := &B{e: e}
	id := []byte(nil)
	if k != vNone {
		id = vID(k, i, types)
	}
	b.out = append(b.out, id...)
	want := vPayload(b, i)
	n := len(b.out)
	b.out = append(b.out, sym.U8("rest"))
	v := &bin.BaseVariant{}
	if sym.Choose("reused", 2) == 1 {
		v.Assign(bin.TypeIDFromUint8(7), &vA{1, 2})
	}
	d := newDec(e, b.out)
	sym.Assert(v.UnmarshalBinaryVariant(d, def) == nil, "decode of a registered variant")
	sym.Assert(d.Position() == uint(n), "consumed ID and payload")
	vCheck(v, def, id, vTypes[i].Name, want)
	sym.Reach(vTypes[i].Name)
}

// Every ID value: registered ones dispatch, the others are errors.
func C21_unknown() {
	e := chooseEnc()
	k := sym.Choose("id encoding", 4)
	types := []bin.VariantType{{Name: "alpha", Type: (*vA)(nil)}, {Name: "charlie", Type: vC(0)}, {Name: "other", Type: vA{}}}
	def := bin.NewVariantDefinition(vEncs[k], types)
	var in []byte
	var x uint32
	switch k {
	case vUvarint:
		x = sym.U32("id")
		in = leb(x)
	case vU32:
		x = sym.U32("id")
		in = []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
	case vU8:
		x = uint32(sym.U8("id"))
		in = []byte{byte(x)}
	case vAnchor:
		in = sym.Bytes("id", 8)
		x = 99
		for j := range types {
			if sym.BytesEq(in, vID(k, j, types)) {
				x = uint32(j)
			}
		}
	}
	n := len(in)
	pay := sym.Bytes("payload", 4)
	in = append(in, pay...)
	d := newDec(e, in)
	v := &bin.BaseVariant{}
	err := v.UnmarshalBinaryVariant(d, def)
	switch x {
	case 0:
		sym.Assert(err == nil, "registered ID")
		vCheck(v, def, in[:n], "alpha", &vA{uint16(pay[0]) | uint16(pay[1])<<8, pay[2]})
		sym.Assert(d.Position() == uint(n+3), "consumed")
		sym.Reach("first")
	case 1:
		sym.Assert(err == nil, "registered ID")
		vCheck(v, def, in[:n], "charlie", vC(uint32(pay[0])|uint32(pay[1])<<8|uint32(pay[2])<<16|uint32(pay[3])<<24))
		sym.Assert(d.Position() == uint(n+4), "consumed")
		sym.Reach("second")
	case 2:
		sym.Assert(err == nil, "registered ID")
		g, ok := v.Impl.(vA)
		sym.Assert(ok, "implementation type")
		sym.Assert(g == vA{uint16(pay[0]) | uint16(pay[1])<<8, pay[2]}, "implementation value")
		sym.Reach("third")
	default:
		sym.Assert(err != nil, "an unregistered ID must be refused")
		sym.Reach("unknown")
	}
}

// Short input: every strict prefix of an encoded variant is an error, never a panic.
func C21_short() {
	e := chooseEnc()
	k := sym.Choose("id encoding", 5)
	i := sym.Choose("variant", 5)
	types := vTypes
	if k == vNone {
		types = vTypes[i : i+1]
	}
	def := bin.NewVariantDefinition(vEncs[k], types)
	b := &B{e: e}
	if k != vNone {
		b.out = append(b.out, vID(k, i, types)...)
	}
	vPayload(b, i)
	cut := sym.Choose("cut", len(b.out))
	v := &bin.BaseVariant{}
	sym.Assert(v.UnmarshalBinaryVariant(newDec(e, b.out[:cut]), def) != nil, "short variant must fail")
	sym.Reach("short")
}

// Large definitions: IDs that need several bytes.
func C21_large() {
	e := chooseEnc()
	k := sym.Choose("id encoding", 3)
	n := 256
	if k != vU8 && sym.Tier() > 0 {
		n = 17000
	} else if k != vU8 {
		n = 300
	}
	types := make([]bin.VariantType, n)
	for j := range types {
		types[j] = vTypes[j%5]
	}
	def := bin.NewVariantDefinition(vEncs[k], types)
	at := []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 258, 299}
	if sym.Tier() > 0 {
		at = append(at, 16383, 16384, 16385, 16999)
	}
	m := 0
	for m < len(at) && at[m] < n {
		m++
	}
	i := at[sym.Choose("variant", m)]
	b := &B{e: e}
	id := vID(k, i, types)
	b.out = append(b.out, id...)
	want := vPayload(b, i)
	v := &bin.BaseVariant{}
	d := newDec(e, b.out)
	sym.Assert(v.UnmarshalBinaryVariant(d, def) == nil, "decode of a registered variant")
	sym.Assert(d.Remaining() == 0, "consumed ID and payload")
	sym.Assert(v.TypeID == bin.TypeID(pad8(id)), "type ID")
	sym.Assert(sym.Eq(v.Impl, want), "implementation")
	sym.Reach("large")
}

type vNode struct{ bin.BaseVariant }

var vNodeDef = bin.NewVariantDefinition(bin.Uint32TypeIDEncoding, vTypes)

func (n *vNode) UnmarshalWithDecoder(d *bin.Decoder) error {
	return n.BaseVariant.UnmarshalBinaryVariant(d, vNodeDef)
}

func (n vNode) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteUint32(n.TypeID.Uint32(), bin.LE); err != nil {
		return err
	}
	return e.Encode(n.Impl)
}

type vTree struct {
	N uint8 `bin:"sizeof=L"`
	L []*vNode
	F vNode
}

// Variants inside other values: a sized list and a field, encoded and decoded back.
func C21_nested() {
	e := chooseEnc()
	b := &B{e: e}
	n := sym.Choose("n", 3)
	b.out = append(b.out, byte(n))
	var want []interface{}
	for j := 0; j <= n; j++ {
		i := 3
		if j > 0 || sym.Tier() > 0 {
			i = sym.Choose("variant", 5)
		}
		b.out = append(b.out, vID(vU32, i, vTypes)...)
		want = append(want, vPayload(b, i))
	}
	var t vTree
	d := newDec(e, b.out)
	sym.Assert(d.Decode(&t) == nil, "decode")
	sym.Assert(d.Remaining() == 0, "consumed")
	sym.Assert(len(t.L) == n, "list length")
	for j := 0; j < n; j++ {
		sym.Assert(sym.Eq(t.L[j].Impl, want[j]), "list element")
	}
	sym.Assert(sym.Eq(t.F.Impl, want[n]), "field")
	out, err := marshal(e, &t)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "encodes back to the same bytes")
	sym.Reach("nested")
}

// Assign and Obtain carry exactly what they were given; the name is that of the definition, empty for IDs it does not have.
func C21_assign() {
	k := sym.Choose("id encoding", 4)
	def := bin.NewVariantDefinition(vEncs[k], vTypes)
	var id bin.TypeID
	i := sym.Choose("id", len(vTypes)+1)
	name := ""
	if i < len(vTypes) {
		id = def.TypeID(vTypes[i].Name)
		name = vTypes[i].Name
		sym.Assert(id == bin.TypeID(pad8(vID(k, i, vTypes))), "type ID of the name")
	} else {
		copy(id[:], sym.Bytes("id", 8))
		for j := range vTypes {
			sym.Assume(id != bin.TypeID(pad8(vID(k, j, vTypes))))
		}
	}
	impl := &vA{sym.U16("a"), sym.U8("b")}
	v := &bin.BaseVariant{}
	if sym.Choose("reused", 2) == 1 {
		v.Assign(bin.TypeIDFromUint8(7), uint8(3))
	}
	v.Assign(id, impl)
	sym.Assert(v.TypeID == id, "assigned ID")
	got, ok := v.Impl.(*vA)
	sym.Assert(ok && got == impl, "assigned implementation")
	tid, nm, im := v.Obtain(def)
	got, ok = im.(*vA)
	sym.Assert(tid == id && nm == name && ok && got == impl, "obtained as assigned")
	sym.Reach("assign")
}
