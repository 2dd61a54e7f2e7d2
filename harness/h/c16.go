package h

import (
	"math"
	"reflect"

	"github.com/gagliardetto/binary/zz_verif/sym"
)

// keyKind: a map type, how to draw a key (with its Borsh bytes) and the order of keys.
type keyKind struct {
	name string
	m    func() interface{}
	draw func(b *B) interface{}
	less func(a, b interface{}) bool
}

func lessI(a, b interface{}) bool { return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int() }
func lessU(a, b interface{}) bool { return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint() }
func lessF(a, b interface{}) bool { return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float() }

// lessS: bytewise, a proper prefix first.
func lessS(a, b interface{}) bool {
	x, y := reflect.ValueOf(a).String(), reflect.ValueOf(b).String()
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	lt, eq := false, true
	for i := 0; i < n; i++ {
		lt = sym.Or(lt, sym.And(eq, x[i] < y[i]))
		eq = sym.And(eq, x[i] == y[i])
	}
	return sym.Or(lt, sym.And(eq, len(x) < len(y)))
}

var keyKinds = []keyKind{
	{"uint8", func() interface{} { return new(map[uint8]uint16) }, func(b *B) interface{} { return b.u8() }, lessU},
	{"uint16", func() interface{} { return new(map[uint16]uint16) }, func(b *B) interface{} { return b.u16(false) }, lessU},
	{"uint32", func() interface{} { return new(map[uint32]uint16) }, func(b *B) interface{} { return b.u32(false) }, lessU},
	{"uint64", func() interface{} { return new(map[uint64]uint16) }, func(b *B) interface{} { return b.u64(false) }, lessU},
	{"int8", func() interface{} { return new(map[int8]uint16) }, func(b *B) interface{} { return b.i8() }, lessI},
	{"int16", func() interface{} { return new(map[int16]uint16) }, func(b *B) interface{} { return b.i16(false) }, lessI},
	{"int32", func() interface{} { return new(map[int32]uint16) }, func(b *B) interface{} { return b.i32(false) }, lessI},
	{"int64", func() interface{} { return new(map[int64]uint16) }, func(b *B) interface{} { return b.i64(false) }, lessI},
	{"float32", func() interface{} { return new(map[float32]uint16) }, func(b *B) interface{} { return b.f32(false) }, lessF},
	{"float64", func() interface{} { return new(map[float64]uint16) }, func(b *B) interface{} { return b.f64(false) }, lessF},
	{"string", func() interface{} { return new(map[string]uint16) }, func(b *B) interface{} { return b.str(sym.Choose("klen", 3)) }, lessS},
	{"named uint8", func() interface{} { return new(map[nU8]uint16) }, func(b *B) interface{} { return nU8(b.u8()) }, lessU},
	{"named uint16", func() interface{} { return new(map[nU16]uint16) }, func(b *B) interface{} { return nU16(b.u16(false)) }, lessU},
	{"named uint32", func() interface{} { return new(map[nU32]uint16) }, func(b *B) interface{} { return nU32(b.u32(false)) }, lessU},
	{"named uint64", func() interface{} { return new(map[nU64]uint16) }, func(b *B) interface{} { return nU64(b.u64(false)) }, lessU},
	{"named int8", func() interface{} { return new(map[nI8]uint16) }, func(b *B) interface{} { return nI8(b.i8()) }, lessI},
	{"named int16", func() interface{} { return new(map[nI16]uint16) }, func(b *B) interface{} { return nI16(b.i16(false)) }, lessI},
	{"named int32", func() interface{} { return new(map[nI32]uint16) }, func(b *B) interface{} { return nI32(b.i32(false)) }, lessI},
	{"named int64", func() interface{} { return new(map[nI64]uint16) }, func(b *B) interface{} { return nI64(b.i64(false)) }, lessI},
	{"named float32", func() interface{} { return new(map[nF32]uint16) }, func(b *B) interface{} { return nF32(b.f32(false)) }, lessF},
	{"named float64", func() interface{} { return new(map[nF64]uint16) }, func(b *B) interface{} { return nF64(b.f64(false)) }, lessF},
	{"named string", func() interface{} { return new(map[nStr]uint16) }, func(b *B) interface{} { return nStr(b.str(sym.Choose("klen", 3))) }, lessS},
}

var perms3 = [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}}

// Up to n entries with keys in ascending order, inserted in some order and iterated in any order.
func buildMap(k *keyKind, n int) (interface{}, *B) {
	b := &B{e: eBorsh}
	b.length(n)
	var ks []interface{}
	var vs []uint16
	for i := 0; i < n; i++ {
		ks = append(ks, k.draw(b))
		vs = append(vs, b.u16(false))
		if i > 0 {
			sym.Assume(k.less(ks[i-1], ks[i]))
		}
	}
	p := k.m()
	m := reflect.MakeMap(reflect.TypeOf(p).Elem())
	order := perms3[sym.Choose("insertion", 2)]
	if n < 3 {
		order = nil
		for i := n - 1; i >= 0; i-- {
			order = append(order, i)
		}
	}
	for _, i := range order {
		m.SetMapIndex(reflect.ValueOf(ks[i]), reflect.ValueOf(vs[i]))
	}
	if n == 4 {
		m.SetMapIndex(reflect.ValueOf(ks[3]), reflect.ValueOf(vs[3]))
	}
	reflect.ValueOf(p).Elem().Set(m)
	return p, b
}

// Entries come out in strictly ascending key order for every iteration order the runtime may choose.
func C16_order() {
	k := &keyKinds[sym.Choose("key", len(keyKinds))]
	n := 2 + sym.Choose("entries", 2+sym.Tier())
	p, b := buildMap(k, n)
	sym.MapOrder(true)
	out, err := marshal(eBorsh, p)
	sym.MapOrder(false)
	sym.Assert(err == nil, k.name+": encodes")
	sym.Assert(sym.BytesEq(out, b.out), k.name+": entries in ascending key order")
	g := k.m()
	sym.Assert(unmarshal(eBorsh, g, out) == nil, k.name+": decodes")
	sym.Assert(sym.Eq(p, g), k.name+": same map")
	sym.Reach(k.name)
}

// Infinities, signed zeros and other special floats as keys.
func C16_specials() {
	keys := []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1, math.MaxFloat64, math.Inf(1)}
	i := sym.Choose("a", len(keys))
	j := sym.Choose("b", len(keys))
	if i >= j {
		sym.Assume(false)
	}
	x := sym.U8("x")
	m := map[float64]uint8{keys[j]: x, keys[i]: x + 1}
	sym.MapOrder(true)
	out, err := marshal(eBorsh, m)
	sym.MapOrder(false)
	var want []byte
	want = le(want, 2, 4)
	want = append(le(want, math.Float64bits(keys[i]), 8), x+1)
	want = append(le(want, math.Float64bits(keys[j]), 8), x)
	sym.Assert(err == nil && sym.BytesEq(out, want), "special floats in order")
	sym.Reach("specials")
}

type tMapDeep struct {
	A map[uint16]map[int8]uint8
	B []map[string]uint8
	C *map[uint32]inner `bin:"optional"`
	D map[nU64]string
}

// Maps nested in structs, lists, pointers and other maps are ordered too.
func C16_nested() {
	b := &B{e: eBorsh}
	var v tMapDeep
	v.A = map[uint16]map[int8]uint8{}
	b.length(2)
	k1 := b.u16(false)
	b.length(2)
	i1, x1 := b.i8(), b.u8()
	i2, x2 := b.i8(), b.u8()
	sym.Assume(i1 < i2)
	k2 := b.u16(false)
	b.length(0)
	sym.Assume(k1 < k2)
	v.A[k2] = map[int8]uint8{}
	v.A[k1] = map[int8]uint8{i2: x2, i1: x1}
	b.length(1)
	b.length(2)
	s1, y1 := b.str(1), b.u8()
	s2, y2 := b.str(2), b.u8()
	sym.Assume(lessS(s1, s2))
	v.B = []map[string]uint8{{s2: y2, s1: y1}}
	p := b.present()
	b.opt(p)
	if p {
		b.length(2)
		c1 := b.u32(false)
		in1 := b.inner()
		c2 := b.u32(false)
		in2 := b.inner()
		sym.Assume(c1 < c2)
		v.C = &map[uint32]inner{c2: in2, c1: in1}
	}
	b.length(2)
	d1 := b.u64(false)
	t1 := b.str(1)
	d2 := b.u64(false)
	t2 := b.str(0)
	sym.Assume(d1 < d2)
	v.D = map[nU64]string{nU64(d2): t2, nU64(d1): t1}
	sym.MapOrder(true)
	out, err := marshal(eBorsh, &v)
	sym.MapOrder(false)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "nested maps in ascending key order")
	var g tMapDeep
	sym.Assert(unmarshal(eBorsh, &g, out) == nil && sym.Eq(&v, &g), "nested maps decode")
	sym.Reach("nested")
}

// History: keys overwritten and deleted before encoding leave no trace.
func C16_history() {
	b := &B{e: eBorsh}
	b.length(2)
	k1, x1 := b.i64(false), b.u8()
	k2, x2 := b.i64(false), b.u8()
	sym.Assume(k1 < k2)
	k3 := sym.I64("gone")
	sym.Assume(sym.And(k3 != k1, k3 != k2))
	m := map[int64]uint8{}
	m[k3] = 1
	m[k2] = 9
	m[k1] = x1
	m[k2] = x2
	delete(m, k3)
	sym.MapOrder(true)
	out, err := marshal(eBorsh, m)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), "only the contents matter")
	sym.Reach("history")
}
