package h

import (
	"math"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type tF struct {
	A uint8
	B float32
	C float64 `bin:"big"`
}
type tFOpt struct {
	A *float32 `bin:"optional"`
	B float64  `bin:"optional"`
	C []tF     `bin:"optional"`
}
type tFEnum struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	U    uint8
	F    float32
	G    *float64
	H    tF
}
type tFCOpt struct {
	A *float64 `bin:"coption"`
}

// fl draws floats without excluding NaN and tracks whether any is one.
type fl struct {
	*B
	nan bool
}

func (f *fl) f32(big bool) float32 {
	u := sym.U32("f32")
	f.nan = sym.Or(f.nan, sym.And(u&0x7f800000 == 0x7f800000, u&0x007fffff != 0))
	f.out = ord(f.out, uint64(u), 4, f.big(big))
	return math.Float32frombits(u)
}

func (f *fl) f64(big bool) float64 {
	u := sym.U64("f64")
	f.nan = sym.Or(f.nan, sym.And(u&0x7ff0000000000000 == 0x7ff0000000000000, u&0x000fffffffffffff != 0))
	f.out = ord(f.out, u, 8, f.big(big))
	return math.Float64frombits(u)
}

func (f *fl) tF() tF { return tF{A: f.u8(), B: f.f32(false), C: f.f64(true)} }

// mkFloat builds a value holding floats at some nesting position.
func mkFloat(f *fl) (string, interface{}, interface{}) {
	n := 15
	if f.e == eBorsh {
		n = 20
	}
	switch sym.Choose("position", n) {
	case 0:
		v := f.f32(false)
		return "top f32", &v, new(float32)
	case 1:
		v := f.f64(false)
		return "top f64", &v, new(float64)
	case 2:
		v := f.tF()
		return "struct", &v, new(tF)
	case 3:
		f.length(2)
		v := []float32{f.f32(false), f.f32(false)}
		return "slice f32", &v, new([]float32)
	case 4:
		v := [2]float64{f.f64(false), f.f64(false)}
		return "array f64", &v, new([2]float64)
	case 5:
		f.length(1)
		k := f.u8()
		v := map[uint8]float64{k: f.f64(false)}
		return "map value", &v, new(map[uint8]float64)
	case 6:
		f.length(1)
		k := f.str(1)
		v := map[string]tF{k: f.tF()}
		return "map struct", &v, new(map[string]tF)
	case 7:
		x := f.f32(false)
		p := &x
		return "pointer", &p, new(*float32)
	case 8:
		v := nF32(f.f32(false))
		return "named f32", &v, new(nF32)
	case 9:
		v := nF64(f.f64(false))
		return "named f64", &v, new(nF64)
	case 10:
		v := bin.JSONFloat64(f.f64(false))
		return "JSONFloat64", &v, new(bin.JSONFloat64)
	case 11:
		f.length(1)
		f.length(1)
		v := [][]tF{{f.tF()}}
		return "nested slices", &v, new([][]tF)
	case 12:
		var v tFOpt
		f.opt(true)
		x := f.f32(false)
		v.A = &x
		f.opt(false)
		f.opt(true)
		f.length(1)
		v.C = []tF{f.tF()}
		return "optional pointer", &v, new(tFOpt)
	case 13:
		var v tFOpt
		f.opt(false)
		f.opt(true)
		v.B = f.f64(false)
		sym.Assume(math.Float64bits(v.B) != 0) // a zero is "absent": C14
		f.opt(false)
		return "optional f64", &v, new(tFOpt)
	case 14:
		f.length(1)
		v := [][1]nF32{{nF32(f.f32(false))}}
		return "slice of arrays", &v, new([][1]nF32)
	case 15:
		f.out = append(f.out, 1)
		v := tFEnum{Enum: 1, F: f.f32(false)}
		return "enum f32", &v, new(tFEnum)
	case 16:
		f.out = append(f.out, 2)
		x := f.f64(false)
		v := tFEnum{Enum: 2, G: &x}
		return "enum pointer", &v, new(tFEnum)
	case 17:
		f.out = append(f.out, 3)
		v := tFEnum{Enum: 3, H: f.tF()}
		return "enum struct", &v, new(tFEnum)
	case 18:
		f.out = append(f.out, 1, 0, 0, 0)
		x := f.f64(false)
		v := tFCOpt{A: &x}
		return "c-option", &v, new(tFCOpt)
	}
	f.length(1)
	x := f.f32(false)
	v := []*float32{&x}
	return "slice of pointers", &v, new([]*float32)
}

// Encoding: Borsh refuses exactly the values holding a NaN, the others refuse nothing.
func C17_encode() {
	e := chooseEnc()
	f := &fl{B: &B{e: e}}
	name, v, fresh := mkFloat(f)
	out, err := marshal(e, v)
	if e == eBorsh {
		sym.Assert((err != nil) == f.nan, name+": Borsh refuses exactly NaN")
		if err != nil {
			sym.Reach(name + "/refused")
			return
		}
	} else {
		sym.Assert(err == nil, name+": no float is refused")
		sym.Assume(sym.Not(f.nan))
	}
	sym.Assert(sym.BytesEq(out, f.out), name+": bit-exact bytes")
	sym.Assert(unmarshal(e, fresh, out) == nil, name+": decodes")
	sym.Assert(sym.Eq(v, fresh), name+": bit-exact value")
	sym.Observe("value", fresh)
	sym.Reach(name)
}

// Decoding bytes with arbitrary float bit patterns.
func C17_decode() {
	e := chooseEnc()
	f := &fl{B: &B{e: e}}
	name, v, fresh := mkFloat(f)
	err := unmarshal(e, fresh, f.out)
	if e == eBorsh {
		sym.Assert((err != nil) == f.nan, name+": Borsh accepts exactly non-NaN")
		if err != nil {
			sym.Reach(name + "/refused")
			return
		}
	} else {
		sym.Assert(err == nil, name+": no float is refused")
		sym.Assume(sym.Not(f.nan))
	}
	sym.Assert(sym.Eq(v, fresh), name+": bit-exact value")
	sym.Reach(name)
}

// The typed writers and readers.
func C17_typed() {
	e := chooseEnc()
	big := sym.Choose("order", 2) == 1
	u32, u64 := sym.U32("f32"), sym.U64("f64")
	n32 := sym.And(u32&0x7f800000 == 0x7f800000, u32&0x007fffff != 0)
	n64 := sym.And(u64&0x7ff0000000000000 == 0x7ff0000000000000, u64&0x000fffffffffffff != 0)
	bo := e == eBorsh
	out, err, written := capture(e, func(enc *bin.Encoder) error { return enc.WriteFloat32(math.Float32frombits(u32), orderOf(big)) })
	sym.Assert((err != nil) == (bo && n32), "WriteFloat32 refuses exactly NaN in Borsh")
	if err != nil {
		sym.Assert(len(out) == 0 && written == 0, "nothing emitted for a refused NaN")
	} else {
		sym.Assert(sym.BytesEq(out, ord(nil, uint64(u32), 4, big)), "WriteFloat32 bits")
	}
	out, err, written = capture(e, func(enc *bin.Encoder) error { return enc.WriteFloat64(math.Float64frombits(u64), orderOf(big)) })
	sym.Assert((err != nil) == (bo && n64), "WriteFloat64 refuses exactly NaN in Borsh")
	if err != nil {
		sym.Assert(len(out) == 0 && written == 0, "nothing emitted for a refused NaN")
	} else {
		sym.Assert(sym.BytesEq(out, ord(nil, u64, 8, big)), "WriteFloat64 bits")
	}
	f32, err := newDec(e, ord(nil, uint64(u32), 4, big)).ReadFloat32(orderOf(big))
	sym.Assert((err != nil) == (bo && n32), "ReadFloat32 refuses exactly NaN in Borsh")
	if err == nil {
		sym.Assert(math.Float32bits(f32) == u32, "ReadFloat32 bits")
	}
	f64, err := newDec(e, ord(nil, u64, 8, big)).ReadFloat64(orderOf(big))
	sym.Assert((err != nil) == (bo && n64), "ReadFloat64 refuses exactly NaN in Borsh")
	if err == nil {
		sym.Assert(math.Float64bits(f64) == u64, "ReadFloat64 bits")
	}
	sym.Reach("typed")
}
