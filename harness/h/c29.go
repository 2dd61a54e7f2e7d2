package h

import (
	"encoding/json"
	"math"
	"strconv"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func absI64(v int64) (bool, uint64) {
	if v < 0 {
		return true, -uint64(v)
	}
	return false, uint64(v)
}

// jsonInt checks the form of a 64-bit integer's JSON text.
func jsonInt(txt []byte, neg bool, mag uint64, name string) {
	if mag > 0xffffffff {
		s, ok := quoted(txt)
		sym.Assert(ok && decIs(s, neg, 0, mag), name+": quoted decimal text beyond 32 bits")
		sym.Reach(name + " quoted")
		return
	}
	sym.Assert(decIs(string(txt), neg, 0, mag), name+": plain number within 32 bits")
	sym.Reach(name + " number")
}

func C29_int64() {
	v := sym.I64("v")
	neg, mag := absI64(v)
	var txt []byte
	var err error
	via := sym.Choose("via", 3)
	switch via {
	case 0:
		txt, err = bin.Int64(v).MarshalJSON()
	case 1:
		txt, err = json.Marshal(bin.Int64(v))
	case 2:
		x := bin.Int64(v)
		txt, err = json.Marshal(&x)
		sym.Assert(int64(x) == v, "untouched")
	}
	sym.Assert(err == nil, "marshal")
	jsonInt(txt, neg, mag, "Int64")
	g := bin.Int64(sym.I64("old"))
	if via == 0 {
		err = g.UnmarshalJSON(txt)
	} else {
		err = json.Unmarshal(txt, &g)
	}
	sym.Assert(err == nil && int64(g) == v, "read back")
	sym.Observe("g", int64(g))
}

func C29_uint64() {
	v := sym.U64("v")
	var txt []byte
	var err error
	via := sym.Choose("via", 3)
	switch via {
	case 0:
		txt, err = bin.Uint64(v).MarshalJSON()
	case 1:
		txt, err = json.Marshal(bin.Uint64(v))
	case 2:
		x := bin.Uint64(v)
		txt, err = json.Marshal(&x)
		sym.Assert(uint64(x) == v, "untouched")
	}
	sym.Assert(err == nil, "marshal")
	jsonInt(txt, false, v, "Uint64")
	g := bin.Uint64(sym.U64("old"))
	if via == 0 {
		err = g.UnmarshalJSON(txt)
	} else {
		err = json.Unmarshal(txt, &g)
	}
	sym.Assert(err == nil && uint64(g) == v, "read back")
	sym.Observe("g", uint64(g))
}

// Every integer below 2^128 in either form: accepted with its value when it fits, refused otherwise.
func C29_forms() {
	signed := sym.Choose("signed", 2) == 1
	neg := sym.Choose("negative", 2) == 1
	hi, lo := sym.U64("hi"), sym.U64("lo")
	s := sym.DecText(0, hi, lo)
	if neg {
		sym.Assume(hi|lo != 0)
		s = "-" + s
	}
	if sym.Choose("form", 2) == 1 {
		s = "\"" + s + "\""
	}
	direct := sym.Choose("direct", 2) == 1
	var err error
	if signed {
		g := bin.Int64(77)
		if direct {
			err = g.UnmarshalJSON([]byte(s))
		} else {
			err = json.Unmarshal([]byte(s), &g)
		}
		fits := hi == 0 && (lo < 1<<63 || neg && lo == 1<<63)
		sym.Assert((err == nil) == fits, "Int64 accepts exactly its range")
		if fits {
			want := int64(lo)
			if neg {
				want = -want
			}
			sym.Assert(int64(g) == want, "Int64 value")
			sym.Reach("signed")
		} else {
			sym.Assert(int64(g) == 77, "refusal leaves the target")
			sym.Reach("signed refused")
		}
		return
	}
	g := bin.Uint64(77)
	if direct {
		err = g.UnmarshalJSON([]byte(s))
	} else {
		err = json.Unmarshal([]byte(s), &g)
	}
	fits := hi == 0 && !neg
	sym.Assert((err == nil) == fits, "Uint64 accepts exactly its range")
	if fits {
		sym.Assert(uint64(g) == lo, "Uint64 value")
		sym.Reach("unsigned")
	} else {
		sym.Assert(uint64(g) == 77, "refusal leaves the target")
		sym.Reach("unsigned refused")
	}
}

func C29_hex() {
	n := sym.Choose("len", 5+4*sym.Tier())
	v := sym.Bytes("v", n)
	h := bin.HexBytes(v)
	sym.Assert(sym.StrEq(h.String(), refHex(v)), "String is the hex text")
	var txt []byte
	var err error
	direct := sym.Choose("direct", 2) == 1
	if direct {
		txt, err = h.MarshalJSON()
	} else {
		txt, err = json.Marshal(h)
	}
	sym.Assert(err == nil, "marshal")
	sym.Assert(sym.StrEq(string(txt), "\""+refHex(v)+"\""), "quoted hex text")
	g := bin.HexBytes(sym.Bytes("old", 2))
	if direct {
		err = g.UnmarshalJSON(txt)
	} else {
		err = json.Unmarshal(txt, &g)
	}
	sym.Assert(err == nil && len(g) == n && sym.BytesEq([]byte(g), v), "read back")
	sym.Observe("g", []byte(g))
	sym.Reach("hex")
}

func hexVal(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// Every quoted plain text: accepted exactly when it is an even number of hex digits.
func C29_hextext() {
	n := sym.Choose("len", 5)
	t := sym.Bytes("text", n)
	for _, c := range t {
		sym.Assume(sym.And(c >= 0x20, c < 0x7f, c != '"', c != '\\'))
	}
	ok := n%2 == 0
	var want []byte
	for i := 0; ok && i < n; i += 2 {
		a, x := hexVal(t[i])
		b, y := hexVal(t[i+1])
		ok = x && y
		want = append(want, a<<4|b)
	}
	var g bin.HexBytes
	err := g.UnmarshalJSON([]byte("\"" + string(t) + "\""))
	sym.Assert((err == nil) == ok, "accepted exactly when it is hex")
	if ok {
		sym.Assert(len(g) == len(want) && sym.BytesEq([]byte(g), want), "the bytes spelled")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

func C29_bool() {
	old := bin.Bool(sym.Bool("old"))
	direct := sym.Choose("direct", 2) == 1
	un := func(s []byte, b *bin.Bool) error {
		if direct {
			return b.UnmarshalJSON(s)
		}
		return json.Unmarshal(s, b)
	}
	switch sym.Choose("form", 3) {
	case 0:
		v := sym.Bool("v")
		txt, err := json.Marshal(bin.Bool(v))
		sym.Assert(err == nil, "marshal")
		if v {
			sym.Assert(string(txt) == "true", "true")
		} else {
			sym.Assert(string(txt) == "false", "false")
		}
		sym.Assert(un(txt, &old) == nil && bool(old) == v, "read back")
		sym.Reach("literal")
	case 1:
		v := sym.I64("v")
		txt, err := json.Marshal(v)
		sym.Assert(err == nil, "number")
		sym.Assert(un(txt, &old) == nil && bool(old) == (v != 0), "number read as non-zero")
		sym.Reach("number")
	case 2:
		was := old
		bad := []string{"\"true\"", "{}", "[]", "tru", "\"1\""}[sym.Choose("bad", 5)]
		sym.Assert(un([]byte(bad), &old) != nil, "other JSON is refused")
		sym.Assert(old == was, "refusal leaves the target")
		sym.Reach("refused")
	}
	sym.Observe("b", bool(old))
}

// The float wrapper reads a number plain or quoted.
func C29_float() {
	direct := sym.Choose("direct", 2) == 1
	g := bin.JSONFloat64(sym.F64("old"))
	un := func(s string) error {
		if direct {
			return g.UnmarshalJSON([]byte(s))
		}
		return json.Unmarshal([]byte(s), &g)
	}
	switch sym.Choose("kind", 3) {
	case 0:
		s := sym.DecText(0, sym.U64("hi"), sym.U64("lo"))
		if sym.Choose("negative", 2) == 1 {
			s = "-" + s
		}
		want, err := strconv.ParseFloat(s, 64)
		sym.Assert(err == nil, "in range")
		if sym.Choose("form", 2) == 1 {
			s = "\"" + s + "\""
		}
		sym.Assert(un(s) == nil, "accepted")
		sym.Assert(math.Float64bits(float64(g)) == math.Float64bits(want), "the number denoted")
		sym.Reach("integers")
	case 1:
		k := sym.Choose("text", 6)
		s := []string{"0", "1.5", "-2.25e3", "1e-7", "4.9e-324", "1.7976931348623157e308"}[k]
		want := []float64{0, 1.5, -2250, 1e-7, 5e-324, math.MaxFloat64}[k]
		if sym.Choose("form", 2) == 1 {
			s = "\"" + s + "\""
		}
		sym.Assert(un(s) == nil && float64(g) == want, "fractions and exponents")
		sym.Reach("fractions")
	case 2:
		was := math.Float64bits(float64(g))
		bad := []string{"", "true", "{}", "\"x\"", "\"\"", "\"1e999\"", "1e999", "[1]", "\"1 \"", "-", "\""}[sym.Choose("bad", 11)]
		sym.Assert(un(bad) != nil, "other texts are refused")
		sym.Assert(math.Float64bits(float64(g)) == was, "refusal leaves the target")
		sym.Reach("refused")
	}
}

// Malformed integer texts are refused and leave the target.
func C29_refused() {
	direct := sym.Choose("direct", 2) == 1
	bad := []string{"", "true", "{}", "\"x\"", "\"\"", "1.5", "\"1.5\"", "1e3", "\"1e3\"", "[1]", "\"1 \"", "-", "\"", "\"0x10\""}[sym.Choose("bad", 14)]
	if sym.Choose("signed", 2) == 1 {
		g := bin.Int64(sym.I64("old"))
		was := g
		var err error
		if direct {
			err = g.UnmarshalJSON([]byte(bad))
		} else {
			err = json.Unmarshal([]byte(bad), &g)
		}
		sym.Assert(err != nil && g == was, "Int64 refuses other texts")
	} else {
		g := bin.Uint64(sym.U64("old"))
		was := g
		var err error
		if direct {
			err = g.UnmarshalJSON([]byte(bad))
		} else {
			err = json.Unmarshal([]byte(bad), &g)
		}
		sym.Assert(err != nil && g == was, "Uint64 refuses other texts")
	}
	sym.Reach("refused")
}
