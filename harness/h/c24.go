package h

import (
	"encoding/binary"
	"encoding/json"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func anyOrder() binary.ByteOrder {
	switch sym.Choose("byte order", 3) {
	case 1:
		return binary.LittleEndian
	case 2:
		return binary.BigEndian
	}
	return nil
}

func be128(hi, lo uint64) []byte {
	var out []byte
	out = be(out, hi, 8)
	return be(out, lo, 8)
}

func hexNibble(n byte) byte {
	return sym.IteU8(n < 10, '0'+n, 'a'+n-10)
}

func refHex(b []byte) string {
	var out []byte
	for _, c := range b {
		out = append(out, hexNibble(c>>4), hexNibble(c&15))
	}
	return string(out)
}

// decIs: s is the canonical decimal text of the number with that sign and magnitude.
func decIs(s string, neg bool, hi, lo uint64) bool {
	if len(s) == 0 {
		return false
	}
	n, h, l, ok := sym.ParseDec(s)
	if !ok {
		return false
	}
	d := s
	if n {
		d = s[1:]
	}
	if len(d) > 1 && d[0] == '0' {
		return false
	}
	return sym.And(n == neg, h == hi, l == lo)
}

// abs128 is the magnitude of the two's complement number.
func abs128(hi, lo uint64) (bool, uint64, uint64) {
	if hi>>63 == 0 {
		return false, hi, lo
	}
	l := -lo
	h := ^hi
	if lo == 0 {
		h++
	}
	return true, h, l
}

// Byte, big-integer and hex views of every 128-bit value.
func C24_views() {
	hi, lo, o := sym.U64("hi"), sym.U64("lo"), anyOrder()
	u := bin.Uint128{Hi: hi, Lo: lo, Endianness: o}
	want := be128(hi, lo)
	sym.Assert(sym.BytesEq(u.Bytes(), want), "big-endian byte view")
	sym.Assert(sym.StrEq(u.HexString(), "0x"+refHex(want)), "hex text")
	v := u.BigInt()
	sym.Assert(v.Sign() >= 0 && v.BitLen() <= 128, "unsigned big integer")
	sym.Assert(sym.BytesEq(v.FillBytes(make([]byte, 16)), want), "big integer value")
	i := bin.Int128{Hi: hi, Lo: lo, Endianness: o}
	w := i.BigInt()
	neg, ah, al := abs128(hi, lo)
	sym.Assert((w.Sign() < 0) == neg, "sign of the big integer")
	sym.Assert(w.BitLen() <= 128, "magnitude of the big integer")
	sym.Assert(sym.BytesEq(w.FillBytes(make([]byte, 16)), be128(ah, al)), "signed big integer value")
	sym.Assert(u.Hi == hi && u.Lo == lo && i.Hi == hi && i.Lo == lo, "value untouched")
	sym.Reach("views")
}

// Decimal text of every 128-bit value.
func C24_decimal() {
	hi, lo, o := sym.U64("hi"), sym.U64("lo"), anyOrder()
	switch sym.Choose("kind", 2) {
	case 0:
		u := bin.Uint128{Hi: hi, Lo: lo, Endianness: o}
		sym.Assert(decIs(u.DecimalString(), false, hi, lo), "decimal text")
		sym.Assert(decIs(u.String(), false, hi, lo), "String")
	case 1:
		i := bin.Int128{Hi: hi, Lo: lo, Endianness: o}
		neg, ah, al := abs128(hi, lo)
		sym.Assert(decIs(i.DecimalString(), neg, ah, al), "signed decimal text")
		sym.Assert(decIs(i.String(), neg, ah, al), "signed String")
	}
	sym.Reach("decimal")
}

func quoted(b []byte) (string, bool) {
	n := len(b)
	if n < 2 || b[0] != '"' || b[n-1] != '"' {
		return "", false
	}
	return string(b[1 : n-1]), true
}

// JSON text of every 128-bit value, and back, for every combination of configured byte orders.
func C24_json() {
	hi, lo := sym.U64("hi"), sym.U64("lo")
	o, o2 := anyOrder(), anyOrder()
	direct := sym.Choose("direct", 2) == 1
	switch sym.Choose("kind", 3) {
	case 0:
		u := bin.Uint128{Hi: hi, Lo: lo, Endianness: o}
		var txt []byte
		var err error
		if direct {
			txt, err = u.MarshalJSON()
		} else {
			txt, err = json.Marshal(u)
		}
		sym.Assert(err == nil, "marshal")
		s, ok := quoted(txt)
		sym.Assert(ok && decIs(s, false, hi, lo), "JSON text is the quoted decimal number")
		g := bin.Uint128{Endianness: o2, Hi: 7, Lo: 9}
		if direct {
			err = g.UnmarshalJSON(txt)
		} else {
			err = json.Unmarshal(txt, &g)
		}
		sym.Assert(err == nil, "unmarshal")
		sym.Assert(g.Hi == hi && g.Lo == lo, "value read back")
	case 1:
		i := bin.Int128{Hi: hi, Lo: lo, Endianness: o}
		neg, ah, al := abs128(hi, lo)
		txt, err := json.Marshal(i)
		sym.Assert(err == nil, "marshal")
		s, ok := quoted(txt)
		sym.Assert(ok && decIs(s, neg, ah, al), "JSON text is the quoted signed decimal number")
		g := bin.Int128{Endianness: o2, Hi: 7, Lo: 9}
		if direct {
			err = g.UnmarshalJSON(txt)
		} else {
			err = json.Unmarshal(txt, &g)
		}
		sym.Assert(err == nil, "unmarshal")
		sym.Assert(g.Hi == hi && g.Lo == lo, "signed value read back")
	case 2:
		f := bin.Float128{Hi: hi, Lo: lo, Endianness: o}
		txt, err := json.Marshal(f)
		sym.Assert(err == nil, "marshal")
		g := bin.Float128{Endianness: o2, Hi: 7, Lo: 9}
		sym.Assert(json.Unmarshal(txt, &g) == nil, "unmarshal")
		sym.Assert(g.Hi == hi && g.Lo == lo, "bits read back")
	}
	sym.Reach("json")
}

// Hex JSON text, as HexString prints it.
func C24_jsonhex() {
	hi, lo, o := sym.U64("hi"), sym.U64("lo"), anyOrder()
	pre := []string{"\"0x", "\"0X"}[sym.Choose("prefix", 2)]
	txt := []byte(pre + refHex(be128(hi, lo)) + "\"")
	if sym.Choose("kind", 2) == 0 {
		g := bin.Uint128{Endianness: o, Hi: 7, Lo: 9}
		sym.Assert(g.UnmarshalJSON(txt) == nil, "unmarshal")
		sym.Assert(g.Hi == hi && g.Lo == lo, "value read from hex")
	} else {
		g := bin.Float128{Endianness: o, Hi: 7, Lo: 9}
		sym.Assert(g.UnmarshalJSON(txt) == nil, "unmarshal")
		sym.Assert(g.Hi == hi && g.Lo == lo, "value read from hex")
	}
	sym.Reach("hex")
}

// Every decimal JSON text up to 2^192: the number it denotes, or an error when out of range.
func C24_text() {
	o := anyOrder()
	signed := sym.Choose("signed", 2) == 1
	neg := sym.Choose("negative", 2) == 1
	top, hi, lo := sym.U64("top"), sym.U64("hi"), sym.U64("lo")
	s := sym.DecText(top, hi, lo)
	if neg {
		sym.Assume(top|hi|lo != 0)
		s = "-" + s
	}
	fits := top == 0
	txt := []byte("\"" + s + "\"")
	if !signed {
		g := bin.Uint128{Endianness: o}
		err := g.UnmarshalJSON(txt)
		if neg || !fits {
			sym.Assert(err != nil, "a number outside 0..2^128-1 must be refused")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "a number in range must be accepted")
		sym.Assert(g.Hi == hi && g.Lo == lo, "value of the text")
		sym.Reach("unsigned")
		return
	}
	var i bin.Int128
	i.Endianness = o
	err := i.UnmarshalJSON(txt)
	in := fits && (hi>>63 == 0 || (neg && hi == 1<<63 && lo == 0))
	if !in {
		sym.Assert(err != nil, "a number outside -2^127..2^127-1 must be refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a number in range must be accepted")
	gn, gh, gl := abs128(i.Hi, i.Lo)
	sym.Assert(gn == neg && gh == hi && gl == lo, "signed value of the text")
	sym.Reach("signed")
}

// Fixed boundary numbers and malformed texts.
func C24_edges() {
	o := anyOrder()
	type e struct {
		s      string
		u, i   bool
		hi, lo uint64
	}
	m := ^uint64(0)
	es := []e{
		{"0", true, true, 0, 0},
		{"-1", false, true, m, m},
		{"18446744073709551615", true, true, 0, m},
		{"18446744073709551616", true, true, 1, 0},
		{"-18446744073709551616", false, true, m, 0},
		{"170141183460469231731687303715884105727", true, true, m >> 1, m},
		{"170141183460469231731687303715884105728", true, false, 1 << 63, 0},
		{"-170141183460469231731687303715884105728", false, true, 1 << 63, 0},
		{"-170141183460469231731687303715884105729", false, false, 0, 0},
		{"340282366920938463463374607431768211455", true, false, m, m},
		{"340282366920938463463374607431768211456", false, false, 0, 0},
		{"-340282366920938463463374607431768211455", false, false, 0, 0},
		{"99999999999999999999999999999999999999999999999999", false, false, 0, 0},
		{"", false, false, 0, 0},
		{"-", false, false, 0, 0},
		{"12a", false, false, 0, 0},
		{"1.5", false, false, 0, 0},
		{"0x", false, false, 0, 0},
		{"0x0123456789abcdef0123456789abcdef0", false, false, 0, 0},
		{"0x0123456789abcdef0123456789abcdeg", false, false, 0, 0},
		{"0x0123456789abcdef0123456789abcdef00112233445566778899", false, false, 0, 0},
	}
	t := es[sym.Choose("text", len(es))]
	txt := []byte("\"" + t.s + "\"")
	g := bin.Uint128{Endianness: o}
	err := g.UnmarshalJSON(txt)
	sym.Assert((err == nil) == t.u, "accepted by Uint128")
	sym.Assert(err != nil || (g.Hi == t.hi && g.Lo == t.lo), "Uint128 value")
	i := bin.Int128{Endianness: o}
	err = i.UnmarshalJSON(txt)
	sym.Assert((err == nil) == t.i, "accepted by Int128")
	sym.Assert(err != nil || (i.Hi == t.hi && i.Lo == t.lo), "Int128 value")
	var f bin.Float128
	_ = f.UnmarshalJSON(txt)
	sym.Reach("edge")
}

// Arbitrary short JSON texts: an error or a value, never a panic.
func C24_hostile() {
	o := anyOrder()
	n := 4
	if sym.Tier() > 0 {
		n = 6
	}
	k := sym.Choose("n", n+1)
	s := sym.Bytes("s", k)
	for i := range s {
		sym.Assume(sym.And(s[i] >= '0', s[i] < 0x7f, s[i] != '\\', s[i] != '_'))
	}
	pre := []string{"", "0x", "0X"}[sym.Choose("prefix", 3)]
	if pre == "" && k > 0 {
		sym.Assume(s[0] != '0')
	}
	txt := []byte("\"" + pre + string(s) + "\"")
	g := bin.Uint128{Endianness: o}
	_ = g.UnmarshalJSON(txt)
	i := bin.Int128{Endianness: o}
	_ = i.UnmarshalJSON(txt)
	sym.Reach("hostile")
}
