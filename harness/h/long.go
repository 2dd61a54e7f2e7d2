package h

import (
	"math"
	"reflect"
	"strconv"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// caseOf classifies a concrete ASCII character.
func caseOf(c byte) cchar {
	s := string([]byte{c})
	switch {
	case c >= 'a' && c <= 'z':
		return cchar{s, s, string([]byte{c - 32}), cLower}
	case c >= 'A' && c <= 'Z':
		return cchar{s, string([]byte{c + 32}), s, cUpper}
	case c >= '0' && c <= '9':
		return cchar{s, s, s, cDigit}
	}
	return cchar{s, "", "", cSep}
}

const longName = "getHTTPServer2XForAccount_infoV3__tokenABCDe9fGhI-initialize32Bytes.MINTAuthorityPDAbump7"

// longWord: an identifier of many words with three arbitrary ASCII characters at some place.
func longWord() *cword {
	n := []int{8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130, 257}[sym.Choose("length", 12)]
	at := []int{0, n/2 - 1, n - 3}[sym.Choose("at", 3)]
	w := &cword{}
	for i := 0; i < n; i++ {
		if i >= at && i < at+3 {
			w.add(caseASCII())
		} else {
			w.add(caseOf(longName[i%len(longName)]))
		}
	}
	return w
}

// Long identifiers.
func C23_long() {
	caseOK(longWord())
	sym.Reach("long")
}

// Names of many characters, through the instruction and account forms; long namespaces.
func C22_longForms() {
	w := longWord()
	sighashOK(bin.SighashInstruction(w.text), "global", refSnake(w), "SighashInstruction")
	sighashOK(bin.SighashAccount(w.text), "account", refPascal(w), "SighashAccount")
	ns := sym.String("ns", []int{20, 64, 300}[sym.Choose("ns", 3)])
	sighashOK(bin.Sighash(ns, w.text), ns, w.text, "Sighash")
	sym.Reach("long")
}

func longBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 5)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		b[i] = sym.U8("byte")
	}
	return b
}

// Long byte slices print in full.
func C31_long() {
	n := []int{4, 5, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 257}[sym.Choose("n", 14)]
	b := longBytes(n)
	if n > 17 {
		b[n/2] = 3
	}
	s, ok := eatList(bin.FormatByteSlice(b), b)
	sym.Assert(ok, "lists the bytes in decimal, in order")
	sym.Assert(s == "(len="+strconv.Itoa(n)+")", "then the length")
	sym.Reach("long")
}

// Many writes, and long ones, from a buffer that is reused.
func C31_many() {
	k := []int{4, 8, 9, 10, 11, 12, 16, 17, 33, 64, 65, 100, 101, 130, 300}[sym.Choose("writes", 15)]
	unit := []int{1, 7, 65}[sym.Choose("unit", 3)]
	rec := bin.NewWriteByWrite("rec")
	buf := make([]byte, 400)
	var all []byte
	var each [][]byte
	for i := 0; i < k; i++ {
		n := i * unit % 331
		p := buf[:n]
		for j := range p {
			p[j] = byte(i + j)
		}
		if n > 0 && (i == k-1 || i == k/2) {
			p[n-1] = sym.U8("last")
		}
		data := append([]byte{}, p...)
		m, err := rec.Write(p)
		sym.Assert(err == nil && m == n, "write accepted whole")
		all = append(all, data...)
		each = append(each, data)
	}
	sym.Assert(sym.BytesEq(rec.Bytes(), all), "all writes, concatenated")
	if len(all) > 200 {
		sym.Reach("bytes")
		return
	}
	s, ok := eat(rec.String(), "rec:\n")
	for i, w := range each {
		var o bool
		s, o = eat(s, "- "+strconv.Itoa(i)+": ")
		ok = ok && o
		s, o = eatList(s, w)
		ok = ok && o
		s, o = eat(s, "(len="+strconv.Itoa(len(w))+")\n")
		ok = ok && o
	}
	sym.Assert(ok && s == "", "the listing shows each write")
	sym.Reach("listing")
}

// Long texts with arbitrary bytes at some place, read with invalid UTF-8 replaced; the neighbours are one- or two-byte characters.
func C28_safeLong() {
	n := []int{8, 16, 17, 32, 33, 64, 65, 130, 257, 1025}[sym.Choose("len", 10)]
	at := []int{0, n/2 - 1, n - 2}[sym.Choose("at", 3)]
	wide := sym.Choose("wide", 2) == 1
	text := make([]byte, n)
	for i := range text {
		text[i] = 'a' + byte(i%26)
		if wide {
			text[i] = []byte{0xc3, 0xa8}[(i+n)%2]
		}
	}
	copy(text[at:], sym.Bytes("text", 2))
	want := refFix(text)
	e := n % 3
	data := append(append(refLen(nil, e, n), text...), 7)
	d := newDec(e, data)
	s, err := d.SafeReadUTF8String()
	sym.Assert(err == nil, "accepted")
	sym.Assert(sym.StrEq(s, string(want)), "invalid bytes replaced, the rest kept")
	sym.Assert(d.Remaining() == 1, "cursor after the text")
	sym.Reach("safe")
}

// Long byte slices and strings through every reader.
func C28_long() {
	e := chooseEnc()
	s := append(append([]int{}, sizesShort...), sizesLong...)
	n := s[sym.Choose("size", len(s))]
	text := longBytes(n)
	op := sym.Choose("op", 6)
	var data []byte
	if op == 2 {
		data = le(nil, uint64(n), 8)
	} else {
		data = refLen(nil, e, n)
	}
	size := len(data)
	data = append(append(data, text...), 9, 9)
	d := newDec(e, data)
	var got []byte
	var err error
	switch op {
	case 0:
		got, err = d.ReadByteSlice()
	case 1:
		var s string
		s, err = d.ReadString()
		got = []byte(s)
	case 2:
		var s string
		s, err = d.ReadRustString()
		got = []byte(s)
	case 3:
		var h bin.HexBytes
		err = d.Decode(&h)
		got = []byte(h)
	case 4:
		_ = d.Discard(size)
		got, err = d.ReadNBytes(n)
	case 5:
		_ = d.SkipBytes(uint(size))
		var p []byte
		p, err = d.Peek(n)
		sym.Assert(err == nil && d.Position() == uint(size) && sym.BytesEq(p, text), "peek")
		got = make([]byte, n)
		var k int
		k, err = d.Read(got)
		sym.Assert(k == n, "read")
	}
	sym.Assert(err == nil, "accepted")
	sym.Assert(len(got) == n && sym.BytesEq(got, text), "exactly the announced bytes")
	sym.Assert(d.Remaining() == 2, "cursor after the item")
	sym.Reach("long")
}

// Long hex texts.
func C29_hexLong() {
	n := []int{9, 16, 20, 31, 32, 33, 64, 65, 128, 256, 257, 1025}[sym.Choose("n", 12)]
	v := longBytes(n)
	h := bin.HexBytes(v)
	sym.Assert(sym.StrEq(h.String(), refHex(v)), "String is the hex text")
	txt, err := h.MarshalJSON()
	sym.Assert(err == nil && sym.StrEq(string(txt), "\""+refHex(v)+"\""), "quoted hex text")
	var g bin.HexBytes
	sym.Assert(g.UnmarshalJSON(txt) == nil && sym.BytesEq(g, v), "back to the same bytes")
	sym.Reach("hex")
}

// spread maps 0..n-1 onto itself, far from order.
func spread(i, n int) int {
	m := n/2 + 1
	for gcd(m, n) != 1 {
		m++
	}
	return (i*m + 3) % n
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// Maps of many entries: the i-th key in ascending order, for each kind.
func C16_long() {
	k := &keyKinds[sym.Choose("key", len(keyKinds))]
	n := []int{5, 8, 12, 13, 14, 21, 33, 50, 65, 130}[sym.Choose("n", 10)]
	b := &B{e: eBorsh}
	b.length(n)
	p := k.m()
	mt := reflect.TypeOf(p).Elem()
	keys := make([]reflect.Value, n)
	vals := make([]uint16, n)
	for i := 0; i < n; i++ {
		key := reflect.New(mt.Key()).Elem()
		x := i - n/2
		switch {
		case mt.Key().Kind() == reflect.String:
			s := append([]byte{byte('a' + i/16), byte('a' + i%16/4)}, "aaa"[:i%4]...)
			key.SetString(string(s))
			b.out = append(le(b.out, uint64(len(s)), 4), s...)
		case mt.Key().Kind() == reflect.Float32:
			f := float32(x) * 1.5e10
			key.SetFloat(float64(f))
			b.out = le(b.out, uint64(math.Float32bits(f)), 4)
		case mt.Key().Kind() == reflect.Float64:
			f := float64(x) * 1.5e200
			key.SetFloat(f)
			b.out = le(b.out, math.Float64bits(f), 8)
		case mt.Key().Kind() >= reflect.Uint:
			w := int(mt.Key().Size())
			u := uint64(i) << uint(8*w-8)
			if w == 1 {
				u = uint64(i)
			}
			if i > 100 {
				u = ^uint64(0)>>uint(64-8*w) - uint64(n-i)
			}
			key.SetUint(u)
			b.out = le(b.out, u, w)
		default:
			w := int(mt.Key().Size())
			y := int64(x) << uint(8*w-8)
			if w == 1 || n > 100 {
				y = int64(x)
			}
			key.SetInt(y)
			b.out = le(b.out, uint64(y), w)
		}
		keys[i] = key
		vals[i] = uint16(i)
		if i == 0 || i == n-1 || i == n/2 {
			vals[i] = sym.U16("val")
		}
		b.out = le(b.out, uint64(vals[i]), 2)
	}
	m := reflect.MakeMap(mt)
	rev := sym.Choose("reversed", 2) == 1
	for i := 0; i < n; i++ {
		j := spread(i, n)
		if rev {
			j = n - 1 - i
		}
		m.SetMapIndex(keys[j], reflect.ValueOf(vals[j]))
	}
	reflect.ValueOf(p).Elem().Set(m)
	out, err := marshal(eBorsh, p)
	sym.Assert(err == nil && sym.BytesEq(out, b.out), k.name+": entries in ascending key order")
	g := k.m()
	sym.Assert(unmarshal(eBorsh, g, out) == nil && sym.Eq(p, g), k.name+": same map")
	sym.Reach(k.name)
}

// A NaN anywhere in a long list is refused by Borsh; without one every float passes.
func C17_long() {
	e := chooseEnc()
	n := []int{4, 8, 9, 16, 17, 33, 64, 65, 130, 257}[sym.Choose("n", 10)]
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	f := &fl{B: &B{e: e}}
	f.length(n)
	var v, g interface{}
	if sym.Choose("wide", 2) == 1 {
		l := make([]float64, n)
		for i := range l {
			if i == at {
				l[i] = f.f64(false)
			} else {
				l[i] = float64(i) * 0.5
				f.out = le(f.out, math.Float64bits(l[i]), 8)
			}
		}
		v, g = &l, new([]float64)
	} else {
		l := make([]float32, n)
		for i := range l {
			if i == at {
				l[i] = f.f32(false)
				if e != eBorsh {
					sym.Assume(l[i] == l[i])
				}
			} else {
				l[i] = float32(i) * 0.5
				f.out = le(f.out, uint64(math.Float32bits(l[i])), 4)
			}
		}
		v, g = &l, new([]float32)
	}
	out, err := marshal(e, v)
	derr := unmarshal(e, g, f.out)
	if e == eBorsh && f.nan {
		sym.Assert(err != nil && derr != nil, "NaN refused both ways")
		sym.Reach("nan")
		return
	}
	sym.Assert(err == nil && sym.BytesEq(out, f.out), "encoded bit-exactly")
	sym.Assert(derr == nil, "decoded")
	if !f.nan {
		sym.Assert(sym.Eq(v, g), "same floats")
	}
	sym.Reach("plain")
}
