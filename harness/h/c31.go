package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// decByte checks that s starts with the canonical decimal text of v and returns what follows.
func decByte(s string, v byte) (string, bool) {
	n := 1
	if v >= 100 {
		n = 3
	} else if v >= 10 {
		n = 2
	}
	if len(s) < n {
		return s, false
	}
	x := v
	ok := true
	for i := n - 1; i >= 0; i-- {
		ok = sym.And(ok, s[i] == '0'+x%10)
		x = x / 10
	}
	return s[n:], ok
}

func eat(s, lit string) (string, bool) {
	if len(s) < len(lit) {
		return s, false
	}
	return s[len(lit):], sym.StrEq(s[:len(lit)], lit)
}

// eatList: "{a, b, c}" with decimal elements.
func eatList(s string, b []byte) (string, bool) {
	s, ok := eat(s, "{")
	for i, c := range b {
		if i > 0 {
			var o bool
			s, o = eat(s, ", ")
			ok = ok && o
		}
		var o bool
		s, o = decByte(s, c)
		ok = ok && o
	}
	s, o := eat(s, "}")
	return s, ok && o
}

func lenText(n int) string { return "(len=" + string([]byte{'0' + byte(n)}) + ")" }

// Every byte slice up to the bound: its printed form lists its bytes and length.
func C31_format() {
	n := sym.Choose("len", 4)
	b := sym.Bytes("b", n)
	s, ok := eatList(bin.FormatByteSlice(b), b)
	sym.Assert(ok, "lists the bytes in decimal, in order")
	sym.Assert(sym.StrEq(s, lenText(n)), "then the length")
	sym.Reach("slice")
}

func C31_discriminator() {
	var d [8]byte
	k := sym.Choose("byte", 8)
	for i := range d {
		d[i] = byte(10 + i*31)
	}
	d[k] = sym.U8("v")
	s, ok := eatList(bin.FormatDiscriminator(d), d[:])
	sym.Assert(ok && s == "", "lists the eight bytes in decimal, in order")
	sym.Reach("discriminator")
}

// Every sequence of writes from a buffer the caller reuses: the recorder keeps each write as it was.
func C31_recorder() {
	name := []string{"", "rec"}[sym.Choose("named", 2)]
	rec := bin.NewWriteByWrite(name)
	k := sym.Choose("writes", 4)
	reuse := sym.Choose("reuse", 2) == 1
	buf := make([]byte, 4)
	var all []byte
	var each [][]byte
	for i := 0; i < k; i++ {
		n := sym.Choose("len", 3)
		data := sym.Bytes("data", n)
		p := buf[:n]
		if !reuse {
			p = make([]byte, n)
		}
		copy(p, data)
		m, err := rec.Write(p)
		sym.Assert(err == nil && m == n, "write accepted whole")
		sym.Assert(sym.BytesEq(p, data), "the caller's buffer is untouched")
		all = append(all, data...)
		each = append(each, data)
		if sym.Choose("look", 2) == 1 {
			sym.Assert(sym.BytesEq(rec.Bytes(), all), "what was written so far")
		}
	}
	for i := range buf {
		buf[i] = 0xee
	}
	got := rec.Bytes()
	sym.Assert(len(got) == len(all) && sym.BytesEq(got, all), "all writes, concatenated")
	for i := range got {
		got[i] ^= 0xff
	}
	sym.Assert(sym.BytesEq(rec.Bytes(), all), "the returned copy is the caller's own")
	sym.Observe("all", all)
	sym.Reach("bytes")
	total := len(all)
	if total > 2 && sym.Tier() == 0 {
		return
	}
	s := rec.String()
	ok := true
	if name != "" {
		s, ok = eat(s, "rec:\n")
	}
	for i, w := range each {
		var o bool
		s, o = eat(s, "- "+string([]byte{'0' + byte(i)})+": ")
		ok = ok && o
		s, o = eatList(s, w)
		ok = ok && o
		s, o = eat(s, lenText(len(w))+"\n")
		ok = ok && o
	}
	sym.Assert(ok && s == "", "the listing shows each write")
	sym.Reach("listing")
}

// As the sink of an encoder it records exactly what a plain buffer would hold.
func C31_sink() {
	e := chooseEnc()
	type pair struct {
		A uint32
		S string
		B []uint16
	}
	v := pair{A: sym.U32("a"), S: sym.String("s", sym.Choose("len", 3)), B: []uint16{sym.U16("b")}}
	rec := bin.NewWriteByWrite("w")
	sym.Assert(newEnc(e, rec).Encode(&v) == nil, "encodes")
	want, err := marshal(e, &v)
	sym.Assert(err == nil && sym.BytesEq(rec.Bytes(), want), "same bytes as a buffer")
	sym.Assert(bin.IsByteSlice(want) && !bin.IsByteSlice(v.S) && !bin.IsByteSlice(nil), "byte slices are recognised")
	sym.Reach("sink")
}
