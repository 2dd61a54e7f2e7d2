package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// refFix rewrites every byte that is not part of a well-formed UTF-8 sequence
// (Unicode table 3-7) as U+FFFD.
func refFix(b []byte) []byte {
	cont := func(i int, lo, hi byte) bool { return i < len(b) && b[i] >= lo && b[i] <= hi }
	var out []byte
	for i := 0; i < len(b); {
		c := b[i]
		n := 0
		switch {
		case c < 0x80:
			n = 1
		case c < 0xc2:
		case c < 0xe0:
			if cont(i+1, 0x80, 0xbf) {
				n = 2
			}
		case c < 0xf0:
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xe0 {
				lo = 0xa0
			}
			if c == 0xed {
				hi = 0x9f
			}
			if cont(i+1, lo, hi) && cont(i+2, 0x80, 0xbf) {
				n = 3
			}
		case c < 0xf5:
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xf0 {
				lo = 0x90
			}
			if c == 0xf4 {
				hi = 0x8f
			}
			if cont(i+1, lo, hi) && cont(i+2, 0x80, 0xbf) && cont(i+3, 0x80, 0xbf) {
				n = 4
			}
		}
		if n == 0 {
			out = append(out, 0xef, 0xbf, 0xbd)
			i++
			continue
		}
		out = append(out, b[i:i+n]...)
		i += n
	}
	return out
}

// The UTF-8-safe read of every text.
func C28_safe() {
	max := 5
	if sym.Tier() > 0 {
		max = 7
	}
	text := sym.Bytes("text", sym.Choose("len", max))
	e := eBorsh
	if len(text) <= 3 {
		e = chooseEnc()
	}
	tail := sym.Bytes("tail", 1)
	data := append(append(refLen([]byte{0xff}, e, len(text)), text...), tail...)
	want := refFix(text)
	if len(text) > 3 || sym.Choose("how", 2) == 0 {
		d := newDec(e, data)
		_, _ = d.ReadByte()
		s, err := d.SafeReadUTF8String()
		sym.Assert(err == nil, "accepted")
		sym.Assert(sym.StrEq(s, string(want)), "invalid bytes replaced, the rest kept")
		sym.Assert(d.Remaining() == len(tail), "cursor after the text")
		sym.Observe("text", s)
		sym.Reach("reader")
		return
	}
	var s bin.SafeString
	d := newDec(e, data)
	_, _ = d.ReadByte()
	sym.Assert(d.Decode(&s) == nil, "accepted as SafeString")
	sym.Assert(sym.StrEq(string(s), string(want)), "SafeString: invalid bytes replaced, the rest kept")
	sym.Assert(d.Remaining() == len(tail), "SafeString: cursor after the text")
	sym.Observe("text", string(s))
	sym.Reach("SafeString")
}

// refPrefix reads a length prefix: its value, its size, and whether it is one.
func refPrefix(e int, b []byte) (n uint64, size int, ok bool) {
	switch e {
	case eBin:
		size = uvLen(b)
		for i := 0; i < size; i++ {
			n |= uint64(b[i]&0x7f) << (7 * uint(i))
		}
		return n, size, size > 0
	case eBorsh:
		if len(b) < 4 {
			return 0, 0, false
		}
		return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24, 4, true
	}
	for i := 0; i < 3 && i < len(b); i++ {
		n |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			if i > 0 && b[i] == 0 || n > 0xffff {
				return 0, 0, false
			}
			return n, i + 1, true
		}
	}
	return 0, 0, false
}

// Every buffer: string and byte-slice reads return exactly the announced bytes, or an error when they are not there.
func C28_prefixed() {
	e := chooseEnc()
	max := 11
	if e == eCompact {
		max = 7
	}
	if sym.Tier() > 0 {
		max += 3
	}
	data := roomy(sym.Bytes("data", sym.Choose("len", max)))
	op := sym.Choose("op", 7)
	d := newDec(e, data)
	var n uint64
	var size int
	var ok bool
	if op == 2 || op == 5 && e == eBin {
		ok = len(data) >= 8
		if ok {
			size = 8
			for i := 7; i >= 0; i-- {
				n = n<<8 | uint64(data[i])
			}
		}
	} else {
		n, size, ok = refPrefix(e, data)
	}
	var got []byte
	var err error
	switch op {
	case 0:
		got, err = d.ReadByteSlice()
	case 1:
		var s string
		s, err = d.ReadString()
		got = []byte(s)
	case 2:
		var s string
		s, err = d.ReadRustString()
		got = []byte(s)
	case 3:
		var l int
		l, err = d.ReadLength()
		sym.Assert((err == nil) == sym.And(ok, n <= 0x7fffffff), "ReadLength accepts every well-formed length below 2^31")
		if err == nil {
			sym.Assert(uint64(l) == n && d.Position() == uint(size), "ReadLength: value and cursor")
			sym.Reach("length")
		}
		sym.Observe("l", l)
		return
	case 4:
		err = d.Decode(&got)
	case 5:
		var s string
		err = d.Decode(&s)
		got = []byte(s)
	case 6:
		var h bin.HexBytes
		err = d.Decode(&h)
		got = []byte(h)
	}
	if !ok || n > uint64(len(data)-size) {
		sym.Assert(err != nil, "missing bytes are refused")
		sym.Assert(d.Position() <= uint(len(data)), "cursor in bounds after a refusal")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "complete item is accepted")
	k := int(n)
	sym.Assert(len(got) == k, "as many bytes as announced")
	sym.Assert(sym.BytesEq(got, data[size:size+k]), "exactly the announced bytes")
	sym.Assert(d.Position() == uint(size+k), "cursor after the item")
	sym.Observe("got", got)
	sym.Reach("read")
}

// Raw reads, peeks, discards and skips pass exactly the next n bytes, for every n and position.
func C28_raw() {
	e := chooseEnc()
	max := 5
	if sym.Tier() > 0 {
		max = 9
	}
	L := sym.Choose("len", max)
	data := roomy(sym.Bytes("data", L))
	pos := 0
	if L > 0 {
		pos = sym.Choose("pos", L)
	}
	d := newDec(e, data)
	if pos > 0 {
		sym.Assert(d.SetPosition(uint(pos)) == nil, "position")
	}
	n := sym.Int("n")
	op := sym.Choose("op", 6)
	var got []byte
	var err error
	keep, has := false, true
	switch op {
	case 0:
		got, err = d.ReadNBytes(n)
	case 1:
		got, err = d.ReadBytes(n)
	case 2:
		got, err = d.Peek(n)
		keep = true
	case 3:
		err = d.Discard(n)
		has = false
	case 4:
		err = d.SkipBytes(uint(n))
		has = false
	case 5:
		// all or nothing
		k := sym.Choose("buffer", 4)
		buf := make([]byte, k)
		m, err := d.Read(buf)
		if k > L-pos {
			sym.Assert(err != nil && m == 0 && d.Position() == uint(pos), "Read: refused whole when not enough remains")
			sym.Reach("Read short")
			return
		}
		sym.Assert(err == nil && m == k && d.Position() == uint(pos+k), "Read: fills the buffer")
		sym.Assert(sym.BytesEq(buf, data[pos:pos+k]), "Read: the next bytes")
		sym.Observe("buf", buf)
		sym.Reach("Read")
		return
	}
	if n < 0 || n > L-pos {
		sym.Assert(err != nil, "missing bytes or a negative count are refused")
		sym.Assert(d.Position() == uint(pos), "refusal leaves the cursor")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "available bytes are granted")
	if has {
		sym.Assert(len(got) == n && sym.BytesEq(got, data[pos:pos+n]), "exactly the next n bytes")
		sym.Observe("got", got)
	}
	if keep {
		sym.Assert(d.Position() == uint(pos), "peek does not move")
	} else {
		sym.Assert(d.Position() == uint(pos+n), "cursor after n bytes")
	}
	sym.Reach("granted")
}

// Strings written are read back unchanged by the matching reader.
func C28_roundtrip() {
	e := chooseEnc()
	text := sym.String("text", sym.Choose("len", 4+4*sym.Tier()))
	var got string
	var err error
	var want []byte
	op := sym.Choose("op", 3)
	out, werr, written := capture(e, func(enc *bin.Encoder) error {
		switch op {
		case 0:
			want = refLen(nil, e, len(text))
			return enc.WriteString(text)
		case 1:
			want = le(nil, uint64(len(text)), 8)
			return enc.WriteRustString(text)
		}
		want = refLen(nil, e, len(text))
		return enc.WriteBytes([]byte(text), true)
	})
	sym.Assert(werr == nil && written == len(out), "written")
	sym.Assert(sym.BytesEq(out, append(want, text...)), "prefix and text")
	d := newDec(e, append(append([]byte{}, out...), 0x80))
	switch op {
	case 0:
		got, err = d.ReadString()
	case 1:
		got, err = d.ReadRustString()
	case 2:
		var b []byte
		b, err = d.ReadByteSlice()
		got = string(b)
	}
	sym.Assert(err == nil && sym.StrEq(got, text), "read back unchanged")
	sym.Assert(d.Remaining() == 1, "cursor after the text")
	sym.Observe("got", got)
	sym.Reach("done")
}
