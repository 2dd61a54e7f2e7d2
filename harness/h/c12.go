package h

import (
	"bytes"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// Every int: encoding is refused outside 0..65535 (nothing appended), otherwise it is the minimal reference form, appended after what the buffer held.
func C12_encode() {
	n := sym.Int("n")
	pre := sym.Bytes("pre", sym.Choose("prelen", 5))
	// exactly full, or with room for none, some or all of the bytes
	buf := append(make([]byte, 0, len(pre)+sym.Choose("room", 5)), pre...)
	whole := buf[:cap(buf)]
	buf2 := buf
	err := bin.EncodeCompactU16Length(&buf, n)
	ok := n >= 0 && n <= 65535
	sym.Assert((err == nil) == ok, "accepted exactly for 0..65535")
	if !ok {
		sym.Assert(sym.BytesEq(buf, pre), "nothing appended when refused")
		for _, x := range whole[len(pre):] {
			sym.Assert(x == 0, "nothing written when refused")
		}
		sym.Reach("refused")
		return
	}
	sym.Assert(sym.BytesEq(buf, refCompact(append([]byte(nil), pre...), n)), "minimal reference bytes")
	sym.Assert(sym.BytesEq(buf2, pre), "what the buffer held is kept")
	sym.Observe("bytes", buf)
	got, size, derr := bin.DecodeCompactU16(buf[len(pre):])
	sym.Assert(derr == nil, "decodes")
	sym.Assert(got == n && size == len(buf)-len(pre), "decodes to the same number and size")
	sym.Reach("roundtrip")
}

// Every byte string: accepted iff it starts with the canonical form of the number returned; the three decoders agree.
func C12_decode() {
	ln := sym.Choose("len", 6)
	data := roomy(sym.Bytes("data", ln))
	v, size, err := bin.DecodeCompactU16(data)
	r := bytes.NewReader(data)
	v2, err2 := bin.DecodeCompactU16LengthFromByteReader(r)
	e := chooseEnc()
	d := newDec(e, data)
	var v3 int
	var err3 error
	if sym.Choose("method", 2) == 0 {
		v3, err3 = d.ReadCompactU16()
	} else {
		v3, err3 = d.ReadCompactU16Length()
	}
	sym.Assert((err == nil) == (err2 == nil), "slice and byte-reader agree on acceptance")
	sym.Assert((err == nil) == (err3 == nil), "slice and decoder agree on acceptance")
	// acceptance by the specification
	accept := false
	want := 0
	wsize := 0
	if ln >= 1 && data[0] < 0x80 {
		accept, want, wsize = true, int(data[0]), 1
	} else if ln >= 2 && data[1] < 0x80 {
		if data[1] != 0 {
			accept, want, wsize = true, int(data[0]&0x7f)|int(data[1])<<7, 2
		}
	} else if ln >= 3 && data[2] != 0 && data[2] < 0x80 {
		want = int(data[0]&0x7f) | int(data[1]&0x7f)<<7 | int(data[2])<<14
		wsize = 3
		accept = want <= 65535
	}
	sym.Assert((err == nil) == accept, "accepts exactly canonical forms")
	if err != nil {
		sym.Assert(d.Position() == 0, "a refused read leaves the cursor")
		sym.Observe("refused", true)
		sym.Reach("refused")
		return
	}
	sym.Assert(v == want && v2 == want && v3 == want, "value")
	sym.Assert(size == wsize && r.Len() == ln-wsize && d.Position() == uint(wsize), "consumed size")
	var back []byte
	sym.Assert(bin.EncodeCompactU16Length(&back, v) == nil && sym.BytesEq(back, data[:size]), "re-encoding gives the consumed bytes")
	sym.Observe("v", v)
	sym.Reach("accepted")
}

// Encoder methods: same bytes as the function, refusal outside the range, nothing written.
func C12_writer() {
	n := sym.Int("n")
	e := chooseEnc()
	m := sym.Choose("method", 3)
	if m == 2 {
		sym.Assume(e == eCompact)
	}
	out, err, written := capture(e, func(enc *bin.Encoder) error {
		switch m {
		case 0:
			return enc.WriteCompactU16(n)
		case 1:
			return enc.WriteCompactU16Length(n)
		}
		return enc.WriteLength(n)
	})
	ok := n >= 0 && n <= 65535
	sym.Assert((err == nil) == ok, "writer accepts exactly 0..65535")
	if !ok {
		sym.Assert(len(out) == 0 && written == 0, "nothing written when refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(sym.BytesEq(out, refCompact(nil, n)), "writer emits the canonical bytes")
	sym.Assert(written == len(out), "written counter")
	sym.Observe("bytes", out)
	sym.Reach("written")
}
