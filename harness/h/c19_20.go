package h

import (
	"bytes"
	"errors"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func byteCount(e int, v interface{}) (uint64, error) {
	switch e {
	case eBin:
		return bin.BinByteCount(v)
	case eBorsh:
		return bin.BorshByteCount(v)
	}
	return bin.CompactU16ByteCount(v)
}

func mustByteCount(e int, v interface{}) uint64 {
	switch e {
	case eBin:
		return bin.MustBinByteCount(v)
	case eBorsh:
		return bin.MustBorshByteCount(v)
	}
	return bin.MustCompactU16ByteCount(v)
}

// Byte-count functions, written counter, marshalled length and what reaches the writer agree for every catalogue value.
func C19_counts() {
	e := chooseEnc()
	en := pickEntry(e, nil)
	b := &B{e: e}
	v, _ := en.mk(b)
	out, err := marshal(e, v)
	n, cerr := byteCount(e, v)
	if b.bad {
		sym.Assert(err != nil && cerr != nil, en.name+": refused by all alike")
		return
	}
	sym.Assert(err == nil && cerr == nil, en.name+": encodes")
	sym.Assert(n == uint64(len(out)), en.name+": byte count is the encoded length")
	sym.Assert(mustByteCount(e, v) == n, en.name+": Must variant agrees")
	var buf bytes.Buffer
	pre := sym.Bytes("pre", 2)
	enc := newEnc(e, &buf)
	sym.Assert(enc.WriteBytes(pre, false) == nil && enc.Written() == 2, "raw bytes counted")
	sym.Assert(enc.Encode(v) == nil, en.name+": encodes to a writer")
	sym.Assert(enc.Written() == len(out)+2, en.name+": written counter")
	if b.free {
		sym.Assert(buf.Len() == len(out)+2, en.name+": writer received as many bytes")
	} else {
		sym.Assert(sym.BytesEq(buf.Bytes(), append(append([]byte{}, pre...), out...)), en.name+": writer received exactly the marshalled output")
	}
	rec := bin.NewWriteByWrite("x")
	enc = newEnc(e, rec)
	sym.Assert(enc.Encode(v) == nil && enc.Written() == len(out), en.name+": recorded write by write")
	if b.free {
		sym.Assert(len(rec.Bytes()) == len(out), en.name+": recorded bytes")
	} else {
		sym.Assert(sym.BytesEq(rec.Bytes(), out), en.name+": recorded bytes are the output")
	}
	sym.Reach(en.name)
}

// Typed writers: the counter advances by what each emits.
func C19_typed() {
	e := chooseEnc()
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	check := func(name string, err error, want int) {
		sym.Assert(err == nil, name+": writes")
		sym.Assert(enc.Written() == buf.Len(), name+": counter equals bytes produced")
		if want >= 0 {
			sym.Assert(buf.Len() == want, name+": size")
		}
	}
	raw := sym.Bytes("raw", sym.Choose("len", 4))
	pl := len(refLen(nil, e, len(raw)))
	n := 0
	err := enc.WriteBytes(raw, true)
	n += pl + len(raw)
	check("WriteBytes", err, n)
	err = enc.WriteBytes(raw, false)
	n += len(raw)
	check("WriteBytes raw", err, n)
	k, err := enc.Write(raw)
	n += len(raw)
	sym.Assert(k == len(raw), "Write returns the length")
	check("Write", err, n)
	err = enc.WriteString(string(raw))
	n += pl + len(raw)
	check("WriteString", err, n)
	err = enc.WriteRustString(string(raw))
	n += 8 + len(raw)
	check("WriteRustString", err, n)
	ln := int(sym.U16("ln"))
	check("WriteLength", enc.WriteLength(ln), -1)
	check("WriteCompactU16", enc.WriteCompactU16(ln), -1)
	check("WriteUVarInt", enc.WriteUVarInt(sym.Int("uv")), -1)
	n = buf.Len()
	ss := scalars()
	s := &ss[sym.Choose("scalar", len(ss))]
	lo, hi := s.draw()
	if e == eBorsh {
		sym.Assume(sym.Not(s.nan(lo)))
	}
	err = s.write(enc, orderOf(true), lo, hi)
	check(s.name, err, n+s.size)
	sym.Reach(s.name)
}

var errSink = errors.New("sink failed")

// failWriter accepts k writes, then takes `part` bytes of the next and fails (once, or for ever).
type failWriter struct {
	buf    bytes.Buffer
	k      int
	part   int
	once   bool
	failed int
	calls  int
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.k == 0 && !(w.once && w.failed > 0) {
		w.failed++
		n := w.part
		if n > len(p) {
			n = len(p)
		}
		if w.failed == 1 {
			w.buf.Write(p[:n])
		}
		return n, errSink
	}
	if w.k > 0 {
		w.k--
	}
	if w.failed == 0 {
		w.buf.Write(p)
	}
	return len(p), nil
}

// The sink fails at its k-th write, for every k: the encode call reports it, what was accepted is a prefix of the encoding, and without failure there is none.
func C20_failing() {
	e := chooseEnc()
	en := pickEntry(e, func(en *entry) bool { return en.name == "long" && sym.Tier() == 0 })
	b := &B{e: e, few: true}
	v, _ := en.mk(b)
	if b.bad {
		return
	}
	ok := &failWriter{k: -1}
	sym.Assert(newEnc(e, ok).Encode(v) == nil, en.name+": no failure, no error")
	full := ok.buf.Bytes()
	sym.Assert(len(full) == len(b.out), en.name+": everything written")
	once := sym.Choose("once", 2) == 1
	step := 1
	if ok.calls > 200 {
		step = ok.calls / 20
	}
	for k := 0; k < ok.calls; k += step {
		w := &failWriter{k: k, part: k % 3, once: once}
		err := newEnc(e, w).Encode(v)
		sym.Assert(err != nil, en.name+": a failed write is reported")
		if !b.free {
			got := w.buf.Bytes()
			sym.Assert(len(got) <= len(full) && sym.BytesEq(got, full[:len(got)]), en.name+": accepted bytes are a prefix of the encoding")
		}
	}
	sym.Reach(en.name)
}

// The typed writers on a failing sink.
func C20_typed() {
	e := chooseEnc()
	ss := scalars()
	op := sym.Choose("op", len(ss)+10)
	k := sym.Choose("k", 2)
	part := sym.Choose("part", 2)
	raw := sym.Bytes("raw", 1+sym.Choose("len", 2))
	num := int(sym.U16("n"))
	lo, hi := uint64(0), uint64(0)
	if op < len(ss) {
		lo, hi = ss[op].draw()
		sym.Assume(sym.Not(ss[op].nan(lo)))
	}
	run := func(w *failWriter) error {
		enc := newEnc(e, w)
		if op < len(ss) {
			return ss[op].write(enc, orderOf(true), lo, hi)
		}
		switch op - len(ss) {
		case 0:
			return enc.WriteBytes(raw, true)
		case 1:
			return enc.WriteBytes(raw, false)
		case 2:
			_, err := enc.Write(raw)
			return err
		case 3:
			return enc.WriteString(string(raw))
		case 4:
			return enc.WriteRustString(string(raw))
		case 5:
			return enc.WriteLength(num)
		case 6:
			return enc.WriteCompactU16(num)
		case 7:
			return enc.WriteCompactU16Length(num)
		case 8:
			return enc.WriteVarInt(num)
		}
		return enc.WriteUVarInt(num)
	}
	good := &failWriter{k: -1}
	sym.Assert(run(good) == nil, "no failure, no error")
	if k >= good.calls {
		sym.Assert(run(&failWriter{k: k}) == nil, "a failure after the last write is not reached")
		sym.Reach("after")
		return
	}
	w := &failWriter{k: k, part: part, once: true}
	sym.Assert(run(w) != nil, "a failed write is reported")
	got := w.buf.Bytes()
	sym.Assert(len(got) <= good.buf.Len() && sym.BytesEq(got, good.buf.Bytes()[:len(got)]), "accepted bytes are a prefix")
	sym.Reach("failed")
}

type cntFail struct {
	A uint8
	B cntFailing
}

type cntFailing struct{ fail bool }

func (c cntFailing) MarshalWithEncoder(enc *bin.Encoder) error {
	if c.fail {
		return errCount
	}
	return enc.WriteUint16(7, bin.LE)
}

var errCount = errors.New("cannot be encoded")

// A value that cannot be encoded has no byte count: an error, and a panic from the Must form.
func C19_fails() {
	e := chooseEnc()
	v := &cntFail{A: sym.U8("a"), B: cntFailing{sym.Bool("fail")}}
	n, err := byteCount(e, v)
	var m uint64
	p := panics(func() { m = mustByteCount(e, v) })
	if v.B.fail {
		sym.Assert(err != nil && p, "no count of what cannot be encoded")
		sym.Assert(errors.Is(err, errCount), "the cause is kept")
		sym.Reach("fails")
		return
	}
	sym.Assert(err == nil && n == 3 && !p && m == 3, "count")
	sym.Reach("counts")
}
