// Package h holds the property harnesses. Names Cnn_* are entry points.
package h

import (
	"bytes"
	"encoding/binary"
	"io"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

var _ = io.EOF

// the three encodings
const (
	eBin = iota
	eBorsh
	eCompact
)

func encName(e int) string { return []string{"bin", "borsh", "compact-u16"}[e] }

func encOf(e int) bin.Encoding {
	switch e {
	case eBin:
		return bin.EncodingBin
	case eBorsh:
		return bin.EncodingBorsh
	}
	return bin.EncodingCompactU16
}

func chooseEnc() int { return sym.Choose("encoding", 3) }

func newEnc(e int, w io.Writer) *bin.Encoder {
	switch e {
	case eBin:
		return bin.NewBinEncoder(w)
	case eBorsh:
		return bin.NewBorshEncoder(w)
	}
	return bin.NewCompactU16Encoder(w)
}

func newDec(e int, b []byte) *bin.Decoder {
	switch e {
	case eBin:
		return bin.NewBinDecoder(b)
	case eBorsh:
		return bin.NewBorshDecoder(b)
	}
	return bin.NewCompactU16Decoder(b)
}

func marshal(e int, v interface{}) ([]byte, error) {
	switch e {
	case eBin:
		return bin.MarshalBin(v)
	case eBorsh:
		return bin.MarshalBorsh(v)
	}
	return bin.MarshalCompactU16(v)
}

func unmarshal(e int, v interface{}, b []byte) error {
	switch e {
	case eBin:
		return bin.UnmarshalBin(v, b)
	case eBorsh:
		return bin.UnmarshalBorsh(v, b)
	}
	return bin.UnmarshalCompactU16(v, b)
}

func chooseOrder() binary.ByteOrder {
	if sym.Choose("order", 2) == 0 {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func capture(e int, f func(*bin.Encoder) error) ([]byte, error, int) {
	var buf bytes.Buffer
	enc := newEnc(e, &buf)
	err := f(enc)
	return buf.Bytes(), err, enc.Written()
}

// ---- reference formats, written from the specification ----

// le appends the n low bytes of v, least significant first; be the reverse.
func le(dst []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		dst = append(dst, byte(v>>(8*uint(i))))
	}
	return dst
}

func be(dst []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		dst = append(dst, byte(v>>(8*uint(i))))
	}
	return dst
}

func ord(dst []byte, v uint64, n int, big bool) []byte {
	if big {
		return be(dst, v, n)
	}
	return le(dst, v, n)
}

// refUvarint: LEB128, minimal.
func refUvarint(dst []byte, v uint64) []byte {
	for v >= 0x80 {
		dst = append(dst, byte(v&0x7f)|0x80)
		v = v >> 7
	}
	return append(dst, byte(v))
}

// refCompact: Solana compact-u16 (at most 3 bytes).
func refCompact(dst []byte, v int) []byte {
	switch {
	case v < 1<<7:
		return append(dst, byte(v))
	case v < 1<<14:
		return append(dst, byte(v)|0x80, byte(v>>7))
	}
	return append(dst, byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14))
}

// refLen is a slice/map length prefix.
func refLen(dst []byte, e int, n int) []byte {
	switch e {
	case eBin:
		return refUvarint(dst, uint64(n))
	case eBorsh:
		return le(dst, uint64(n), 4)
	}
	return refCompact(dst, n)
}

// refStrLen is a string length prefix.
func refStrLen(dst []byte, e int, n int) []byte {
	switch e {
	case eBin:
		return le(dst, uint64(n), 8)
	case eBorsh:
		return le(dst, uint64(n), 4)
	}
	return refCompact(dst, n)
}

// refOpt is a presence flag of an optional field.
func refOpt(dst []byte, e int, present bool) []byte {
	var f byte
	if present {
		f = 1
	}
	if e == eBin {
		return append(dst, f, 0, 0, 0)
	}
	return append(dst, f)
}

// roomy copies b into a buffer that goes on after it: those bytes are no part of the input.
func roomy(b []byte) []byte {
	out := make([]byte, 0, len(b)+9)
	out = append(append(out, b...), sym.Bytes("beyond", 9)...)
	return out[:len(b)]
}
