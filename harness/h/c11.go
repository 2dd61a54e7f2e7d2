package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

const alLimit = 16 << 10

// alHostile: targets whose decoding takes a count from the input, with element sizes from 1 to 4096 bytes.
var alHostile = []struct {
	name string
	mk   func() interface{}
	encs int
}{
	{"string", func() interface{} { return new(string) }, onAll},
	{"named string", func() interface{} { return new(nStr) }, onAll},
	{"[]byte", func() interface{} { return new([]byte) }, onAll},
	{"named []byte", func() interface{} { return new(nRaw) }, onAll},
	{"[]named uint8", func() interface{} { return new([]nU8) }, onAll},
	{"[]uint16", func() interface{} { return new([]uint16) }, onAll},
	{"[]named uint16", func() interface{} { return new([]nU16) }, onAll},
	{"[]uint32", func() interface{} { return new([]uint32) }, onAll},
	{"[]uint64", func() interface{} { return new([]uint64) }, onAll},
	{"[]int16", func() interface{} { return new([]int16) }, onAll},
	{"[]int64", func() interface{} { return new([]int64) }, onAll},
	{"[]bool", func() interface{} { return new([]bool) }, onAll},
	{"[]float64", func() interface{} { return new([]float64) }, onAll},
	{"[]string", func() interface{} { return new([]string) }, onAll},
	{"[][]uint16", func() interface{} { return new([][]uint16) }, onAll},
	{"[]struct", func() interface{} { return new([]inner2) }, onAll},
	{"[]*uint16", func() interface{} { return new([]*uint16) }, onAll},
	{"[][64]uint64", func() interface{} { return new([][64]uint64) }, onAll},
	{"[]marshaler", func() interface{} { return new([]mFix) }, onAll},
	{"[]uint8 marshaler", func() interface{} { return new([]mU8) }, onAll},
	{"map[uint8]uint8", func() interface{} { return new(map[uint8]uint8) }, onAll},
	{"map[string][]byte", func() interface{} { return new(map[string][]byte) }, onAll},
	{"map[uint16][64]uint64", func() interface{} { return new(map[uint16][64]uint64) }, onAll},
	{"hex bytes", func() interface{} { return new(bin.HexBytes) }, onAll},
	{"safe string", func() interface{} { return new(bin.SafeString) }, onAll},
	{"optional string", func() interface{} { return &oStr{} }, onAll},
	{"optional []uint16", func() interface{} { return &oU16s{} }, onAll},
	{"optional map", func() interface{} { return &oMap{} }, onAll},
	{"c-option bytes", func() interface{} { return &cRaw{} }, onBsh},
	{"enum containers", func() interface{} { return &tEnumC{} }, onBsh},
	{"[]enum", func() interface{} { return new([]tEnumIn) }, onBsh},
	{"sized uint8", func() interface{} { return &zU8{} }, onAll},
	{"sized int8 uint16", func() interface{} { return &zI8{} }, onAll},
	{"sized uint16 uint32", func() interface{} { return &zU16{} }, onAll},
	{"sized int16", func() interface{} { return &zI16{} }, onAll},
	{"sized uint32 uint64", func() interface{} { return &zU32{} }, onAll},
	{"sized int32 string", func() interface{} { return &zI32{} }, onAll},
	{"sized uint64 struct", func() interface{} { return &zU64{} }, onAll},
	{"sized int64 pointers", func() interface{} { return &zI64{} }, onAll},
	{"sized uint64 uint16", func() interface{} { return &zH16{} }, onAll},
	{"sized uint64 uint32", func() interface{} { return &zH32{} }, onAll},
	{"sized uint64 uint64", func() interface{} { return &zH64{} }, onAll},
	{"sized int64 byte", func() interface{} { return &zHI{} }, onAll},
	{"extension", func() interface{} { return &tExt{} }, onAll},
	{"mixed", func() interface{} { return &hoMix{} }, onAll},
}

// Any input into any counting target allocates no block above the limit (16 KiB for inputs of at most 20 bytes).
func C11_decode() {
	e := chooseEnc()
	var idx []int
	for i := range alHostile {
		if alHostile[i].encs&(1<<uint(e)) != 0 {
			idx = append(idx, i)
		}
	}
	h := &alHostile[idx[sym.Choose("target", len(idx))]]
	lens := []int{1, 3, 5, 8, 10}
	if sym.Tier() > 0 {
		lens = []int{1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20}
	}
	max := 99
	switch h.name {
	case "safe string":
		max = 5
	case "[][]uint16", "[]string":
		max = 9
	}
	k := 0
	for k < len(lens) && lens[k] <= max {
		k++
	}
	n := lens[sym.Choose("len", k)]
	d := newDec(e, roomy(sym.Bytes("in", n)))
	t := h.mk()
	var err error
	sym.WithAlloc(alLimit, func() { err = d.Decode(t) })
	sym.Observe("err", err != nil)
	sym.Reach(h.name)
}

// The typed readers that take a count from the input or from the caller.
func C11_readers() {
	e := chooseEnc()
	n := []int{1, 3, 5, 8}[sym.Choose("len", 4)]
	d := newDec(e, roomy(sym.Bytes("in", n)))
	if sym.Choose("skip", 2) == 1 {
		sym.Assert(d.SkipBytes(1) == nil, "skip")
	}
	w := sym.Choose("reader", 9)
	var x int
	if w > 4 {
		x = sym.Int("n")
	}
	sym.WithAlloc(alLimit, func() {
		switch w {
		case 0:
			_, _ = d.ReadByteSlice()
		case 1:
			_, _ = d.ReadString()
		case 2:
			_, _ = d.ReadRustString()
		case 3:
			if n < 8 {
				_, _ = d.SafeReadUTF8String()
			}
		case 4:
			_, _ = d.ReadLength()
		case 5:
			_, _ = d.ReadNBytes(x)
		case 6:
			_, _ = d.Peek(x)
		case 7:
			_ = d.Discard(x)
		case 8:
			_ = d.SkipBytes(uint(x))
		}
	})
	sym.Reach("reader")
}
