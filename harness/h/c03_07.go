package h

import (
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// roundTrip: encode, decode into a fresh variable, compare; all bytes consumed.
func roundTrip(e int, skip func(*entry) bool) {
	en := pickEntry(e, skip)
	b := &B{e: e, bigMap: true}
	v, fresh := en.mk(b)
	out, err := marshal(e, v)
	if b.bad {
		sym.Assert(err != nil, en.name+": a length the format cannot carry is refused")
		sym.Reach(en.name + "/refused")
		return
	}
	sym.Assert(err == nil, en.name+": encodes")
	d := newDec(e, out)
	err = d.Decode(fresh)
	sym.Assert(err == nil, en.name+": decodes")
	sym.Assert(sym.Eq(v, fresh), en.name+": decodes to the same value")
	sym.Assert(d.Remaining() == 0 && d.Position() == uint(len(out)), en.name+": every byte consumed")
	if !b.free {
		sym.Observe("bytes", out)
	}
	sym.Observe("value", fresh)
	sym.Reach(en.name)
}

// Round trip of every catalogue type in Borsh.
func C03_roundtrip() { roundTrip(eBorsh, nil) }

// Round trip of every catalogue type in Bin.
func C04_roundtrip() { roundTrip(eBin, nil) }

// Round trip of every catalogue type in CompactU16; lengths over 65535 must be refused.
func C05_roundtrip() { roundTrip(eCompact, nil) }

// layout: the bytes are exactly those of the format, and those bytes decode to the value.
func layout(e int, skip func(*entry) bool) {
	en := pickEntry(e, skip)
	b := &B{e: e, bigMap: true}
	v, fresh := en.mk(b)
	if b.bad {
		sym.Reach("unrepresentable")
		return
	}
	out, err := marshal(e, v)
	sym.Assert(err == nil, en.name+": encodes")
	if b.free {
		sym.Assert(len(out) == len(b.out), en.name+": encoded size is the specified size")
	} else {
		sym.Assert(sym.BytesEq(out, b.out), en.name+": bytes are exactly the specified layout")
		sym.Observe("bytes", out)
	}
	d := newDec(e, b.out)
	err = d.Decode(fresh)
	sym.Assert(err == nil, en.name+": specified bytes decode")
	sym.Assert(sym.Eq(v, fresh), en.name+": specified bytes decode to the value")
	sym.Assert(d.Remaining() == 0, en.name+": specified bytes are consumed")
	sym.Reach(en.name)
}

// Borsh bytes against an independent rendering of the Borsh specification.
func C06_layout() { layout(eBorsh, func(en *entry) bool { return en.bigTag }) }

// Bin bytes against an independent rendering of the Bin layout.
func C07_bin() { layout(eBin, nil) }

// CompactU16 bytes against an independent rendering of its layout.
func C07_compact() { layout(eCompact, nil) }
