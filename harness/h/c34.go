package h

import (
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func pickShape(e int) (string, *shape) {
	k := &shapeKinds[sym.Choose("kind", len(shapeKinds))]
	s := k.mk(e, sym.Choose("shape", nShapes))
	if s == nil || s.encs&(1<<uint(e)) == 0 {
		return "", nil
	}
	return k.name + ", " + s.name, s
}

// Every element kind in every position: the encoding is the concatenation of the parts' own encodings, and decodes back.
func C34_compose() {
	e := chooseEnc()
	name, s := pickShape(e)
	if s == nil {
		return
	}
	var want []byte
	for _, p := range s.parts {
		if r, ok := p.(raw); ok {
			want = append(want, r...)
			continue
		}
		out, err := marshal(e, p)
		sym.Assert(err == nil, name+": part encodes")
		want = append(want, out...)
	}
	out, err := marshal(e, s.v)
	sym.Assert(err == nil, name+": encodes")
	sym.Assert(sym.BytesEq(out, want), name+": the parts' encodings, in order")
	fresh := freshLike(s.v)
	d := newDec(e, append(append([]byte{}, want...), sym.Bytes("tail", 2)...))
	sym.Assert(d.Decode(fresh) == nil && d.Remaining() == 2, name+": decodes, leaving what follows")
	sym.Assert(sym.Eq(s.v, fresh), name+": same value")
	sym.Observe("bytes", out)
	sym.Reach(name)
}

// Every element kind in every position: no proper prefix is accepted.
func C10_shapes() {
	e := chooseEnc()
	name, s := pickShape(e)
	if s == nil {
		return
	}
	out, err := marshal(e, s.v)
	sym.Assert(err == nil, name+": encodes")
	for cut := 0; cut < len(out); cut++ {
		sym.Assert(newDec(e, out[:cut]).Decode(freshLike(s.v)) != nil, name+": a truncated encoding is refused")
	}
	sym.Reach(name)
}
