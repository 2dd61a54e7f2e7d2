package h

import (
	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

// a case character: its text, its lower- and upper-case text and its class.
type cchar struct {
	text, lower, upper string
	class              int
}

const (
	cLower = iota
	cUpper
	cDigit // digit, or letter without case
	cSep
)

type cword struct {
	text  string
	chars []cchar
}

// multi-byte characters with their case forms written down (not computed).
var cWide = []cchar{
	{"è", "è", "È", cLower},
	{"È", "è", "È", cUpper},
	{"ß", "ß", "ß", cLower},
	{"Σ", "σ", "Σ", cUpper},
	{"ς", "ς", "Σ", cLower},
	{"世", "世", "世", cDigit},
	{"٣", "٣", "٣", cDigit},
	{"ﬄ", "ﬄ", "ﬄ", cLower},
	{"𐐀", "𐐨", "𐐀", cUpper},
	{"𐐨", "𐐨", "𐐀", cLower},
	{"…", "", "", cSep},
	{"\u00a0", "", "", cSep},
	{"\xff", "", "", cSep},
	{"\xe4\xb8", "", "", cSep},
	{"ﬁ", "ﬁ", "ﬁ", cLower},
	{"ǆ", "ǆ", "Ǆ", cLower},
	{"Ǆ", "ǆ", "Ǆ", cUpper},
}

// caseASCII is an arbitrary ASCII character of a chosen class.
func caseASCII() cchar {
	c := sym.U8("c")
	switch k := sym.Choose("class", 4); k {
	case cLower:
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		return cchar{string([]byte{c}), string([]byte{c}), string([]byte{c - 32}), cLower}
	case cUpper:
		sym.Assume(sym.And(c >= 'A', c <= 'Z'))
		return cchar{string([]byte{c}), string([]byte{c + 32}), string([]byte{c}), cUpper}
	case cDigit:
		sym.Assume(sym.And(c >= '0', c <= '9'))
		return cchar{string([]byte{c}), string([]byte{c}), string([]byte{c}), cDigit}
	}
	sym.Assume(sym.And(c < 0x80, sym.Not(sym.And(c >= 'a', c <= 'z')), sym.Not(sym.And(c >= 'A', c <= 'Z')), sym.Not(sym.And(c >= '0', c <= '9'))))
	return cchar{string([]byte{c}), "", "", cSep}
}

func (w *cword) add(c cchar) {
	w.text += c.text
	w.chars = append(w.chars, c)
}

// caseWord: up to n arbitrary ASCII characters.
func caseWord(n int) *cword {
	w := &cword{}
	k := sym.Choose("length", n+1)
	for i := 0; i < k; i++ {
		w.add(caseASCII())
	}
	return w
}

// refWords splits the characters at the documented boundaries:
// separators; between a lower-case run (digits keep the case of what precedes them) and an upper-case letter;
// before the last capital of a run of capitals when a lower-case letter follows it.
func refWords(cs []cchar) [][]cchar {
	var words [][]cchar
	var cur []cchar
	mode := -1 // case of the last cased character since the last boundary
	for i, c := range cs {
		if c.class == cSep {
			if len(cur) > 0 {
				words = append(words, cur)
			}
			cur, mode = nil, -1
			continue
		}
		next := cSep
		if i+1 < len(cs) {
			next = cs[i+1].class
		}
		if mode == cUpper && c.class == cUpper && next == cLower {
			words = append(words, cur)
			cur, mode = []cchar{c}, -1
			continue
		}
		cur = append(cur, c)
		if c.class == cLower || c.class == cUpper {
			mode = c.class
		}
		if mode == cLower && next == cUpper {
			words = append(words, cur)
			cur, mode = nil, -1
		}
	}
	if len(cur) > 0 {
		words = append(words, cur)
	}
	return words
}

func refSnake(w *cword) string {
	out := ""
	for i, word := range refWords(w.chars) {
		if i > 0 {
			out += "_"
		}
		for _, c := range word {
			out += c.lower
		}
	}
	return out
}

func refPascal(w *cword) string {
	out := ""
	for _, word := range refWords(w.chars) {
		for i, c := range word {
			switch {
			case i == 0:
				out += c.upper
			case c.text == "Σ" && i == len(word)-1:
				out += "ς"
			default:
				out += c.lower
			}
		}
	}
	return out
}

func caseOK(w *cword) {
	sn, pa := refSnake(w), refPascal(w)
	got := bin.ToRustSnakeCase(w.text)
	sym.Assert(sym.StrEq(got, sn), "snake case")
	sym.Assert(sym.StrEq(bin.ToSnakeForSighash(w.text), sn), "ToSnakeForSighash")
	sym.Assert(sym.StrEq(bin.ToPascalCase(w.text), pa), "Pascal case")
}

// Every ASCII string up to the bound.
func C23_ascii() {
	n := 6
	if sym.Tier() > 0 {
		n = 8
	}
	w := caseWord(n)
	caseOK(w)
	sym.Reach("ascii")
}

// Snake case is a fixed point.
func C23_idempotent() {
	w := caseWord(4)
	s := bin.ToRustSnakeCase(w.text)
	sym.Assert(sym.StrEq(bin.ToRustSnakeCase(s), s), "snake case of snake case")
	sym.Reach("idempotent")
}

// Multi-byte characters anywhere among ASCII ones.
func C23_wide() {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	w := &cword{}
	pos := sym.Choose("wide at", n)
	for i := 0; i < n; i++ {
		if i == pos {
			w.add(cWide[sym.Choose("wide", len(cWide))])
		} else {
			w.add(caseASCII())
		}
	}
	caseOK(w)
	sym.Reach("wide")
}

// Two neighbouring multi-byte characters.
func C23_wide2() {
	w := &cword{}
	if sym.Choose("lead", 2) == 1 {
		w.add(caseASCII())
	}
	w.add(cWide[sym.Choose("wide", len(cWide))])
	w.add(cWide[sym.Choose("wide", len(cWide))])
	w.add(caseASCII())
	caseOK(w)
	sym.Reach("wide2")
}

// Arbitrary bytes: no panic, and the output has only letters, digits and joining underscores.
func C23_bytes() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	s := sym.String("s", sym.Choose("n", n+1))
	out := bin.ToRustSnakeCase(s)
	_ = bin.ToPascalCase(s)
	sym.Assert(len(out) == 0 || (out[0] != '_' && out[len(out)-1] != '_'), "no outer underscore")
	sym.Reach("bytes")
}
