package h

import (
	"crypto/sha256"

	bin "github.com/gagliardetto/binary"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

func refSighash(ns, name string) []byte {
	data := append([]byte(ns), ':')
	data = append(data, name...)
	sum := sha256.Sum256(data)
	out := make([]byte, 8)
	for i := range out {
		out[i] = sum[i]
	}
	return out
}

func sighashOK(got []byte, ns, name, what string) {
	sym.Assert(len(got) == 8, what+": eight bytes")
	sym.Assert(sym.BytesEq(got, refSighash(ns, name)), what+": first eight bytes of sha256(namespace:name)")
}

// Arbitrary namespaces and names (any bytes).
func C22_any() {
	a, b := 6, 7
	if sym.Tier() > 0 {
		a, b = 12, 40
	}
	ns := sym.String("ns", sym.Choose("ns length", a))
	name := sym.String("name", sym.Choose("name length", b))
	got := bin.Sighash(ns, name)
	sighashOK(got, ns, name, "Sighash")
	id := bin.SighashTypeID(ns, name)
	sym.Assert(sym.BytesEq(id[:], refSighash(ns, name)), "type ID carries the same eight bytes")
	for i := range got {
		got[i] = 0 // the caller owns the result
	}
	sighashOK(bin.Sighash(ns, name), ns, name, "Sighash again")
	sym.Reach("any")
}

// Long inputs: the hash covers all of them.
func C22_long() {
	n := []int{54, 55, 56, 57, 63, 64, 65, 120, 200}[sym.Choose("n", 9)]
	ns := []string{"global", "account", "state", ""}[sym.Choose("ns", 4)]
	name := sym.String("name", n)
	sighashOK(bin.Sighash(ns, name), ns, name, "Sighash")
	sym.Reach("long")
}

// Instruction and account forms over names of every shape.
func C22_forms() {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	w := caseWord(n)
	name := w.text
	sighashOK(bin.SighashInstruction(name), "global", refSnake(w), "SighashInstruction")
	sighashOK(bin.SighashAccount(name), "account", refPascal(w), "SighashAccount")
	sym.Assert(bin.ToSnakeForSighash(name) == refSnake(w), "ToSnakeForSighash")
	sym.Assert(bin.SIGHASH_GLOBAL_NAMESPACE == "global" && bin.SIGHASH_ACCOUNT_NAMESPACE == "account" && bin.SIGHASH_STATE_NAMESPACE == "state", "namespaces")
	sym.Reach("forms")
}
