package h

import (
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// Numbers and blobs: 6 characters that numbers are made of, starting with a
// digit.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_number() {
	sameExpr(sym.BytesIn("d", 1, "019") + sym.BytesIn("s", 5, "019aFxXbBzZeE.-"))
}

// A float with its exponent, and what follows it.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_float() {
	sameExpr("1." + sym.BytesIn("s", 5, "05eE+-.a "))
}

// Blobs with dots.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_blob() {
	sameExpr("0" + sym.BytesIn("z", 1, "zZ") + sym.BytesIn("s", 6, "0aF.g "))
}

// Strings: 4 arbitrary bytes between quotes, followed by another string.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_string() {
	q := sym.BytesIn("q", 1, "'\"")
	sameExpr(q + sym.Bytes("s", 4) + q + sym.BytesIn("t", 1, "'\".+ "))
}

// Strings: 7 of the characters that matter in strings.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_quotes() {
	sameExpr(sym.BytesIn("q", 1, "'\"") + sym.BytesIn("s", 7, "'\"\\a."))
}

// Options, environment variables and registers: 3 arbitrary bytes after the
// sigil.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_sigil() {
	sameExpr(sym.BytesIn("q", 1, "&$@") + sym.Bytes("s", 3))
}

// Options, environment variables and registers: 4 arbitrary bytes after the
// sigil.
//
//vp:thorough=300 reach=accepted,rejected tier=thorough
func C03_sigil4() {
	sameExpr(sym.BytesIn("q", 1, "&$@") + sym.Bytes("s", 4))
}

// Scoped options.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_option() {
	sameExpr("&" + sym.BytesIn("s", 1, "gls") + sym.BytesIn("t", 4, ":a1_.[ &"))
}

// Names: 6 of the characters of names, with scopes, autoload and curly braces.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_name() {
	sameExpr(sym.BytesIn("s", 6, "aZ_9:#{} ."))
}

// <SID> in any case, and what looks like it.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_sid() {
	sameExpr(sym.Pick("p", "", "a ") + "<" + sym.BytesIn("s", 3, "sSiIdDx>\xc4\xb0") + sym.BytesIn("t", 3, ">a{}: #"))
}

// Two literals of any kind side by side: where the first ends.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_pairs() {
	k := func(l string) string {
		return sym.Pick(l, "0x1F", "017", "0b10", "1.5e3", "0zAB.CD", "\"a\\\"\"", "'a''b'", "&ic", "&g:ic", "$HOME", "@a", "@\"", "@é",
			"s:a", "a#b", "<SID>a", "a{b}", "is", "isnot", "g:", "_", "0z", "1.", "@@")
	}
	sameExpr(k("a") + sym.Pick("s", "", " ", ".", "..", " . ", "+", "[") + k("b") + sym.Pick("t", "", "]"))
}

// Literal dictionary keys.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C03_litkey() {
	sameExpr("#{" + sym.BytesIn("s", 4, "aZ_-9: '{}") + sym.Pick("e", ":1}", ":1,b:2}", "}"))
}
