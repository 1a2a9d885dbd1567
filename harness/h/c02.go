package h

import (
	"strconv"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// sameExpr compares ParseExpr with the reference parser: acceptance, tree and
// positions.
func sameExpr(src string) {
	n, err := parseExpr(src)
	ll := refLines(src)
	if len(ll) == 0 {
		ll = []logical{{off: []int{0}, ln: []int{1}, col: []int{1}}}
	}
	r, end, why := refExprAt(&ll[0], 0)
	ok := why == ""
	for ok && end < len(ll[0].s) && isW(ll[0].s[end]) {
		end++
	}
	if ok && end < len(ll[0].s) && err != nil {
		// what follows an expression is up to the caller: either way
		sym.Reach("trailing")
		return
	}
	if (err == nil) != ok {
		if ok {
			sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
		}
		if why == oddBlob {
			sym.Fail("accepted " + why + ": " + strconv.Quote(src))
		}
		sym.Fail("accepted: " + strconv.Quote(src) + " as " + dump(n))
	}
	if !ok {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	eq("tree", src, dumpPos(n), r.dump(&ll[0]))
}

// Every expression of 4 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_expr4() {
	sameExpr(sym.Bytes("src", 4))
}

const opBytes = "=!<>~?#+-*/%.|&: "

// Two slots of 2 operator bytes between three operands.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_slots() {
	sameExpr("a" + sym.BytesIn("s1", 2, opBytes) + "1" + sym.BytesIn("s2", 2, opBytes) + "b")
}

// One slot of 4 operator bytes between two operands.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_slot4() {
	sameExpr("a" + sym.BytesIn("s", 4, opBytes) + "b")
}

func pickOp(label string) string {
	return sym.PickSym(label, "||", "&&", "==", "> ", "..", "+ ", "- ", "* ", "/ ", "% ", "? ", ": ", "=~", "is")
}

// Four operators of all levels, the ternary included, between five operands:
// precedence, associativity, no chaining of comparisons.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_levels() {
	sameExpr("a " + pickOp("o1") + " b " + pickOp("o2") + " c " + pickOp("o3") + " d " + pickOp("o4") + " e")
}

// Every comparison operator with every case suffix next to every other.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_compare() {
	o := func(l string) string {
		b := sym.PickSym(l, "==   ", "!=   ", ">    ", ">=   ", "<    ", "<=   ", "=~   ", "!~   ", "is   ", "isnot")
		n := len(b)
		for n > 0 && b[n-1] == ' ' {
			n--
		}
		return b[:n] + sym.Pick(l+"s", "", "?", "#", "x")
	}
	sameExpr("a " + o("o1") + sym.Pick("w", "", " ") + "b " + sym.Pick("k", "&&", "||", "+", "?", ",") + " c " + o("o2") + " d")
}

// Unary operators before and after operands, with subscripts and calls.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_unary() {
	sameExpr(sym.BytesIn("u", 3, "!-+ ") + "a" + sym.BytesIn("p", 2, "[]().-> ") + "b" + sym.BytesIn("q", 2, "[]()!- "))
}

// What follows an operand: subscripts, slices, calls, members, methods.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_postfix() {
	sameExpr("x" + sym.BytesIn("p", 5, "[]():.,a-> "))
}

// Braces: dictionaries, lambdas, curly-braces names.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_braces() {
	sameExpr(sym.Pick("o", "{", "#{", "a{") + sym.BytesIn("b", 5, "{}a:,->. '") + sym.Pick("c", "}", "", "}b", "}(x)"))
}

// Lambda parameters.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_lambda() {
	sameExpr("{" + sym.Pick("w", "", " ") + sym.BytesIn("p", 5, "ab,. :1") + sym.Pick("a", "->", " -> ", "-") + "a}")
}

// Up to 5 parameters out of 3 names and the dots.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_params() {
	s := "{"
	for i := sym.Choose("n", 6); i > 0; i-- {
		s += sym.Pick("p", "a", "b", "c1", "...")
		if i > 1 || sym.Choose("last", 2) == 1 {
			s += sym.Pick("sep", ",", ", ")
		}
	}
	sameExpr(s + " -> a + b}")
}

// Member access against concatenation.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_dot() {
	sameExpr(sym.Pick("l", "a", "1", "'s'", "a.b", "f()", "x[1]", "{}", "[]", "(a)", "&o", "$E", "@r", "a{b}", "x[1:]", "{->1}", "s:a") +
		sym.BytesIn("d", 2, ". ") + sym.BytesIn("r", 2, "a1_:#'(.") + sym.Pick("e", "", "'", ".c", "()"))
}

// A colon belongs to a name only behind one of the scope letters.
//
//vp:quick=60 thorough=60
func C02_colon() {
	n := sym.BytesIn("n", 1, "cdefhijknopqruxyz")
	src, want, wrong := "", "", ""
	switch forkOn("form", 5) {
	case 0:
		src, want, wrong = "l["+n+":]", "(slice id<l> id<"+n+"> nil)", "(sub id<l> id<"+n+":>)"
	case 1:
		src, want, wrong = "l["+n+":m]", "(slice id<l> id<"+n+"> id<m>)", "(sub id<l> id<"+n+":m>)"
	case 2:
		src, want, wrong = "1 ? "+n+":yy", "(? num<1> id<"+n+"> id<yy>)", "E"
	case 3:
		src, want, wrong = "1 ? xx"+n+":2", "(? num<1> id<xx"+n+"> num<2>)", "E"
	case 4:
		src, want, wrong = "l[g:"+n+":m]", "(slice id<l> id<g:"+n+"> id<m>)", "(sub id<l> id<g:"+n+":m>)"
	}
	x, err := parseExpr(src)
	got := "E"
	if err == nil {
		got = dump(x)
	}
	if got == wrong {
		sym.Fail("the name takes in the colon: " + src)
	}
	eq("tree", src, got, want)
}

// Every operator glued to every kind of an operand on its right or left.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_glued() {
	kinds := []string{"a", "1", "'s'", "\"s\"", "&o", "$E", "@r", "(a)", "[1]", "{}", "#{k: 1}", "0z11", "-1", "!a", "a#b", "s:a", "{->1}", "é", "1.5", "0x1F", "a{b}", "_x", "<SID>f()"}
	ops := []string{"||", "&&", "==", "==?", "==#", "!=", "!=?", "!=#", ">", ">?", ">#", ">=", ">=?", ">=#", "<", "<?", "<#", "<=", "<=?", "<=#", "=~", "=~?", "=~#", "!~", "!~?", "!~#", "is", "is?", "is#", "isnot", "isnot?", "isnot#", "+", "-", ".", "..", "*", "/", "%", "?", ":", "->", ","}
	op := sym.Pick("op", ops...)
	if forkOn("side", 2) == 0 {
		sameExpr("a " + op + sym.Pick("ws", "", " ") + sym.Pick("right", kinds...) + sym.Pick("end", "", " : 1"))
	} else {
		sameExpr(sym.Pick("left", kinds...) + sym.Pick("ws", "", " ") + op + " 1")
	}
}

// A kind of an expression in each place of each other kind, in parentheses or not.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C02_nested() { sameExpr(nestedExpr(2, sym.Pick("leaf", "x", "'s'"))) }

// The same three deep.
//
//vp:thorough=600 tier=thorough reach=accepted,rejected
func C02_nested3() { sameExpr(nestedExpr(3, "x")) }

// Calls with up to 22 arguments; Vim takes at most 20.
//
//vp:quick=60 thorough=60 reach=accepted,rejected
func C02_args() {
	f := []string{"f", "a.b", "a[1]", "{x -> 1}", "(a)", "a->m"}[forkOn("function", 6)]
	n := forkOn("n", 23)
	s, args := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		s += " " + string([]byte{byte('a' + i)})
		args += "," + string([]byte{byte('a' + i)})
	}
	if n > 0 {
		s += []string{"", ",", " , "}[forkOn("last", 3)]
	}
	e, err := parseExpr(f + "(" + s + ")")
	if n > 20 {
		if errCode(err) != "E740" {
			sym.Fail(strconv.Itoa(n) + " arguments of " + f + " are not too many: " + errText(err))
		}
		sym.Reach("rejected")
		return
	}
	if err != nil {
		sym.Fail(strconv.Itoa(n) + " arguments of " + f + " rejected: " + err.Error())
	}
	var l []ast.Expr
	switch x := e.(type) {
	case *ast.CallExpr:
		l = x.Args
	case *ast.MethodExpr:
		l = x.Args
	default:
		sym.Fail("no call: " + dump(e))
	}
	got := ""
	for _, a := range l {
		got += "," + a.(*ast.Ident).Name
	}
	eq("arguments of "+f, s, got, args)
	sym.Reach("accepted")
}
