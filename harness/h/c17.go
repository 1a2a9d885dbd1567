package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// what can stand for a target: those of let and for, those of const too, those
// of unlet and lockvar.
var (
	plainTargets = []string{"a", "s:b", "a#b", "is", "{'x'}y", "g:"}
	itemTargets  = []string{"d.k", "d[1]", "d[1:2]", "d[:]", "d.k[i].z", "d['a']", "d.isnot", "{'x'}y.z"}
	otherTargets = []string{"$A", "&ai", "&l:ai", "@a", "@\""}
	badTargets   = []string{"1", "'x'", "(a)", "x:y", "-a", "!a", "#x", "\"x\"", "{->1}", "a b", "0z12", ""}
	callTargets  = []string{"f()", "d.f()", "x->f()", "d[1]()", "f().x", "x->f().y", "a is b"}
)

func targets(l ...[]string) []string {
	var r []string
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

func listText(l []string) string {
	s := "["
	for i, x := range l {
		if i > 0 {
			s += " "
		}
		s += exprText(x)
	}
	return s + "]"
}

// notRecorded checks that a script is rejected or that no command with targets
// comes from it.
func notRecorded(src string) {
	f, err := parse(src)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	for _, s := range f.Body {
		switch s.(type) {
		case *ast.Let, *ast.UnLet, *ast.LockVar, *ast.UnLockVar, *ast.For:
			sym.Fail("recorded: " + strconv.Quote(src) + ": " + dump(f))
		}
	}
	sym.Reach("listed")
}

// recorded checks the first command of a script.
func recorded(src, want string) {
	f, err := parse(src)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	if len(f.Body) == 0 {
		sym.Fail("no command in " + strconv.Quote(src))
	}
	sym.Reach("recorded")
	eq("command", src, dump(f.Body[0]), want)
	if exArgOf(f.Body[0]).Forceit != (strings.IndexByte(src, '!') > 0) {
		sym.Fail("a bang or not: " + strconv.Quote(src))
	}
}

func pickValue() string {
	return sym.Pick("value", "1", "a . b", "[1, {'k': 2}]", "x ? y : z", "f(1)[2].k", "a == b", "-1", "\"s\"")
}

func pickEnd() string { return sym.Pick("end", "", " ", "|echo 1", " \"c") }

// :let of every kind of a target with every operator and value.
//
//vp:quick=90 thorough=100 reach=recorded,rejected,listed
func C17_let() {
	good := targets(plainTargets, itemTargets, otherTargets)
	t := sym.Pick("target", targets(good, badTargets, callTargets)...)
	op := sym.Pick("operator", "=", "+=", "-=", "*=", "/=", "%=", ".=", "..=")
	v := "1"
	if op == "=" || op == "..=" {
		v = pickValue()
	}
	src := "let " + t + sym.Pick("before", " ", "", "\t ") + op + sym.Pick("after", " ", "") + v + sym.Pick("end", "", "|echo 1")
	for _, g := range good {
		if t == g {
			recorded(src, "let "+op+" "+exprText(t)+"[]nil "+exprText(v))
			return
		}
	}
	notRecorded(src)
}

// :const of every kind of a target.
//
//vp:quick=90 thorough=100 reach=recorded,rejected,listed,E996
func C17_const() {
	t := sym.Pick("target", targets(plainTargets, itemTargets, otherTargets, badTargets, callTargets)...)
	op := sym.Pick("operator", "=", "+=", "..=")
	v := pickValue()
	inList := forkOn("in a list", 4)
	src := "const " + []string{t, "[" + t + "]", "[x, " + t + ", y]", "[x; " + t + "]"}[inList] + " " + op + " " + v + pickEnd()
	for _, g := range targets(itemTargets, otherTargets) {
		if t == g {
			sym.Reach("E996")
			_, err := parse(src)
			eq("error", src, errCode(err), "E996")
			return
		}
	}
	for _, g := range plainTargets {
		if t == g && op == "=" {
			x := exprText(t)
			lhs := []string{x + "[]nil", "nil[" + x + "]nil", "nil[id<x> " + x + " id<y>]nil", "nil[id<x>]" + x}[inList]
			recorded(src, "const = "+lhs+" "+exprText(v))
			return
		}
	}
	notRecorded(src)
}

// Lists of up to three targets and a rest, of :let, :const and :for.
//
//vp:quick=90 thorough=100 reach=recorded
func C17_list() {
	cmd := sym.Pick("command", "let", "const", "for")
	all := targets(plainTargets, itemTargets, otherTargets)
	if cmd == "const" {
		all = plainTargets
	}
	n := 1 + forkOn("targets", 3)
	var l []string
	s := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sym.Pick("separator", ",", " , ", ", ")
		}
		t := "b"
		switch i {
		case 0:
			t = sym.Pick("target", all...)
		case 1:
			t = sym.Pick("target", "a", "is", all[len(all)-1], all[len(all)-2])
		}
		l = append(l, t)
		s += t
	}
	rest := ""
	if forkOn("rest", 2) == 1 {
		rest = sym.Pick("rest", "r", "is")
		s += sym.Pick("semicolon", ";", " ; ") + rest
	}
	s += sym.Pick("close", "]", " ]")
	want := "nil" + listText(l)
	if rest != "" {
		want += exprText(rest)
	} else {
		want += "nil"
	}
	switch cmd {
	case "for":
		recorded("for "+s+" in x\nendfor", "for "+want+" id<x>{}endfor")
	case "const":
		recorded(cmd+" "+s+" = x", cmd+" = "+want+" id<x>")
	default:
		op := " ="
		if n < 3 && rest == "" {
			op = sym.Pick("operator", " =", "=", " +=", " -=", " *=", " /=", " %=", " .=", " ..=", "..=")
		}
		recorded(cmd+" "+s+op+" x", cmd+" "+strings.TrimPrefix(op, " ")+" "+want+" id<x>")
	}
}

// refList reads a list of names that begins behind its [: its names, the rest,
// and the place behind its ], or false.
func refList(s string) ([]string, string, int, bool) {
	var l []string
	p := 0
	name := func() string {
		p = skipW(s, p)
		q := p
		for q < len(s) && (isAlphaB(s[q]) || s[q] == '_' || q > p && isDigitB(s[q])) {
			q++
		}
		n := s[p:q]
		p = skipW(s, q)
		return n
	}
	for {
		n := name()
		if n == "" || p == len(s) {
			return nil, "", 0, false
		}
		l = append(l, n)
		p++
		switch s[p-1] {
		case ']':
			return l, "", p, true
		case ',':
		case ';':
			r := name()
			if r == "" || p == len(s) || s[p] != ']' {
				return nil, "", 0, false
			}
			return l, r, p + 1, true
		default:
			return nil, "", 0, false
		}
	}
}

func checkList(n int) {
	t := sym.BytesIn("list", n, "ab1,;] (=")
	cmd := sym.Pick("command", "let ", "const ", "for ")
	tail := " = x"
	if cmd == "for " {
		tail = " in x\nendfor"
	}
	src := cmd + "[" + t + sym.Pick("close", "]", "") + tail
	line := src[len(cmd)+1:]
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	l, rest, p, ok := refList(line)
	want := ""
	if ok {
		op := "="
		if cmd == "for " {
			op = "in"
		}
		r := line[skipW(line, p):]
		if !strings.HasPrefix(r, op) {
			ok = false
		} else if v := r[len(op):]; strings.TrimLeft(v, " ") == "x" {
			want = "nil" + listText(l)
			if rest != "" {
				want += exprText(rest)
			} else {
				want += "nil"
			}
		} else if strings.HasPrefix(v, "=") {
			ok = false
		} else {
			sym.Truncate() // another value
		}
	}
	if !ok {
		notRecorded(src)
		return
	}
	if cmd == "for " {
		recorded(src, "for "+want+" id<x>{}endfor")
	} else {
		recorded(src, cmd+"= "+want+" id<x>")
	}
}

// Lists of targets out of four characters.
//
//vp:quick=90 thorough=100 reach=recorded,rejected
func C17_listbytes() { checkList(4) }

// Lists of targets out of six characters.
//
//vp:tier=thorough thorough=700 reach=recorded,rejected
func C17_listbytes6() { checkList(6) }

// The operator of :let out of four characters.
//
//vp:quick=90 thorough=100 reach=recorded,rejected,listed
func C17_operator() {
	s := sym.BytesIn("operator", 4, "=+-.*/%< b")
	sym.Assume(!strings.Contains(s, ".b"))
	src := "let a" + s + "1"
	p := 0
	for p < len(s) && s[p] == 'b' {
		p++
	}
	name := "a" + s[:p]
	p = skipW(s, p)
	for _, op := range []string{"..=", "+=", "-=", "*=", "/=", "%=", ".=", "="} {
		if strings.HasPrefix(s[p:], op) && !strings.HasPrefix(s[p:], "=<<") {
			v := s[p+len(op):] + "1"
			sym.Assume(strings.IndexByte(v, ' ') < 0)
			if _, e2 := parse("echo " + v); e2 != nil {
				notRecorded(src)
				return
			}
			recorded(src, "let "+op+" id<"+name+">[]nil "+exprText(v))
			return
		}
	}
	notRecorded(src)
}

// :unlet, :lockvar and :unlockvar with up to two targets, a bang and a depth.
//
//vp:quick=90 thorough=100 reach=recorded,rejected
func C17_unlet() {
	cmd := sym.Pick("command", "unlet", "lockvar", "unlockvar")
	src := cmd + sym.Pick("bang", "", "!")
	depth := ""
	if cmd != "unlet" {
		depth = sym.Pick("depth", "", "0", "1", "2", "12", "3 ")
	}
	all := targets(plainTargets, itemTargets, otherTargets, badTargets, []string{"f()", "d.f()", "x->f()", "d[1]()"})
	src += " " + depth
	n := 1 + forkOn("targets", 2)
	var l []string
	good := true
	for i := 0; i < n; i++ {
		if i > 0 {
			all = []string{"a", "d.k", "is", "$A", "&ai", "1", "f()", "x->f()"}
		}
		t := sym.Pick("target", all...)
		if t == "a b" || t == "" || t == "\"x\"" || t == "0z12" {
			t = "[a]"
		}
		if i > 0 {
			src += sym.Pick("blank", " ", "\t ")
		}
		src += t
		l = append(l, t)
		ok := t == "$A" && cmd == "unlet"
		for _, g := range targets(plainTargets, itemTargets) {
			ok = ok || t == g
		}
		good = good && ok
	}
	src += sym.Pick("end", "", "|echo 1", " \"c")
	if cmd != "unlet" && isDigitB(l[0][0]) || !good && src[len(src)-1] == 'c' {
		sym.Truncate()
	}
	if !good {
		if _, err := parse(src); err == nil {
			sym.Fail("accepted: " + strconv.Quote(src))
		}
		sym.Reach("rejected")
		return
	}
	want := cmd + " "
	if cmd != "unlet" {
		d, _ := strconv.Atoi("0" + strings.TrimSpace(depth))
		want += strconv.Itoa(d)
	}
	recorded(src, want+listText(l))
}

// :for of every kind of a target, with "in" and what is not it.
//
//vp:quick=90 thorough=100 reach=recorded,rejected
func C17_for() {
	good := targets(plainTargets, itemTargets, otherTargets)
	t := sym.Pick("target", targets(good, badTargets, callTargets)...)
	in := sym.Pick("in", " in ", " in\t", "  in  ", " i ", " inn ", " IN ", " in", " ", " = ", " n ")
	v := pickValue()
	src := "for " + t + in + v + pickEnd() + "\nendfor"
	ok := strings.HasPrefix(strings.TrimLeft(in, " "), "in ") || in == " in\t"
	if in == " in" && (v[0] == '"') {
		sym.Truncate() // a comment
	}
	for _, g := range good {
		if t == g && ok {
			f := mustParse(src)
			n, is := f.Body[0].(*ast.For)
			if !is {
				sym.Fail("not a loop: " + strconv.Quote(src))
			}
			n.Body = nil
			sym.Reach("recorded")
			eq("command", src, dump(n), "for "+exprText(t)+"[]nil "+exprText(v)+"{}endfor")
			return
		}
	}
	if _, err := parse(src); err == nil {
		sym.Fail("accepted: " + strconv.Quote(src))
	}
	sym.Reach("rejected")
}

// Without a value the command lists variables.
//
//vp:quick=90 thorough=100 reach=listed
func C17_show() {
	src := sym.Pick("command", "let", "const") + sym.Pick("argument", "", " a", " a s:b g:", " g:", " {'x'}y", " a#b") + sym.Pick("end", "", " ", "\"c", " \"c")
	f := mustParse(src)
	if len(f.Body) != 1 || !strings.HasPrefix(dump(f.Body[0]), "excmd<") {
		if !strings.HasSuffix(src, "c") || len(f.Body) != 2 {
			sym.Fail("not a listing of variables: " + strconv.Quote(src) + ": " + dump(f))
		}
	}
	sym.Reach("listed")
}
