package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// manySize is how many of something there are.
func manySize() int { return []int{9, 17, 33, 65, 129, 257}[forkOn("size", 6)] }

// numbered writes n of the same thing, with # for its number.
func numbered(s, sep string, n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, strings.Replace(s, "#", strconv.Itoa(i), -1))
	}
	return strings.Join(l, sep)
}

// manyExpr is an expression with n parts of one kind, side by side, one behind
// the other or one within the other.
func manyExpr(x string, n int) string {
	r := strings.Repeat
	k := forkOn("kind", 48)
	switch k {
	case 0:
		return "[" + numbered(x, ", ", n) + "]"
	case 1:
		return "{" + numbered("'k#': "+x, ", ", n) + "}"
	case 2:
		return "#{" + numbered("k-#: "+x, ", ", n) + ",}"
	case 3, 4, 5, 6, 7, 8, 9, 10:
		return numbered(x, []string{" + ", " .. ", " . ", " && ", "||", " % ", " - ", " ? 1 : "}[k-3], n) + []string{"", " == 1"}[forkOn("compared", 2)]
	case 11, 12, 13, 14, 15, 16, 17:
		return x + r([]string{"[x]", "->f()", ".k", "(x)", "[:]", "[x : y]", "->{a -> b}(1)"}[k-11], n)
	case 18, 19, 20, 21:
		return r([]string{"!", "-", "+ ", "-!"}[k-18], n) + x
	case 22, 23, 24, 25, 26, 27, 28, 29, 30:
		p := [][2]string{{"(", ")"}, {"[", "]"}, {"{a -> ", "}"}, {"f(", ")"}, {"{'k': ", "}"}, {"#{k: ", "}"}, {"x[", "]"}, {"y ? ", " : z"}, {"x->f(y, ", ")"}}[k-22]
		return r(p[0], n) + x + r(p[1], n)
	case 31:
		return "{" + numbered("p#", ", ", n) + " -> " + x + "}"
	case 32:
		return r("n", n) + "." + x
	case 33:
		return "s:" + r("n1_", n) + "(" + x + ")"
	case 34:
		return "1" + r("0", n) + " + " + x
	case 35:
		return "0x" + r("F", n) + " + " + x
	case 36:
		return "1." + r("5", n) + "e" + r("1", n) + " + " + x
	case 37:
		return "0z" + r("F0", n) + " + " + x
	case 38:
		return "'" + r("a''", n) + "' . " + x
	case 39:
		return "\"" + r("\\\"", n) + "\" . " + x
	case 40:
		return r("a{x}", n) + "[" + x + "]"
	case 41:
		return "$" + r("V", n) + " + &" + r("o", n) + " + " + x
	case 42:
		return r(" ", n) + x + r("\t", n) + "+" + r(" ", n) + "1"
	case 43:
		return "a#" + r("b#", n) + "c(" + x + ")"
	case 44:
		return "#{" + r("k", n) + ": " + x + "}"
	case 45:
		return "f(" + numbered(x, ", ", 20) + ")" + r("[f(1)]", n)
	case 46:
		return "[" + r("[], ", n) + x + "]"
	}
	return "'" + r("\u00e9", n) + "' . " + x
}

// Expressions with up to 257 parts of one kind: elements, operands, subscripts,
// levels of brackets, and digits, letters and bytes of literals and names.
//
//vp:quick=60 thorough=100 reach=accepted
func C02_many() { sameExpr(manyExpr(sym.BytesIn("leaf", 1, "ab1"), manySize())) }

// The same for literals, and an arbitrary byte behind.
//
//vp:quick=60 thorough=100 reach=accepted
func C03_long() {
	k := forkOn("literal", 9)
	n := manySize()
	r := strings.Repeat
	s := []string{"1" + r("0", n), "0x" + r("fF", n), "0b" + r("01", n), "1." + r("0", n), "0z" + r("AB", n), r("ab_9", n), "'" + r("x'' ", n), "\"" + r("x\\\\", n), "&" + r("ab", n)}[k]
	sameExpr(s + sym.Bytes("behind", 1) + []string{"", "", "", "", "", "", "'", "\"", ""}[k])
}

// What grows with n in a script: a kind of a command with n parts.
func manyScript(n int) string {
	r := strings.Repeat
	switch forkOn("kind", 34) {
	case 0:
		return r("echo x | ", n) + "echo 1"
	case 1:
		return r("let x = 1\n", n)
	case 2:
		return r("\n", n) + "echo 1"
	case 3:
		return "unlet" + r(" a", n)
	case 4:
		return "lockvar 3" + r(" a", n)
	case 5:
		return "let [a" + r(", b", n) + "; c] = x"
	case 6:
		return "for [a" + r(", b", n) + "] in x\nendfor"
	case 7:
		return "echo" + r(" x", n)
	case 8:
		return "execute" + r(" 'x'", n)
	case 9:
		return "function F(" + numbered("a#", ", ", n) + ", ...) abort\nendfunction"
	case 10:
		return "function F(" + numbered("a# = x", ", ", n) + ")\nendfunction"
	case 11:
		return "if 1\n" + r("elseif x\necho y\n", n) + "endif"
	case 12:
		return "try\n" + r("catch /x/\necho y\n", n) + "finally\nendtry"
	case 13:
		return r("if 1\n", n) + r("endif\n", n)
	case 14:
		return r("while 1\n", n) + "break\n" + r("endwhile\n", n)
	case 15:
		return r("for a in b | ", n) + "continue\n" + r("endfor|", n)
	case 16:
		return r("try\n", n) + r("endtry\n", n)
	case 17:
		return r("function F()\n", n) + "return 1\n" + r("endfunction\n", n)
	case 18:
		return "let x =<< E\n" + r(" y\n", n) + "E\necho 1"
	case 19:
		return "lua << E\n" + r(" y\n", n) + "E\necho 1"
	case 20:
		return "append\n" + r(" y\n", n) + ".\necho 1"
	case 21:
		return r("silent ", n) + "echo 1"
	case 22:
		return r("+1", n) + "d"
	case 23:
		return r("1,", n) + "d"
	case 24:
		return r("/x/;", n) + "echo 1"
	case 25:
		return "\"" + r("x", n)
	case 26:
		return r("\"x\n", n) + "echo 1"
	case 27:
		return "set " + r("x", n) + " | echo 1"
	case 28:
		return "let x = [" + r("\n  \\ y,", n) + "\n\\ z]"
	case 29:
		return r(":", n) + r(" ", n) + "echo 1"
	case 30:
		return "if 1\n" + r("echo x\n", n) + "endif\necho 1"
	case 31:
		return "call f(" + r("[", n) + r("]", n) + ")"
	case 32:
		return "s/" + r("x", n) + "/" + r("y", n) + "/ | echo 1"
	}
	return "e ++enc=" + r("x", n) + " +" + r("y", n) + " f | echo 1"
}

// Scripts with commands of up to 257 parts, or as many commands.
//
//vp:quick=60 thorough=100
func C04_many() {
	src := manyScript(manySize())
	checkPositions(src, "", mustParse(src))
}

// Scripts with commands of up to 257 parts, or as many commands.
//
//vp:quick=60 thorough=100 reach=tree
func C08_many() { sameCompiled(manyScript(manySize())) }

// Expressions with up to 257 parts of one kind.
//
//vp:quick=60 thorough=100 reach=tree
func C08_manyexpr() { sameCompiledExpr(manyExpr("x", manySize())) }

// Trees with up to 257 parts of one kind.
//
//vp:quick=60 thorough=100 steps=100000000
func C11_many() {
	if forkOn("script", 2) == 1 {
		src := manyScript(manySize())
		walked(mustParse(src), src, false)
		return
	}
	src := manyExpr("x", manySize())
	n, err := parseExpr(src)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	walked(n, src, false)
}

// Expressions with up to 257 parts of one kind.
//
//vp:quick=60 thorough=100 reach=printed
func C12_many() { printedParsed(manyExpr(sym.Pick("leaf", "x", "'s'"), manySize())) }

// repeatedText writes the commands of a body, the same ones once with their
// number.
func repeatedText(l []ast.Statement) string {
	s, last, n := "", "", 0
	for i := 0; i <= len(l); i++ {
		t := ""
		if i < len(l) {
			t = dump(l[i])
		}
		if t == last {
			n++
			continue
		}
		if n > 0 {
			s += strconv.Itoa(n) + " times " + last + "; "
		}
		last, n = t, 1
	}
	return s
}

// Each kind of command up to 257 times, and another behind: its tree as often,
// and the other's.
//
//vp:quick=60 thorough=100 reach=tree
func C10_many() {
	i := forkOn("group", (len(allStmts)+31)/32)
	k := len(allStmts) - 32*i
	if k > 32 {
		k = 32
	}
	s := strings.Replace(allStmts[32*i+forkOn("stmt", k)], "@", "x", -1)
	f, err := parse(s + "\necho 1")
	sym.Assume(err == nil && len(f.Body) > 1)
	n := []int{9, 65, 257}[forkOn("size", 3)]
	want := []ast.Statement{}
	for i := 0; i < n; i++ {
		want = append(want, f.Body[:len(f.Body)-1]...)
	}
	want = append(want, f.Body[len(f.Body)-1])
	sym.Reach("tree")
	g := mustParse(strings.Repeat(s+"\n", n) + "echo 1")
	eq("commands of "+strconv.Itoa(n)+" times", s, repeatedText(g.Body), repeatedText(want))
}

// linear checks that the tree of a script with n of something follows from those
// of the scripts with one and two.
func linear(s ...string) {
	r := strings.Split(s[forkOn("kind", len(s))], "@")
	text := func(n int) string { return r[0] + strings.Repeat(r[1], n) + r[2] }
	tree := func(n int) string { return bodyText(mustParse(text(n)).Body) }
	a, b := tree(1), tree(2)
	p := 0
	for p < len(a) && a[p] == b[p] {
		p++
	}
	k := len(b) - len(a)
	if k < 0 || a[:p]+b[p:p+k]+a[p:] != b {
		sym.Fail("the tree of " + strconv.Quote(text(2)) + " is " + b + ", which does not follow from " + a)
	}
	if k == 0 {
		sym.Reach("nothing more")
	} else {
		sym.Reach("more")
	}
	n := manySize()
	eq("tree", text(n), tree(n), a[:p]+strings.Repeat(b[p:p+k], n-1)+a[p:])
}

// Up to 257 clauses, and commands in a body.
//
//vp:quick=60 thorough=100 reach=more
func C06_many() {
	linear("if 1\n@elseif x\necho y\n@endif\necho 1", "try\n@catch /x/\necho y\n@finally\nendtry\necho 1", "while 1\n@echo x\n@endwhile\necho 1", "function F()\n@return x\n@endfunction", "if 1\nelse\n@call f()|@\nendif",
		"try\nfinally\n@if 1|endif\n@endtry\necho 1", "for a in b\n@try\nendtry\n@endfor", "@while x\nendwhile\n@echo 1", "@function F()\nendfunction\n@echo 1")
}

// Up to 257 lines.
//
//vp:quick=60 thorough=100 reach=more
func C13_many() {
	linear("let x =<< E\n@ y\n@E\necho 1", "const x =<< trim E\n@ y\n@ E\nE\necho 1", "lua << E\n@ y\n@E\necho 1", "append\n@ y\n@.\necho 1", "insert\n@\n@.\necho 1", "python3 <<\n@\"y|\n@.\necho 1", "loadkeymap\n@a b\n@", "let x =<< E\n@\n@E\n",
		"@let x =<< E\ny\nE\n@echo 1", "@append\ny\n.\n@echo 1", "let x =<< E\n@x@\nE", "append\n@x@", "perl @x@")
}

// Up to 257 characters of an argument, and commands in a line.
//
//vp:quick=60 thorough=100 reach=more
func C14_many() {
	linear("set @x@ | echo 1", "e @\\|@ | echo 1", "map a @b@", "autocmd X @| y@", "@set x | @echo 1", "s/@x@/y/g | echo 1", "s/x/@y@/g|echo 1", "s/x/y/@ @1|echo 1", "syn match X /@x@/|echo 1", "normal! @x@", "!@x|@", "global/@x@/d|d", "Foo @|@",
		"syn keyword X@ y@|echo 1", "match X /@[|]@/|echo 1", "set @ @x", "set x@ @|echo 1", "vimgrep /@|@/ f|echo 1", "wincmd @ @j|echo 1", "e `='@|@'`|echo 1", "Foo@o@ x", "sort /@|@/|echo 1")
}

// Up to 257 names, lists of as many, and characters of one.
//
//vp:quick=60 thorough=100 reach=more
func C17_many() {
	linear("unlet@ a@", "unlet! @a.b @c", "lockvar 3@ a@|echo 1", "unlockvar@ a[b]@ \"c", "let [a@, b@; c] = x", "const [a@, b@] = x", "for [a@, b.c@; d] in x\nendfor", "let @a@ = 1", "let $@A@ = 1", "let &@a@ = 1",
		"let a{@b@} = 1", "for @a@ in x\nendfor", "let x@ @= 1", "let [@ @a] = 1", "unlet @ @a", "let x = @ @1")
}

// Up to 257 expressions, and blanks between them.
//
//vp:quick=60 thorough=100 reach=more
func C25_many() {
	linear("echo@ x@|echo 1", "execute@ 'x'@|echo 1", "echomsg@ [x]@\n", "echo@ @x y", "echo x@ @y", "call @ @f(x)",
		"for a in@ @x\nendfor", "try\ncatch@ @/x/\nendtry", "try\ncatch /@x@/|echo 1\nendtry", "try\ncatch /@[/]@/\nendtry", "echohl @N@|echo 1", "if x@ @|endif", "function F()\nreturn@ @x\nendfunction")
}

// Up to 257 comments, and characters of one.
//
//vp:quick=60 thorough=100 reach=more
func C26_many() {
	linear("@\"x\n@echo 1", "\"@x@\necho 1", "echo 1 |@ @\"x", "let x = 1 \"@|@\necho 1", "\"@\"@", "@\"\n@", "if 1\n@\"x\n@endif", "echo 1\n@ @\"x", "set x \"@y@\necho 1", "if 1 \"@x@\nendif", "\"x@\n \\ y@\necho 1")
}

// Up to 257 modifiers, colons, addresses and digits in front of a command.
//
//vp:quick=60 thorough=100 reach=a_command
func C15_many() {
	l := []string{"@silent @d", "@:@d", "@ @d", "@+1@d", "@1,@d", "@/x/;@d", "/@x@/d", "@1@d", "@keepalt sil! @1,2d", "@.;@$d", "'a@-@d", "@3verb @d", "/@[/]@/d", "1@ @,2d", "sil@ @d", "@ :@echo 1", "@/x/@d"}
	r := strings.Split(l[forkOn("kind", len(l))], "@")
	n := manySize()
	if r[1] == "1" && r[0] == "" {
		n = 17
	}
	checkBefore(r[0] + strings.Repeat(r[1], n) + r[2])
}

// An expression with 129 parts of one kind in each place of the commands.
//
//vp:quick=60 thorough=100 reach=tree
func C25_manyexpr() {
	s := stmtHoles[forkOn("stmt", len(stmtHoles))]
	x := manyExpr("x", 129)
	if strings.Contains(s, "{@}") || strings.Contains(s, "x @") && strings.IndexByte("(+-", x[0]) >= 0 {
		sym.Truncate()
	}
	f, err := parse(strings.Replace(s, "@", "zz", -1))
	if err != nil {
		sym.Fail("harness: " + err.Error())
	}
	src := strings.Replace(s, "@", x, -1)
	sym.Reach("tree")
	eq("tree", src, bodyText(mustParse(src).Body), strings.Replace(bodyText(f.Body), "id<zz>", exprText(x), -1))
}
