package h

import (
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// tails are expressions with every kind of node.
var tails = []string{"a.b[c]", "f(x, y)[1:2]", "{a, b -> a}(1)", "[1, {'k': v}]", "p{q}r{s}", "-!+x", "x->f(1)", "#{k: v, l-1: w}", "&ic", "$AB",
	"@a", "(x)", "a ? b : c", "0z11", "x is# y", "a[:b][c:]", "\"d\\\"q\"", "s:v:w", "<SID>f()", "1.5e3 * 0x1F", "x || y && z =~? w", "...{", "é"}

// Positions in an expression after a string with 3 arbitrary bytes, a
// continuation line and white space.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C04_expr() {
	sameExpr("['" + sym.Bytes("s", 3) + "'" + sym.Pick("nl", "\n", "\r\n", "\n\n") + sym.BytesIn("w", 1, " \t") + "\\" + sym.BytesIn("v", 1, " \t,") +
		"," + sym.Pick("tail", tails...) + "]")
}

// Positions in an expression that is cut by continuation lines at two
// arbitrary places.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C04_cut() {
	t := sym.Pick("tail", tails...)
	i := 1 + sym.Choose("cut", len(t))
	src := t[:i] + sym.Pick("nl", "\n\\", "\r\n\\", "\n \\", "\n\\\n\t\\") + t[i:]
	j := i + 2 + sym.Choose("cut2", 3)
	if j < len(src) && !strings.HasPrefix(src[j:], "\\") && !strings.HasPrefix(src[j:], "\n") && !strings.HasPrefix(src[j:], "\t") {
		src = src[:j] + "\n\\" + src[j:]
	}
	sameExpr(src)
}

// stmts are commands with every kind of node.
var stmts = []string{
	"let a = b", "let [a, b; c] += d", "let a.b[c] .= d", "const X = 1", "unlet! a b.c", "lockvar 2 a b", "unlockvar a",
	"call f(x)", "call a.b(c)", "return", "return x", "echo a b", "echomsg 'x'", "echohl None", "execute a b", "throw x", "eval x->f()",
	"if a\nelseif b\necho 1\nelse\necho 2\nendif", "while x\nbreak\ncontinue\nendwhile", "for [a, b; c] in d\necho a\nendfor", "for x in y\nendfor",
	"try\necho 1\ncatch /x/\necho 2\nfinally\necho 3\nendtry",
	"function F(a, b = 1, ...) range abort\nreturn a\nendfunction", "function! s:f() dict closure\nendfunction", "delfunction F",
	"let a =<< trim END\nx\n  y\nEND", "append\nx\n.", "python << E\nx\nE", "silent! 1,2s/a/b/ | echo 1", "3verbose set x", "\"comment", "echo 1 \" comment",
	"e ++enc=x +cmd file", "w! >>f", "Foo! bar", "1,5", "'<,'>normal! x", "g/x/d", "map a b", "au X * if 1 | endif",
}

// Positions in scripts: each kind of command after 2 arbitrary bytes in a
// comment, blank lines, and white space.
//
//vp:quick=60 thorough=300 reach=tree,error
func C04_script() {
	nl := sym.Pick("nl", "\n", "\r\n")
	s := sym.Pick("stmt", stmts...)
	if nl != "\n" {
		s = strings.Replace(s, "\n", nl, -1)
	}
	src := "\"" + sym.Bytes("c", 2) + nl + sym.Pick("p", "", "\n", "\t", ": ", "echo 'é' |", "silent ", "é\n\n  ") + s + sym.Pick("e", "", "\n")
	f, err := vimlparser.ParseFile(strings.NewReader(src), "f.vim", nil)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("tree")
	checkPositions(src, "f.vim", f)
}

// Positions in a kind of an expression in each place of each other kind, around
// multi-byte characters and a continuation line.
//
//vp:quick=60 thorough=300 reach=accepted,rejected
func C04_nested() { sameExpr(nestedExpr(2, "f('\u00e9',\n \\ x)")) }

// Positions of a kind of an expression in each place of the commands.
//
//vp:quick=60 thorough=300 reach=tree,error
func C04_places() {
	src := sym.Pick("p", "", "\n\t", "echo 'é' | silent ") + nestedStmt(1)
	if forkOn("cr", 2) == 1 {
		src = strings.Replace(src, "\n", "\r\n", -1)
	}
	f, err := vimlparser.ParseFile(strings.NewReader(src), "f.vim", nil)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("tree")
	checkPositions(src, "f.vim", f)
}

// farScript is a script of each kind of command and of lines cut in pieces.
var farScript = "let x = [a,\n\\ 'é',\n\t\\ b.c]\nif a | echo 1\nelseif\n \\ b\nendif\n\"c\nfunction F(a,\n\\ b = 1, ...) abort\nreturn a ? b : c\nendfunction\nlet y =<< E\nx\nE\ntry\ncatch /x/\nendtry\nappend\nx\n.\nfor a in b\nendfor\necho 1\n\\ +\n\\ 2 | \" c"

// far is text that moves what follows to a high line, column or offset.
func far(kinds int) string {
	switch forkOn("far", kinds) {
	case 0:
		return strings.Repeat("\n", 300)
	case 1:
		return strings.Repeat(" ", 5000)
	case 2:
		return "\"" + strings.Repeat("é", 300) + "\n\t"
	case 3:
		return strings.Repeat("\r\n", 9000)
	case 4:
		return strings.Repeat("\n", 66000)
	}
	return "\"" + strings.Repeat("x", 66000) + "\n" + strings.Repeat(" ", 66000)
}

// Positions far behind the start of the text: up to line 66001, column 66001
// and offset 132002.
//
//vp:quick=60 thorough=300 reach=tree,error steps=400000000 samples=12
func C04_far() {
	src := far(6)
	if len(src) < 6000 {
		src += sym.Pick("stmt", append(stmts, farScript)...)
	} else {
		src += farScript
	}
	f, err := parse(src)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("tree")
	checkPositions(src, "", f)
}
