package h

import (
	"bytes"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	internal "github.com/vim-jp/go-vimlparser/go"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

func compileText(n ast.Node) string {
	var b bytes.Buffer
	if err := compiler.Compile(&b, n); err != nil {
		sym.Fail("compiling fails: " + err.Error())
	}
	return b.String()
}

// splitLines splits a file as the readers of the package do: CR is left to the parser.
func splitLines(src string) []string {
	var l []string
	for len(src) > 0 {
		i := 0
		for i < len(src) && src[i] != '\n' {
			i++
		}
		l = append(l, src[:i])
		if i == len(src) {
			break
		}
		src = src[i+1:]
	}
	return l
}

// sameCompiled compares the compiler package with the reference compiler.
func sameCompiled(src string) {
	f, err := parse(src)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("tree")
	want := internal.VerifCompileScript(splitLines(src), false)
	got := compileText(f)
	eq("compiled form", src, strings.TrimRight(got, "\n"), strings.TrimRight(want, "\n"))
	if want != "" && got != "" && got[len(got)-1] != '\n' {
		sym.Fail("the last line is not complete: " + got)
	}
}

func sameCompiledExpr(src string) {
	n, err := parseExpr(src)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("tree")
	eq("compiled form", src, compileText(n), internal.VerifCompileExpr(splitLines(src)))
}

// Every expression of 4 arbitrary bytes.
//
//vp:thorough=300 reach=tree,error tier=thorough
func C08_expr4() { sameCompiledExpr(sym.Bytes("src", 4)) }

// Every expression of 3 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_expr3() { sameCompiledExpr(sym.Bytes("src", 3)) }

// Two operators of any kind between three operands of any kind.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_ops() {
	b := sym.PickSym("o1", "||     ", "&&     ", "==     ", "==#    ", "==?    ", "!=     ", "!=#    ", "!=?    ", ">      ", ">#     ", ">?     ", ">=     ", ">=#    ", ">=?    ", "<      ",
		"<#     ", "<?     ", "<=     ", "<=#    ", "<=?    ", "=~     ", "=~#    ", "=~?    ", "!~     ", "!~#    ", "!~?    ", "is     ", "is#    ", "is?    ", "isnot  ", "isnot# ", "isnot? ",
		"+      ", "-      ", "..     ", ".      ", "*      ", "/      ", "%      ", "? a :  ")
	sameCompiledExpr(sym.Pick("x", "a", "-1", "!f(a, b)", "x.y[1:]") + " " + b + sym.Pick("y", "b", "+'s'", "(c)") + " " + pickOp("o2") + " " + sym.Pick("z", "[1, 'a']", "{'k': v}"))
}

// Every kind of expression with 2 arbitrary bytes in front, within or behind.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_tails() {
	t := sym.Pick("tail", tails...)
	i := sym.Choose("at", len(t)+1)
	sameCompiledExpr(t[:i] + sym.Bytes("b", 1) + t[i:])
}

// allStmts are commands with places for text.
var allStmts = append([]string{
	"\"@", "echo '@'", "echo \"@\" x", "let x = '@'", "let a@ = 1", "foo@", "Foo @", "e @", "catch @", "echohl @", "let x =<< E\n@\nE", "let x =<< trim E\n @\nE", "a\n@\n.",
	"let x = &@", "function F@()\nendfunction", "function F(@)\nendfunction", "function F(a = '@')\nendfunction", "if '@'\nendif", "throw '@'", "let x = {'@': 1}",
	"let x = #{@: 1}", "try\ncatch /@/\nendtry", "while '@'\nif a\nendif\nendwhile", "call f('@')", "call '@'->f()", "execute '@'", "unlet x@", "lockvar @ x", "delfunction F@",
	"return '@'", "let x = a{'@'}b", "let x = {a -> '@'}", "for x in '@'\nendfor", "eval '@'->f()", "let [a@, b; c] = d", "const x = '@'", "echo @", "lua << @\n@", "finish\n@",
	"syn @", "wincmd @", "s/@/", "@", "1@", "echo 1|@"}, stmts...)

// Every kind of command with 2 arbitrary bytes at the places where text may be.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_stmts() {
	b := sym.Bytes("b", 2)
	s := sym.Pick("stmt", allStmts...)
	sameCompiled(strings.Replace(s, "@", b, -1))
}

// Here-documents with up to 3 flags and 3 lines.
//
//vp:quick=60 thorough=300 reach=tree
func C08_heredoc() {
	s := sym.Pick("cmd", "let", "const", "let [a, b; c]", "silent let")
	if s == "let" || s == "const" || s == "silent let" {
		s += " x"
	}
	s += " =<<"
	for i := sym.Choose("flags", 4); i > 0; i-- {
		s += " " + sym.Pick("flag", "trim", "eval", "b")
	}
	s += " E\n"
	for i := sym.Choose("lines", 4); i > 0; i-- {
		s += sym.Pick("line", "", " x", "\"\\|\t")
		s += "\n"
	}
	sameCompiled(s + "E" + sym.Pick("rest", "", "\necho 1"))
}

// A block of each kind within a block of each kind, with a body of each kind:
// indentation.
//
//vp:quick=60 thorough=300 reach=tree
func C08_blocks() {
	s := sym.Pick("s", "", "echo 1\n", "\"c\n", "a\nx\n.\n", "let x =<< E\n y\nE\n", "a\n.\necho 3\n")
	for i := 0; i < 3; i++ {
		w := sym.Pick("b", "if 1\n@endif\n", "if 1\necho 0\nelseif 2\n@else\n@endif\n", "while 1\n@endwhile\n", "for [a, b; c] in d\n@endfor\n", "for a in d\n@endfor\n",
			"try\n@catch\n@catch /x/\n@finally\n@endtry\n", "function! F(a, b = 1, ...) range abort dict closure\n@endfunction\n", "function f.g()\n@endfunction\n", "@echo 2\n")
		s = strings.Replace(w, "@", s, -1)
	}
	sameCompiled(s)
}

// A kind of an expression in each place of each other kind.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_nested() { sameCompiledExpr(nestedExpr(2, sym.Pick("leaf", "x", "\"s\""))) }

// The same three deep.
//
//vp:thorough=600 tier=thorough reach=tree,error
func C08_nested3() { sameCompiledExpr(nestedExpr(3, "x")) }

// Each kind of an expression in each place of the commands.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_places() { sameCompiled(nestedStmt(1)) }

// The commands of a script compiled one by one give the lines of the script,
// with one compiler for all as well as with one for each.
//
//vp:quick=60 thorough=60 reach=tree
func C08_alone() {
	s := sym.Pick("s", "", "echo 1\n", "\"c\n", "a\nx\n.\n", "let x =<< E\n y\nE\n", "a\n.\necho 3\n")
	for i := 0; i < 2; i++ {
		w := sym.Pick("b", append([]string{"@", "@echo 2\n", "\"x\n@", "let y = [1]\n@", "call f()|@"}, oneBlock...)...)
		s = strings.Replace(w, "@", s, -1)
	}
	f, err := parse(s)
	if err != nil {
		return
	}
	sym.Reach("tree")
	want := compileText(f)
	got := ""
	one := ""
	c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	for _, n := range f.Body {
		got += compileText(n)
		var b bytes.Buffer
		if err := c.Compile(&b, n); err != nil {
			sym.Fail("compiling fails: " + err.Error())
		}
		one += b.String()
	}
	eq("compiled commands one by one", s, got, want)
	eq("compiled commands one by one with one compiler", s, one, want)
	// no indentation
	var b bytes.Buffer
	if err := (&compiler.Compiler{}).Compile(&b, f); err != nil {
		sym.Fail("compiling fails: " + err.Error())
	}
	eq("compiled form without indentation", s, unindent(b.String()), unindent(want))
}

func unindent(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		l[i] = strings.TrimLeft(l[i], " ")
	}
	return strings.Join(l, "\n")
}

var oneBlock = []string{"if 1\n@endif\n", "if 1\necho 0\nelseif 2\n@else\n@endif\n", "while 1\n@endwhile\n", "for [a, b; c] in d\n@endfor\n", "for a in d\n@endfor\n",
	"try\n@catch\n@catch /x/\n@finally\n@endtry\n", "function! F(a, b = 1, ...) range abort dict closure\n@endfunction\n"}

// The last command of a block with 2 arbitrary bytes at its end.
//
//vp:quick=60 thorough=300 reach=tree,error
func C08_last() {
	w := sym.Pick("b", "if 1\n@\nendif", "if 1\n@\nelse\nif 2\n@\nendif\nendif", "try\n@\ncatch\n@\nfinally\n@\nendtry", "function F()\n@\nendfunction", "while 1\n@\nendwhile", "for a in b\n@\nendfor", "@")
	s := sym.Pick("s", "\"", "foo ", "a\nx", "normal ", "let x =<< E\n", "Foo", "echo '")
	b := sym.Bytes("b", 2)
	end := map[string]string{"a\nx": "\n.", "let x =<< E\n": "\nE", "echo '": "'"}[s]
	sameCompiled(strings.Replace(w, "@", s+b+end, -1))
}
