package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

func c01Expr(src string) {
	n, err := vimlparser.ParseExpr(strings.NewReader(src))
	if err != nil {
		if n != nil {
			sym.Fail("both a tree and an error for " + src)
		}
		if _, ok := err.(*vimlparser.ErrVimlParser); !ok {
			sym.Fail("untyped error " + err.Error() + " for " + src)
		}
		sym.Observe("err", err.Error())
		sym.Reach("error")
		return
	}
	if n == nil {
		sym.Fail("neither tree nor error for " + src)
	}
	sym.Reach("tree")
}

// Every expression of 3 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_expr3() {
	c01Expr(sym.Bytes("src", 3))
}

func c01Script(src string) {
	f, err := vimlparser.ParseFile(strings.NewReader(src), "f.vim", nil)
	if err != nil {
		if f != nil {
			sym.Fail("both a tree and an error for " + strconv.Quote(src))
		}
		e, ok := err.(*vimlparser.ErrVimlParser)
		if !ok {
			sym.Fail("untyped error " + err.Error() + " for " + strconv.Quote(src))
		}
		if e.Msg == "" {
			sym.Fail("error without a message for " + strconv.Quote(src))
		}
		sym.Observe("err", err.Error())
		sym.Reach("error")
		return
	}
	if f == nil {
		sym.Fail("neither tree nor error for " + strconv.Quote(src))
	}
	sym.Reach("tree")
}

// Every script of 3 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_script3() {
	c01Script(sym.Bytes("src", 3))
}

// Every script of 4 arbitrary bytes.
//
//vp:thorough=600 reach=tree,error tier=thorough
func C01_script4() {
	c01Script(sym.Bytes("src", 4))
}

// A command of each analysed kind with 2 arbitrary bytes after it.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_commands() {
	c01Script(sym.Pick("cmd", "let", "let a", "let [", "let a =<<", "const", "unlet", "lockvar", "call", "call f(", "return", "echo", "echohl",
		"execute", "throw", "eval", "if", "if 1\n", "if 1\nelse", "while", "for", "for a in", "try\ncatch", "fu", "fu F(", "fu F()", "fu F(a=",
		"delf", "append\n", "py <<", "e ", "e ++", "e +", "w ", "r ", "wincmd", "syn", "syn match", "g/", "s/", "silent", "verbose", "tab", "1", "'", "/a",
		"loadk", "fini", "au", "map", "norm", "redir", "@", "k", "*", "<", "pu", "com", "3ma", "'<,'>", "z", "endf", "e `=", "lua <<", "aug") + sym.Bytes("a", 2))
}

// A command of each analysed kind with 3 arbitrary bytes after it.
//
//vp:thorough=600 reach=tree,error tier=thorough
func C01_commands3() {
	c01Script(sym.Pick("cmd", "let", "let a", "let [", "let a =<<", "const", "unlet", "lockvar", "call", "call f(", "return", "echo",
		"if", "if 1\n", "for a in", "try\ncatch", "fu", "fu F(", "fu F()", "append\n", "py <<", "e ++", "e +", "w ", "r ", "wincmd", "syn match", "g/", "silent", "1", "'", "/a", "redir") + sym.Bytes("a", 3))
}

// Each kind of expression where each command takes one, with an arbitrary byte
// behind.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_operands() {
	c01Script(strings.Replace(sym.Pick("cmd", "call @", "call f(@", "return @", "echo @", "echon 1 @", "execute @", "throw @", "eval @", "if @", "if 1\nelseif @", "while @", "for a in @", "for [a, b] in @", "for @ in b",
		"let @ = 1", "let a = @", "let [@] = a", "let @ =<< E\nE", "const @ = 1", "unlet @", "lockvar @", "fu F(a = @", "fu @()", "delf @", "@", "1@"), "@", sym.Pick("e", tails...), 1) + sym.Bytes("b", 1))
}

// Expressions of 5 of the characters that open, close and separate things.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_brackets() {
	c01Expr(sym.BytesIn("src", 5, "a{}[]()#:,->'\n\\"))
}

// Expressions cut off anywhere after 2 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=tree,error
func C01_cutoff() {
	s := sym.Pick("e", tails...)
	c01Expr(s[:1+sym.Choose("n", len(s))] + sym.Bytes("b", 2))
}
