package h

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// consumers are the things that can be done with a tree; each returns what it
// puts out.
var consumers = []func(n ast.Node) string{
	func(n ast.Node) string { return compileText(n) },
	func(n ast.Node) string {
		// one compiler used twice
		c := &compiler.Compiler{Config: compiler.Config{Indent: "\t"}}
		var a, b bytes.Buffer
		if c.Compile(&a, n) != nil || c.Compile(&b, n) != nil {
			sym.Fail("compiling fails")
		}
		if a.String() != b.String() {
			sym.Fail("a compiler puts out " + strconv.Quote(a.String()) + " at first and then " + strconv.Quote(b.String()))
		}
		return a.String()
	},
	func(n ast.Node) string {
		r := &record{cut: -1}
		ast.Walk(&recorder{r, 0}, n)
		s := ""
		for _, e := range r.ev {
			if e.node != nil {
				p := e.node.Pos()
				s += posText(p.Offset, p.Line, p.Column)
			}
			s += "." + strconv.Itoa(e.depth)
			if c, ok := e.node.(ast.ExCommand); ok {
				s += c.Cmd().Name
			}
		}
		return s
	},
	func(n ast.Node) string {
		k := 0
		ast.Inspect(n, func(x ast.Node) bool {
			k++
			return x != nil && k%3 != 0
		})
		return strconv.Itoa(k)
	},
	func(n ast.Node) string {
		// every expression in the tree
		s := ""
		ast.Inspect(n, func(x ast.Node) bool {
			if e, ok := x.(ast.Expr); ok {
				var b bytes.Buffer
				if err := printer.Fprint(&b, e, nil); err != nil {
					s += "!" + err.Error()
				}
				s += b.String() + ";"
			}
			return true
		})
		return s
	},
}

// unchanged runs every consumer twice, in both orders, on a tree whose memory
// is watched since it was allocated.
func unchanged(src string, f func() ast.Node) {
	sym.Share(true)
	n := f()
	sym.Share(false)
	if n == nil {
		return
	}
	sym.Reach("tree")
	global := sym.GlobalWrites()
	before := dumpAll(n)
	if !sym.Symbolic() {
		// for the race detector
		done := make(chan string, 2*len(consumers))
		for i := 0; i < 2*len(consumers); i++ {
			c := consumers[i/2]
			go func() {
				defer func() {
					if x := recover(); x != nil {
						done <- fmt.Sprint(x)
					}
				}()
				c(n)
				done <- ""
			}()
		}
		for i := 0; i < 2*len(consumers); i++ {
			if e := <-done; e != "" {
				sym.Fail("a consumer fails when others run: " + e)
			}
		}
	}
	out := make([]string, len(consumers))
	for i, c := range consumers {
		out[i] = c(n)
	}
	eq("tree after the consumers", src, dumpAll(n), before)
	for i := range consumers {
		k := len(consumers) - 1 - i
		eq("second output of consumer "+strconv.Itoa(k), src, consumers[k](n), out[k])
	}
	eq("tree after the consumers", src, dumpAll(n), before)
	if w := sym.SharedWrites(); w != "" {
		sym.Fail("a consumer writes to the tree of " + strconv.Quote(src) + ": " + w)
	}
	if w := sym.GlobalWrites(); w != global {
		sym.Fail("a consumer writes to shared memory for " + strconv.Quote(src) + ": " + w)
	}
}

// Numbers of up to 3 digits wherever commands keep one.
//
//vp:quick=60 thorough=60 reach=tree race=1
func C09_numbers() {
	n := "1"
	for i := sym.Choose("n", 4); i > 0; i-- {
		n += sym.BytesIn("d", 1, "059")
	}
	unchangedScript(strings.Replace(sym.Pick("s", "lockvar @ a", "unlockvar! @ a b", "@verbose echo 1", "@tab e x", "@print", "1,@d", "@wincmd @", "echo @", "let a[@:@] = @", "%@d", "call f(@)"), "@", n, -1))
}

func unchangedScript(src string) {
	unchanged(src, func() ast.Node {
		f, err := parse(src)
		if err != nil {
			return nil
		}
		return f
	})
}

// Every kind of expression with an arbitrary byte in front, within or behind.
//
//vp:quick=60 thorough=300 reach=tree race=1
func C09_tails() {
	t := sym.Pick("tail", tails...)
	i := sym.Choose("at", len(t)+1)
	src := t[:i] + sym.Bytes("b", 1) + t[i:]
	unchanged(src, func() ast.Node {
		n, err := parseExpr(src)
		if err != nil {
			return nil
		}
		return n
	})
}

// Every kind of command with an arbitrary byte at the places where text may be
// and behind.
//
//vp:quick=60 thorough=300 reach=tree race=1
func C09_stmts() {
	s := sym.Pick("stmt", allStmts...)
	unchangedScript(strings.Replace(s, "@", sym.Bytes("b", 1), -1) + sym.Pick("e", "\n", "|", " \"c"))
}

// A block of each kind within a block of each kind.
//
//vp:quick=60 thorough=300 reach=tree race=1
func C09_blocks() {
	s := sym.Pick("s", "", "echo 1\n", "\"c\n", "let x =<< E\n y\n  z\nE\n")
	for i := 0; i < 2; i++ {
		s = strings.Replace(sym.Pick("b", blocks...), "@", s, -1)
	}
	unchangedScript(s)
}

// Functions with up to 4 parameters, of which any number has default values,
// and a variadic marker.
//
//vp:quick=60 thorough=60 reach=tree race=1
func C09_params() {
	n, d, v := forkOn("n", 5), forkOn("d", 5), forkOn("v", 2)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += "a" + strconv.Itoa(i)
		if i >= n-d {
			s += " = " + strconv.Itoa(i)
		}
	}
	if v == 1 {
		if n > 0 {
			s += ", "
		}
		s += "..."
	}
	unchangedScript("function F(" + s + ")\nreturn " + sym.BytesIn("x", 1, "a1") + "\nendfunction\n")
}

// A kind of an expression in each place of the commands.
//
//vp:quick=60 thorough=300 reach=tree race=1
func C09_places() { unchangedScript(nestedStmt(1)) }

// A kind of an expression in each place of each other kind.
//
//vp:quick=60 thorough=300 reach=tree race=1
func C09_nested() {
	src := nestedExpr(2, "x")
	unchanged(src, func() ast.Node {
		n, err := parseExpr(src)
		if err != nil {
			return nil
		}
		return n
	})
}
