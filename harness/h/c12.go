package h

import (
	"bytes"
	"errors"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/token"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// binaryOps are the binary operators, one precedence after the other.
var binaryOps = []token.Token{
	token.OROR, token.ANDAND,
	token.EQEQ, token.EQEQCI, token.EQEQCS, token.NEQ, token.NEQCI, token.NEQCS, token.GT, token.GTCI, token.GTCS, token.GTEQ, token.GTEQCI, token.GTEQCS,
	token.LT, token.LTCI, token.LTCS, token.LTEQ, token.LTEQCI, token.LTEQCS, token.MATCH, token.MATCHCI, token.MATCHCS, token.NOMATCH, token.NOMATCHCI, token.NOMATCHCS,
	token.IS, token.ISCI, token.ISCS, token.ISNOT, token.ISNOTCI, token.ISNOTCS,
	token.PLUS, token.MINUS, token.DOT, token.STAR, token.SLASH, token.PERCENT,
}

// levelOps has one operator or two of each precedence.
var levelOps = []token.Token{token.OROR, token.ANDAND, token.EQEQ, token.ISNOT, token.MINUS, token.DOT, token.STAR}

var unaryOps = []token.Token{token.NOT, token.MINUS, token.PLUS}

// meaning writes a tree without its parentheses.
func meaning(x ast.Expr) string {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return meaning(n.X)
	case *ast.BinaryExpr:
		return "(" + strconv.Itoa(int(n.Op)) + " " + meaning(n.Left) + " " + meaning(n.Right) + ")"
	case *ast.UnaryExpr:
		return "(u" + strconv.Itoa(int(n.Op)) + " " + meaning(n.X) + ")"
	case *ast.SubscriptExpr:
		return "(sub " + meaning(n.Left) + " " + meaning(n.Right) + ")"
	case *ast.BasicLit:
		return strconv.Itoa(int(n.Kind)) + "<" + n.Value + ">"
	case *ast.Ident:
		return "id<" + n.Name + ">"
	case nil:
		return "nil"
	}
	return "other" + dump(x)
}

// supported tells whether all of a tree is of the kinds that can be printed.
func supported(x ast.Expr) bool {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return supported(n.X)
	case *ast.BinaryExpr:
		return supported(n.Left) && supported(n.Right)
	case *ast.UnaryExpr:
		return supported(n.X)
	case *ast.SubscriptExpr:
		return supported(n.Left) && supported(n.Right)
	case *ast.BasicLit, *ast.Ident:
		return true
	}
	return false
}

// printedParsed checks what is printed for text that parses. A CR may be a part of
// a literal in the middle of a line only, so it cannot be printed at the end.
func printedParsed(src string) {
	n, err := parseExpr(src)
	if err != nil || strings.IndexByte(src, '\r') >= 0 {
		return
	}
	printed(n)
}

// printed checks what is printed for a tree.
func printed(x ast.Expr) {
	var b, c bytes.Buffer
	err := printer.Fprint(&b, x, nil)
	if !supported(x) {
		if err == nil {
			sym.Fail("unsupported expression printed: " + meaning(x) + " as " + strconv.Quote(b.String()))
		}
		sym.Reach("unsupported")
		return
	}
	if err != nil {
		sym.Fail("not printed: " + meaning(x) + ": " + err.Error())
	}
	sym.Reach("printed")
	y, err := parseExpr(b.String())
	if err != nil {
		sym.Fail(meaning(x) + " is printed as " + strconv.Quote(b.String()) + ": " + err.Error())
	}
	eq("meaning of the printed text", b.String(), meaning(y), meaning(x))
	// what the parser makes of it is printed in the same way
	if err := printer.Fprint(&c, y, &printer.Config{}); err != nil || c.String() != b.String() {
		sym.Fail(strconv.Quote(b.String()) + " is printed as " + strconv.Quote(c.String()))
	}
}

// leaf is a literal or a name.
func leaf(k int) ast.Expr {
	lits := []ast.Expr{
		&ast.Ident{Name: "x"},
		&ast.BasicLit{Kind: token.NUMBER, Value: "1"},
		&ast.BasicLit{Kind: token.STRING, Value: "'s'"},
		&ast.Ident{Name: "s:y"},
		&ast.BasicLit{Kind: token.NUMBER, Value: "1.5e-3"},
		&ast.BasicLit{Kind: token.NUMBER, Value: "0x1F"},
		&ast.BasicLit{Kind: token.BLOB, Value: "0z11"},
		&ast.BasicLit{Kind: token.STRING, Value: "\"a\\\"b\""},
		&ast.BasicLit{Kind: token.OPTION, Value: "&g:ic"},
		&ast.BasicLit{Kind: token.ENV, Value: "$AB"},
		&ast.BasicLit{Kind: token.REG, Value: "@a"},
		&ast.BasicLit{Kind: token.REG, Value: "@@"},
		&ast.Ident{Name: "a#b"},
		&ast.Ident{Name: "isx"},
		&ast.Ident{Name: "e5"},
		&ast.BasicLit{Kind: token.STRING, Value: "''"},
	}
	return lits[k%len(lits)]
}

const leaves = 16

// build makes an arbitrary tree of the given depth.
func build(depth int, ops []token.Token, k *int) ast.Expr {
	kind := 0
	if depth > 0 {
		kind = forkOn("kind", 5)
	}
	switch kind {
	case 1:
		op := ops[forkOn("op", len(ops))]
		l := build(depth-1, ops, k)
		return &ast.BinaryExpr{Left: l, Op: op, Right: build(depth-1, ops, k)}
	case 2:
		op := unaryOps[forkOn("un", len(unaryOps))]
		return &ast.UnaryExpr{Op: op, X: build(depth-1, ops, k)}
	case 3:
		l := build(depth-1, ops, k)
		return &ast.SubscriptExpr{Left: l, Right: build(depth-1, ops, k)}
	case 4:
		return &ast.ParenExpr{X: build(depth-1, ops, k)}
	}
	*k++
	return leaf(*k - 1)
}

// Every tree of depth 2 with every operator.
//
//vp:quick=90 thorough=300 reach=printed
func C12_depth2() {
	k := 0
	printed(build(2, binaryOps, &k))
}

// Every chain of depth 4: a binary operator, a unary operator, an index or
// parentheses on each level, with the deeper expression on either side.
//
//vp:quick=90 thorough=300 reach=printed
func C12_chain4() { chain(4, levelOps) }

// Every chain of depth 5.
//
//vp:thorough=400 reach=printed tier=thorough
func C12_chain5() {
	chain(5, []token.Token{token.OROR, token.ANDAND, token.ISNOTCI, token.DOT, token.SLASH})
}

// Every chain of depth 3 with every operator.
//
//vp:thorough=400 reach=printed tier=thorough
func C12_chain3() { chain(3, binaryOps) }

func chain(depth int, ops []token.Token) {
	x := leaf(0)
	for i := 0; i < depth; i++ {
		y := leaf(i + 1)
		switch forkOn("kind", 6) {
		case 0:
			x = &ast.BinaryExpr{Left: x, Op: ops[forkOn("op", len(ops))], Right: y}
		case 1:
			x = &ast.BinaryExpr{Left: y, Op: ops[forkOn("op", len(ops))], Right: x}
		case 2:
			x = &ast.UnaryExpr{Op: unaryOps[forkOn("un", len(unaryOps))], X: x}
		case 3:
			x = &ast.SubscriptExpr{Left: x, Right: y}
		case 4:
			x = &ast.SubscriptExpr{Left: y, Right: x}
		case 5:
			x = &ast.ParenExpr{X: x}
		}
	}
	printed(x)
}

// Every pair of literals or names around each operator, and indexed by each
// other.
//
//vp:quick=60 thorough=300 reach=printed
func C12_leaves() {
	a, b := leaf(forkOn("a", leaves)), leaf(forkOn("b", leaves))
	switch forkOn("kind", 3) {
	case 0:
		printed(&ast.BinaryExpr{Left: a, Op: binaryOps[forkOn("op", len(binaryOps))], Right: b})
	case 1:
		printed(&ast.SubscriptExpr{Left: a, Right: b})
	case 2:
		printed(&ast.UnaryExpr{Op: unaryOps[forkOn("un", 3)], X: &ast.UnaryExpr{Op: unaryOps[forkOn("un", 3)], X: a}})
	}
}

// Operators with an arbitrary token, and kinds that are not supported, each
// alone and beneath each kind that is.
//
//vp:quick=60 thorough=60 reach=unsupported
func C12_unsupported() {
	x := leaf(0)
	un := []ast.Expr{nil, &ast.TernaryExpr{Condition: x, Left: x, Right: x}, &ast.SliceExpr{X: x}, &ast.CallExpr{Fun: x}, &ast.MethodExpr{Left: x, Method: x},
		&ast.DotExpr{Left: x, Right: &ast.Ident{Name: "a"}}, &ast.List{}, &ast.Dict{}, &ast.CurlyName{}, &ast.LambdaExpr{Expr: x}, &ast.HeredocExpr{}, &ast.CurlyNameLit{}, &ast.CurlyNameExpr{Value: x}}
	y := un[forkOn("kind", len(un))]
	switch forkOn("in", 7) {
	case 0:
		printed(y)
	case 1:
		printed(&ast.ParenExpr{X: y})
	case 2:
		printed(&ast.UnaryExpr{Op: token.NOT, X: y})
	case 3:
		printed(&ast.SubscriptExpr{Left: y, Right: x})
	case 4:
		printed(&ast.SubscriptExpr{Left: x, Right: y})
	case 5:
		printed(&ast.BinaryExpr{Left: y, Op: token.PLUS, Right: x})
	case 6:
		printed(&ast.BinaryExpr{Left: x, Op: token.PLUS, Right: y})
	}
}

// An arbitrary token as operator.
//
//vp:quick=60 thorough=60 reach=error,printed
func C12_anyop() {
	op := token.Token(forkOn("op", 80) - 5)
	ok := false
	var n ast.Expr
	if forkOn("un", 2) == 1 {
		n = &ast.UnaryExpr{Op: op, X: leaf(0)}
		for _, o := range unaryOps {
			ok = ok || o == op
		}
	} else {
		n = &ast.BinaryExpr{Left: leaf(0), Op: op, Right: leaf(1)}
		for _, o := range binaryOps {
			ok = ok || o == op
		}
	}
	if ok {
		printed(n)
		return
	}
	sym.Reach("error")
	var b bytes.Buffer
	if printer.Fprint(&b, n, nil) == nil {
		sym.Fail("an operator that is none is printed: " + strconv.Itoa(int(op)) + " as " + strconv.Quote(b.String()))
	}
}

// Every expression of 3 arbitrary bytes, and what the parser makes of each kind
// of expression with 2 arbitrary bytes in it.
//
//vp:quick=90 thorough=300 reach=printed,unsupported
func C12_parsed() {
	src := sym.Bytes("a", 2) + sym.Pick("m", "", "+1", " is b", "[0]", "(x)", "x", "'", "\"")
	if sym.Choose("k", 2) == 0 {
		src += sym.Bytes("b", 1)
	} else {
		src = "-" + src
	}
	printedParsed(src)
}

// Every expression of 4 arbitrary bytes.
//
//vp:thorough=400 reach=printed,unsupported tier=thorough
func C12_expr4() {
	printedParsed(sym.Bytes("a", 4))
}

type failingWriter struct{ n int }

func (w *failingWriter) Write(b []byte) (int, error) {
	w.n += len(b)
	return 0, errors.New("disk full")
}

// A write error is an error of Fprint and of Compile.
//
//vp:quick=60 thorough=60 reach=tree
func C12_writer() {
	n, err := parseExpr(sym.Bytes("a", 2))
	if err != nil || !supported(n) {
		return
	}
	sym.Reach("tree")
	if printer.Fprint(&failingWriter{}, n, nil) == nil {
		sym.Fail("a write error is lost by Fprint")
	}
	if compiler.Compile(&failingWriter{}, n) == nil {
		sym.Fail("a write error is lost by Compile")
	}
}

// A kind of an expression in each place of each other kind, parsed.
//
//vp:quick=60 thorough=300 reach=printed,unsupported
func C12_nested() { printedParsed(nestedExpr(2, sym.Pick("leaf", "x", "'s'", "1"))) }

// The same three deep.
//
//vp:thorough=600 tier=thorough reach=printed,unsupported
func C12_nested3() { printedParsed(nestedExpr(3, "x")) }
