package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// children lists the nodes directly beneath a node in source order.
func children(node ast.Node) []ast.Node {
	var l []ast.Node
	one := func(x ast.Expr) {
		if x != nil {
			l = append(l, x)
		}
	}
	exprs := func(xs []ast.Expr) {
		for _, x := range xs {
			one(x)
		}
	}
	idents := func(xs []*ast.Ident) {
		for _, x := range xs {
			l = append(l, x)
		}
	}
	body := func(xs []ast.Statement) {
		for _, x := range xs {
			l = append(l, x)
		}
	}
	switch n := node.(type) {
	case *ast.File:
		body(n.Body)
	case *ast.Function:
		one(n.Name)
		// a default value follows its parameter
		k := len(n.Params)
		if k > 0 && n.Params[k-1].Name == "..." {
			k--
		}
		for i, p := range n.Params {
			l = append(l, p)
			if j := i - (k - len(n.DefaultArgs)); i < k && j >= 0 {
				one(n.DefaultArgs[j])
			}
		}
		body(n.Body)
		if n.EndFunction != nil {
			l = append(l, n.EndFunction)
		}
	case *ast.DelFunction:
		one(n.Name)
	case *ast.Return:
		one(n.Result)
	case *ast.ExCall:
		l = append(l, n.FuncCall)
	case *ast.Let:
		one(n.Left)
		exprs(n.List)
		one(n.Rest)
		one(n.Right)
	case *ast.UnLet:
		exprs(n.List)
	case *ast.LockVar:
		exprs(n.List)
	case *ast.UnLockVar:
		exprs(n.List)
	case *ast.If:
		one(n.Condition)
		body(n.Body)
		for _, e := range n.ElseIf {
			l = append(l, e)
		}
		if n.Else != nil {
			l = append(l, n.Else)
		}
		if n.EndIf != nil {
			l = append(l, n.EndIf)
		}
	case *ast.ElseIf:
		one(n.Condition)
		body(n.Body)
	case *ast.Else:
		body(n.Body)
	case *ast.While:
		one(n.Condition)
		body(n.Body)
		if n.EndWhile != nil {
			l = append(l, n.EndWhile)
		}
	case *ast.For:
		one(n.Left)
		exprs(n.List)
		one(n.Rest)
		one(n.Right)
		body(n.Body)
		if n.EndFor != nil {
			l = append(l, n.EndFor)
		}
	case *ast.Try:
		body(n.Body)
		for _, c := range n.Catch {
			l = append(l, c)
		}
		if n.Finally != nil {
			l = append(l, n.Finally)
		}
		if n.EndTry != nil {
			l = append(l, n.EndTry)
		}
	case *ast.Catch:
		body(n.Body)
	case *ast.Finally:
		body(n.Body)
	case *ast.Throw:
		one(n.Expr)
	case *ast.Eval:
		one(n.Expr)
	case *ast.EchoCmd:
		exprs(n.Exprs)
	case *ast.Execute:
		exprs(n.Exprs)
	case *ast.TernaryExpr:
		one(n.Condition)
		one(n.Left)
		one(n.Right)
	case *ast.BinaryExpr:
		one(n.Left)
		one(n.Right)
	case *ast.UnaryExpr:
		one(n.X)
	case *ast.SubscriptExpr:
		one(n.Left)
		one(n.Right)
	case *ast.SliceExpr:
		one(n.X)
		one(n.Low)
		one(n.High)
	case *ast.MethodExpr:
		one(n.Left)
		one(n.Method)
		exprs(n.Args)
	case *ast.CallExpr:
		one(n.Fun)
		exprs(n.Args)
	case *ast.DotExpr:
		one(n.Left)
		l = append(l, n.Right)
	case *ast.List:
		exprs(n.Values)
	case *ast.Dict:
		for _, e := range n.Entries {
			one(e.Key)
			one(e.Value)
		}
	case *ast.CurlyName:
		for _, p := range n.Parts {
			l = append(l, p)
		}
	case *ast.CurlyNameExpr:
		one(n.Value)
	case *ast.LambdaExpr:
		idents(n.Params)
		one(n.Expr)
	case *ast.ParenExpr:
		one(n.X)
	case *ast.HeredocExpr:
		exprs(n.Flags)
		exprs(n.Body)
	case *ast.Comment, *ast.Excmd, *ast.EndFunction, *ast.EndIf, *ast.EndWhile, *ast.EndFor, *ast.EndTry,
		*ast.Continue, *ast.Break, *ast.Echohl, *ast.BasicLit, *ast.Ident, *ast.CurlyNameLit:
	default:
		sym.Fail("unknown node")
	}
	return l
}

// event is one call of a visitor.
type event struct {
	node  ast.Node // nil after the children
	depth int      // of the visitor that was called
}

// events lists the calls that Walk makes for a tree; the visitor returns nil at
// the node with the number cut.
func events(n ast.Node, depth, cut int, num *int, to []event) []event {
	to = append(to, event{n, depth})
	k := *num
	*num++
	if k == cut {
		return to
	}
	for _, c := range children(n) {
		to = events(c, depth+1, cut, num, to)
	}
	return append(to, event{nil, depth + 1})
}

type recorder struct {
	r     *record
	depth int
}

type record struct {
	num, cut int
	ev       []event
}

func (v *recorder) Visit(n ast.Node) ast.Visitor {
	v.r.ev = append(v.r.ev, event{n, v.depth})
	if n == nil {
		return nil
	}
	k := v.r.num
	v.r.num++
	if k == v.r.cut {
		return nil
	}
	return &recorder{v.r, v.depth + 1}
}

func eventText(ev []event) string {
	s := ""
	for _, e := range ev {
		if e.node == nil {
			s += ")"
		} else {
			d := dump(e.node)
			for i := 0; i < len(d); i++ {
				if d[i] == ' ' || d[i] == '<' || d[i] == '{' && i > 0 {
					d = d[:i]
				}
			}
			s += " (" + d
		}
		s += strconv.Itoa(e.depth)
	}
	return s
}

func sameEvents(what, src string, got, want []event, depth bool) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].node == want[i].node && (!depth || got[i].depth == want[i].depth)
	}
	if !ok {
		sym.Fail(what + " of " + strconv.Quote(src) + " visits" + eventText(got) + ", not" + eventText(want))
	}
}

// first is the smallest offset in a tree.
func first(n ast.Node) int {
	o := n.Pos().Offset
	for _, c := range children(n) {
		if k := first(c); k < o {
			o = k
		}
	}
	return o
}

// inOrder checks that the children of each node are listed in source order.
func inOrder(n ast.Node, src string) {
	last := -1
	for _, c := range children(n) {
		if k := first(c); k < last {
			sym.Fail("children are not in source order: " + dump(n) + " in " + strconv.Quote(src))
		} else {
			last = k
		}
		inOrder(c, src)
	}
}

// walked checks Walk and Inspect for a tree and one node where they stop.
func walked(n ast.Node, src string, cut bool) {
	inOrder(n, src)
	num := 0
	all := events(n, 0, -1, &num, nil)
	at := -1
	want := all
	if cut {
		at = forkOn("cut", num)
		num = 0
		want = events(n, 0, at, &num, nil)
	}
	r := &record{cut: at}
	ast.Walk(&recorder{r, 0}, n)
	sameEvents("Walk", src, r.ev, want, true)
	// Inspect: the same nodes
	k := 0
	var ev, wantI []event
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		ev = append(ev, event{x, 0})
		k++
		return k-1 != at
	})
	for _, e := range want {
		if e.node != nil {
			wantI = append(wantI, event{e.node, 0})
		}
	}
	sameEvents("Inspect", src, ev, wantI, false)
}

// Every kind of expression with an arbitrary byte in front, within or behind,
// cut at every node.
//
//vp:quick=60 thorough=300 reach=tree
func C11_tails() {
	t := sym.Pick("tail", tails...)
	i := sym.Choose("at", len(t)+1)
	src := t[:i] + sym.Bytes("b", 1) + t[i:]
	n, err := parseExpr(src)
	if err != nil {
		return
	}
	sym.Reach("tree")
	walked(n, src, true)
}

// Every kind of command, with an arbitrary byte after it and each kind of
// expression, cut at every node.
//
//vp:quick=60 thorough=300 reach=tree
func C11_stmts() {
	s := sym.Pick("stmt", allStmts...)
	src := strings.Replace(s, "@", sym.Pick("e", "", "x", "(a)", "f(b, c)", "{x -> y}", "[p, q]"), -1) + sym.Bytes("b", 1)
	f, err := parse(src)
	if err != nil {
		return
	}
	sym.Reach("tree")
	walked(f, src, true)
}

// A block of each kind within a block of each kind.
//
//vp:quick=60 thorough=300
func C11_blocks() {
	s := sym.Pick("s", "", "echo 1\n", "\"c\n", "let x =<< E\n y\n  z\nE\n")
	for i := 0; i < 2; i++ {
		s = strings.Replace(sym.Pick("b", blocks...), "@", s, -1)
	}
	walked(mustParse(s), s, true)
}

// blocks are blocks of each kind with places for a body.
var blocks = []string{"if 1\n@endif\n", "if 1\necho 0\nelseif 2\n@elseif 3\n@else\n@endif\n", "while 1\n@endwhile\n", "for [a, b; c] in d\n@endfor\n", "for a in d\n@endfor\n",
	"try\n@catch\n@catch /x/\n@finally\n@endtry\n", "function! F(a, b = 1, ...) range abort dict closure\n@endfunction\n", "function f.g(a = 1, b = a)\n@endfunction\n", "@echo 2\n"}

// Incomplete trees, as tools may build them: the absent parts are not visited.
//
//vp:quick=60 thorough=60
func C11_partial() {
	x := &ast.Ident{Name: "x"}
	var c ast.Expr
	if sym.Choose("x", 2) == 1 {
		c = x
	}
	var b []ast.Statement
	if sym.Choose("b", 2) == 1 {
		b = []ast.Statement{&ast.Break{}, &ast.Return{Result: c}}
	}
	ns := []ast.Node{
		&ast.If{Condition: c, Body: b}, &ast.If{Condition: c, Body: b, EndIf: &ast.EndIf{}}, &ast.If{Condition: c, Body: b, Else: &ast.Else{Body: b}},
		&ast.If{Condition: c, ElseIf: []*ast.ElseIf{{Condition: c, Body: b}}}, &ast.While{Condition: c, Body: b}, &ast.While{Condition: c, EndWhile: &ast.EndWhile{}},
		&ast.For{Left: c, Right: c, Body: b}, &ast.For{List: []ast.Expr{x}, Rest: c, EndFor: &ast.EndFor{}}, &ast.Try{Body: b},
		&ast.Try{Catch: []*ast.Catch{{Body: b}}}, &ast.Try{Finally: &ast.Finally{Body: b}}, &ast.Try{EndTry: &ast.EndTry{}},
		&ast.Function{Name: c, Body: b}, &ast.Function{Params: []*ast.Ident{x}, EndFunction: &ast.EndFunction{}}, &ast.DelFunction{Name: c},
		&ast.Let{Left: c, Right: x}, &ast.Let{Left: x, Right: c}, &ast.Let{List: []ast.Expr{x}, Rest: c}, &ast.UnLet{}, &ast.LockVar{}, &ast.UnLockVar{},
		&ast.Throw{Expr: c}, &ast.Eval{Expr: c}, &ast.EchoCmd{}, &ast.Execute{}, &ast.File{Body: b},
		&ast.TernaryExpr{Condition: c, Left: x}, &ast.BinaryExpr{Left: c, Right: x}, &ast.BinaryExpr{Left: x, Right: c}, &ast.UnaryExpr{X: c},
		&ast.SubscriptExpr{Left: x, Right: c}, &ast.SliceExpr{X: c}, &ast.SliceExpr{X: x, Low: c}, &ast.SliceExpr{X: x, High: c},
		&ast.MethodExpr{Left: x, Method: c}, &ast.CallExpr{Fun: c}, &ast.DotExpr{Left: c, Right: x}, &ast.List{}, &ast.Dict{Entries: []ast.KeyValue{{Key: x, Value: c}}},
		&ast.CurlyName{}, &ast.CurlyNameExpr{Value: c}, &ast.LambdaExpr{Expr: c}, &ast.ParenExpr{X: c}, &ast.HeredocExpr{},
	}
	n := ns[forkOn("n", len(ns))]
	num := 0
	want := events(n, 0, -1, &num, nil)
	r := &record{cut: -1}
	ast.Walk(&recorder{r, 0}, n)
	sameEvents("Walk", "a partial tree", r.ev, want, true)
}

// Inspect documents a call with nil after the children.
//
//vp:quick=60 thorough=60
func C11_inspectnil() {
	n := mustParse("echo " + sym.BytesIn("x", 1, "abc") + "\n")
	nils := 0
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			nils++
		}
		return x != nil
	})
	if nils == 0 {
		sym.Fail("Inspect never calls its function with nil")
	}
	if nils != 3 {
		sym.Fail("Inspect calls its function with nil " + strconv.Itoa(nils) + " times for 3 nodes")
	}
}

// A kind of an expression in each place of each other kind.
//
//vp:quick=60 thorough=300 reach=tree
func C11_nested() {
	src := nestedExpr(2, "x")
	n, err := parseExpr(src)
	if err != nil {
		return
	}
	sym.Reach("tree")
	walked(n, src, false)
}

// Each kind of an expression in each place of the commands.
//
//vp:quick=60 thorough=300 reach=tree
func C11_places() {
	src := nestedStmt(1)
	f, err := parse(src)
	if err != nil {
		return
	}
	sym.Reach("tree")
	walked(f, src, true)
}
