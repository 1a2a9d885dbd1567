package h

import (
	"strconv"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// posCheck checks that each node of a tree is where its token is in src.
type posCheck struct {
	src  string
	file string
	ln   []int // line of each offset
	col  []int
	n    int // nodes checked
}

func newPosCheck(src, file string) *posCheck {
	p := &posCheck{src: src, file: file}
	ln, col := 1, 1
	for i := 0; i <= len(src); i++ {
		p.ln, p.col = append(p.ln, ln), append(p.col, col)
		col++
		if i < len(src) && src[i] == '\n' {
			ln, col = ln+1, 1
		}
	}
	return p
}

func (p *posCheck) fail(what string, a ast.Pos) {
	sym.Fail("position of " + what + " in " + strconv.Quote(p.src) + ": " + posText(a.Offset, a.Line, a.Column))
}

// place checks that the three parts of a position agree.
func (p *posCheck) place(what string, a ast.Pos) {
	p.n++
	if a.Offset < 0 || a.Offset > len(p.src) || a.Line != p.ln[a.Offset] || a.Column != p.col[a.Offset] {
		p.fail(what, a)
	}
	if a.Filename != p.file {
		p.fail(what+" ("+a.Filename+")", a)
	}
}

// at checks that one of the tokens is at the position.
func (p *posCheck) at(what string, a ast.Pos, toks ...string) {
	p.place(what, a)
	rest := p.src[a.Offset:]
	for _, t := range toks {
		if len(rest) >= len(t) && rest[:len(t)] == t {
			return
		}
	}
	p.fail(what, a)
}

// cmd checks the positions of a command: its name starts there, after its
// modifiers and range.
func (p *posCheck) cmd(a ast.Pos, e ast.ExArg, names ...string) {
	if len(names) == 0 {
		names = []string{e.Cmd.Name[:1]}
	}
	p.at(e.Cmd.Name, a, names...)
	if e.Cmdpos == nil || *e.Cmdpos != a {
		p.fail("Cmdpos of "+e.Cmd.Name, a)
	}
	if e.Linepos == nil || e.Linepos.Offset > a.Offset {
		p.fail("Linepos of "+e.Cmd.Name, a)
	}
	p.place("Linepos of "+e.Cmd.Name, *e.Linepos)
	if e.Argpos == nil || e.Argpos.Offset < a.Offset {
		p.fail("Argpos of "+e.Cmd.Name, a)
	}
	p.place("Argpos of "+e.Cmd.Name, *e.Argpos)
}

func (p *posCheck) body(l []ast.Statement) {
	for _, x := range l {
		p.node(x)
	}
}

func (p *posCheck) exprs(l []ast.Expr) {
	for _, x := range l {
		p.expr(x)
	}
}

func (p *posCheck) expr(x ast.Expr) {
	if x != nil {
		p.node(x)
	}
}

func (p *posCheck) node(node ast.Node) {
	switch n := node.(type) {
	case *ast.File:
		if len(p.src) > 0 {
			p.place("the file", n.Start)
			if n.Start.Offset != 0 {
				p.fail("the file", n.Start)
			}
		}
		p.body(n.Body)
	case *ast.Comment:
		p.at("a comment", n.Quote, "\""+n.Text)
	case *ast.Excmd:
		if n.ExArg.Cmd == nil || n.ExArg.Cmd.Name == "" {
			p.place("a command", n.Excmd)
			return
		}
		p.cmd(n.Excmd, n.ExArg)
		p.at("the line of a command", *n.ExArg.Linepos, n.Command[:1])
	case *ast.Function:
		p.cmd(n.Func, n.ExArg, "fu")
		p.expr(n.Name)
		for _, x := range n.Params {
			p.node(x)
		}
		p.exprs(n.DefaultArgs)
		p.body(n.Body)
		p.node(n.EndFunction)
	case *ast.EndFunction:
		p.cmd(n.EndFunc, n.ExArg, "endf")
	case *ast.DelFunction:
		p.cmd(n.DelFunc, n.ExArg, "delf")
		p.expr(n.Name)
	case *ast.Return:
		p.cmd(n.Return, n.ExArg, "retu")
		p.expr(n.Result)
	case *ast.ExCall:
		p.cmd(n.ExCall, n.ExArg, "cal")
		p.node(n.FuncCall)
	case *ast.Let:
		p.cmd(n.Let, n.ExArg, "let", "con")
		p.expr(n.Left)
		p.exprs(n.List)
		p.expr(n.Rest)
		p.expr(n.Right)
	case *ast.UnLet:
		p.cmd(n.UnLet, n.ExArg, "unl")
		p.exprs(n.List)
	case *ast.LockVar:
		p.cmd(n.LockVar, n.ExArg, "lockv")
		p.exprs(n.List)
	case *ast.UnLockVar:
		p.cmd(n.UnLockVar, n.ExArg, "unlo")
		p.exprs(n.List)
	case *ast.If:
		p.cmd(n.If, n.ExArg, "if")
		p.expr(n.Condition)
		p.body(n.Body)
		for _, x := range n.ElseIf {
			p.node(x)
		}
		if n.Else != nil {
			p.node(n.Else)
		}
		p.node(n.EndIf)
	case *ast.ElseIf:
		p.cmd(n.ElseIf, n.ExArg, "elsei")
		p.expr(n.Condition)
		p.body(n.Body)
	case *ast.Else:
		p.cmd(n.Else, n.ExArg, "el")
		p.body(n.Body)
	case *ast.EndIf:
		p.cmd(n.EndIf, n.ExArg, "en")
	case *ast.While:
		p.cmd(n.While, n.ExArg, "wh")
		p.expr(n.Condition)
		p.body(n.Body)
		p.node(n.EndWhile)
	case *ast.EndWhile:
		p.cmd(n.EndWhile, n.ExArg, "endw")
	case *ast.For:
		p.cmd(n.For, n.ExArg, "for")
		p.expr(n.Left)
		p.exprs(n.List)
		p.expr(n.Rest)
		p.expr(n.Right)
		p.body(n.Body)
		p.node(n.EndFor)
	case *ast.EndFor:
		p.cmd(n.EndFor, n.ExArg, "endfo")
	case *ast.Continue:
		p.cmd(n.Continue, n.ExArg, "con")
	case *ast.Break:
		p.cmd(n.Break, n.ExArg, "brea")
	case *ast.Try:
		p.cmd(n.Try, n.ExArg, "try")
		p.body(n.Body)
		for _, x := range n.Catch {
			p.node(x)
		}
		if n.Finally != nil {
			p.node(n.Finally)
		}
		p.node(n.EndTry)
	case *ast.Catch:
		p.cmd(n.Catch, n.ExArg, "cat")
		p.body(n.Body)
	case *ast.Finally:
		p.cmd(n.Finally, n.ExArg, "fina")
		p.body(n.Body)
	case *ast.EndTry:
		p.cmd(n.EndTry, n.ExArg, "endt")
	case *ast.Throw:
		p.cmd(n.Throw, n.ExArg, "th")
		p.expr(n.Expr)
	case *ast.Eval:
		p.cmd(n.Eval, n.ExArg, "ev")
		p.expr(n.Expr)
	case *ast.EchoCmd:
		p.cmd(n.Start, n.ExArg, "ec")
		p.exprs(n.Exprs)
	case *ast.Echohl:
		p.cmd(n.Echohl, n.ExArg, "echoh")
	case *ast.Execute:
		p.cmd(n.Execute, n.ExArg, "exe")
		p.exprs(n.Exprs)
	case *ast.TernaryExpr:
		p.at("?", n.Ternary, "?")
		p.expr(n.Condition)
		p.expr(n.Left)
		p.expr(n.Right)
	case *ast.BinaryExpr:
		p.at(n.Op.String(), n.OpPos, n.Op.String())
		p.expr(n.Left)
		p.expr(n.Right)
	case *ast.UnaryExpr:
		p.at(n.Op.String(), n.OpPos, n.Op.String())
		p.expr(n.X)
	case *ast.SubscriptExpr:
		p.at("[", n.Lbrack, "[")
		p.expr(n.Left)
		p.expr(n.Right)
	case *ast.SliceExpr:
		p.at("[", n.Lbrack, "[")
		p.expr(n.X)
		p.expr(n.Low)
		p.expr(n.High)
	case *ast.MethodExpr:
		p.at("(", n.Lparen, "(")
		p.expr(n.Left)
		p.expr(n.Method)
		p.exprs(n.Args)
	case *ast.CallExpr:
		p.at("(", n.Lparen, "(")
		p.expr(n.Fun)
		p.exprs(n.Args)
	case *ast.DotExpr:
		p.at(".", n.Dot, ".")
		p.expr(n.Left)
		p.node(n.Right)
	case *ast.BasicLit:
		if n.Kind == token.STRING && n.Value != "" && n.Value[0] == '\'' {
			// the keys of a literal dictionary are not quoted in the source
			p.at("a literal", n.ValuePos, n.Value, n.Value[1:len(n.Value)-1])
			return
		}
		p.at("a literal", n.ValuePos, n.Value)
	case *ast.List:
		p.at("[", n.Lsquare, "[")
		p.exprs(n.Values)
	case *ast.Dict:
		p.at("{", n.Lcurlybrace, "{", "#{")
		for _, kv := range n.Entries {
			p.expr(kv.Key)
			p.expr(kv.Value)
		}
	case *ast.CurlyName:
		p.place("a name", n.CurlyName)
		if len(n.Parts) > 0 && n.Parts[0].Pos() != n.CurlyName {
			p.fail("a name", n.CurlyName)
		}
		for _, x := range n.Parts {
			p.node(x)
		}
	case *ast.CurlyNameLit:
		p.at("a part of a name", n.CurlyNameLit, n.Value)
	case *ast.CurlyNameExpr:
		p.at("a part of a name", n.CurlyNameExpr, "{")
		p.expr(n.Value)
	case *ast.Ident:
		p.at("a name", n.NamePos, n.Name)
	case *ast.LambdaExpr:
		p.at("{", n.Lcurlybrace, "{")
		for _, x := range n.Params {
			p.node(x)
		}
		p.expr(n.Expr)
	case *ast.ParenExpr:
		p.at("(", n.Lparen, "(")
		p.expr(n.X)
	case *ast.HeredocExpr:
		p.at("=<<", n.OpPos, "=<<")
		p.exprs(n.Flags)
		p.exprs(n.Body)
	default:
		sym.Fail("unknown node in the tree")
	}
}

// checkPositions checks every position of the tree of a script.
func checkPositions(src, file string, n ast.Node) {
	p := newPosCheck(src, file)
	p.node(n)
}
