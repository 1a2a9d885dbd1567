package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// parse parses a script; the second result is nil on success.
func parse(src string) (*ast.File, error) {
	return vimlparser.ParseFile(strings.NewReader(src), "", nil)
}

func parseExpr(src string) (ast.Expr, error) {
	return vimlparser.ParseExpr(strings.NewReader(src))
}

// mustParse fails the harness if src does not parse.
func mustParse(src string) *ast.File {
	f, err := parse(src)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	return f
}

func eq(what, src, got, want string) {
	if got != want {
		sym.Fail(what + " of " + strconv.Quote(src) + ": got " + got + ", want " + want)
	}
}

// errCode is the start of the message up to the first colon or space: "E171".
func errCode(err error) string {
	if err == nil {
		return ""
	}
	e, ok := err.(*vimlparser.ErrVimlParser)
	if !ok {
		sym.Fail("untyped error " + err.Error())
	}
	m := e.Msg
	for i := 0; i < len(m); i++ {
		if m[i] == ':' || m[i] == ' ' {
			if i > 1 && m[0] == 'E' && m[1] >= '0' && m[1] <= '9' {
				return m[:i]
			}
			break
		}
	}
	return "-"
}

// ---- canonical text of a tree ----

// dumper writes a tree; with pos the position of every node is included.
type dumper struct {
	pos bool
	ea  bool // the ExArg fields

	name string // the file name every position must have, which is left out
	seen int    // positions
}

func dump(n ast.Node) string    { return (&dumper{}).node(n) }
func dumpPos(n ast.Node) string { return (&dumper{pos: true}).node(n) }

// dumpAll includes positions and command arguments.
func dumpAll(n ast.Node) string { return (&dumper{pos: true, ea: true}).node(n) }

func posText(off, ln, col int) string {
	return "@" + strconv.Itoa(off) + ":" + strconv.Itoa(ln) + ":" + strconv.Itoa(col)
}

func (d *dumper) at(p ast.Pos) string {
	if !d.pos {
		return ""
	}
	d.seen++
	if d.name != "" {
		if p.Filename != d.name {
			sym.Fail("a position has the file name " + strconv.Quote(p.Filename) + ", not " + strconv.Quote(d.name))
		}
		return posText(p.Offset, p.Line, p.Column)
	}
	return posText(p.Offset, p.Line, p.Column) + p.Filename
}

func (d *dumper) exprs(l []ast.Expr) string {
	s := "["
	for i, x := range l {
		if i > 0 {
			s += " "
		}
		s += d.expr(x)
	}
	return s + "]"
}

func (d *dumper) idents(l []*ast.Ident) string {
	s := "["
	for i, x := range l {
		if i > 0 {
			s += " "
		}
		s += x.Name + d.at(x.NamePos)
	}
	return s + "]"
}

func (d *dumper) body(l []ast.Statement) string {
	s := "{"
	for i, x := range l {
		if i > 0 {
			s += "; "
		}
		s += d.node(x)
	}
	return s + "}"
}

func (d *dumper) expr(x ast.Expr) string {
	if x == nil {
		return "nil"
	}
	return d.node(x)
}

func kindName(k token.Token) string {
	switch k {
	case token.NUMBER:
		return "num"
	case token.STRING:
		return "str"
	case token.OPTION:
		return "opt"
	case token.ENV:
		return "env"
	case token.REG:
		return "reg"
	case token.BLOB:
		return "blob"
	}
	return "kind" + strconv.Itoa(int(k))
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func modText(l []interface{}) string {
	s := ""
	for _, m := range l {
		mm := m.(map[string]interface{})
		s += "<" + mm["name"].(string)
		if v, ok := mm["bang"]; ok {
			s += " bang=" + strconv.Itoa(v.(int))
		}
		if v, ok := mm["count"]; ok {
			s += " count=" + strconv.Itoa(v.(int))
		}
		s += ">"
	}
	return s
}

func rangeText(l []interface{}) string {
	s := ""
	for _, m := range l {
		s += "<" + m.(string) + ">"
	}
	return s
}

func (d *dumper) exarg(e ast.ExArg) string {
	if !d.ea {
		return ""
	}
	s := " ea(" + b01(e.Forceit) + " " + strconv.Itoa(e.AddrCount) + " " + strconv.Itoa(e.Line1) + " " + strconv.Itoa(e.Line2) +
		" " + strconv.Itoa(e.Flags) + " " + e.DoEcmdCmd + " " + strconv.Itoa(e.DoEcmdLnum) + " " + strconv.Itoa(e.Append) +
		" " + b01(e.Usefilter) + " " + strconv.Itoa(e.Amount) + " " + strconv.Itoa(e.Regname) + " " + strconv.Itoa(e.ForceBin) +
		" " + strconv.Itoa(e.ReadEdit) + " " + e.ForceFf + " " + e.ForceEnc + " " + e.BadChar
	if e.Linepos != nil {
		s += " lp" + d.at(*e.Linepos)
	}
	if e.Cmdpos != nil {
		s += " cp" + d.at(*e.Cmdpos)
	}
	if e.Argpos != nil {
		s += " ap" + d.at(*e.Argpos)
	}
	if e.Cmd != nil {
		s += " " + e.Cmd.Name + "/" + strconv.Itoa(e.Cmd.Minlen) + "/" + e.Cmd.Flags + "/" + e.Cmd.Parser
	}
	return s + " " + modText(e.Modifiers) + " " + rangeText(e.Range) + ")"
}

func (d *dumper) node(node ast.Node) string {
	switch n := node.(type) {
	case *ast.File:
		return "file" + d.at(n.Start) + d.body(n.Body)
	case *ast.Comment:
		return "comment" + d.at(n.Quote) + "<" + n.Text + ">"
	case *ast.Excmd:
		return "excmd" + d.at(n.Excmd) + d.exarg(n.ExArg) + "<" + n.Command + ">"
	case *ast.Function:
		s := "function" + d.at(n.Func) + d.exarg(n.ExArg) + " " + d.expr(n.Name) + d.idents(n.Params) + d.exprs(n.DefaultArgs)
		if n.Attr.Range {
			s += " range"
		}
		if n.Attr.Abort {
			s += " abort"
		}
		if n.Attr.Dict {
			s += " dict"
		}
		if n.Attr.Closure {
			s += " closure"
		}
		s += d.body(n.Body)
		if n.EndFunction == nil {
			return s + "NOEND"
		}
		return s + d.node(n.EndFunction)
	case *ast.EndFunction:
		return "endfunction" + d.at(n.EndFunc) + d.exarg(n.ExArg)
	case *ast.DelFunction:
		return "delfunction" + d.at(n.DelFunc) + d.exarg(n.ExArg) + " " + d.expr(n.Name)
	case *ast.Return:
		return "return" + d.at(n.Return) + d.exarg(n.ExArg) + " " + d.expr(n.Result)
	case *ast.ExCall:
		return "call" + d.at(n.ExCall) + d.exarg(n.ExArg) + " " + d.node(n.FuncCall)
	case *ast.Let:
		return n.ExArg.Cmd.Name + d.at(n.Let) + d.exarg(n.ExArg) + " " + n.Op + " " + d.expr(n.Left) + d.exprs(n.List) + d.expr(n.Rest) + " " + d.expr(n.Right)
	case *ast.UnLet:
		return "unlet" + d.at(n.UnLet) + d.exarg(n.ExArg) + " " + d.exprs(n.List)
	case *ast.LockVar:
		return "lockvar" + d.at(n.LockVar) + d.exarg(n.ExArg) + " " + strconv.Itoa(n.Depth) + d.exprs(n.List)
	case *ast.UnLockVar:
		return "unlockvar" + d.at(n.UnLockVar) + d.exarg(n.ExArg) + " " + strconv.Itoa(n.Depth) + d.exprs(n.List)
	case *ast.If:
		s := "if" + d.at(n.If) + d.exarg(n.ExArg) + " " + d.expr(n.Condition) + d.body(n.Body)
		for _, e := range n.ElseIf {
			s += d.node(e)
		}
		if n.Else != nil {
			s += d.node(n.Else)
		}
		if n.EndIf == nil {
			return s + "NOEND"
		}
		return s + d.node(n.EndIf)
	case *ast.ElseIf:
		return "elseif" + d.at(n.ElseIf) + d.exarg(n.ExArg) + " " + d.expr(n.Condition) + d.body(n.Body)
	case *ast.Else:
		return "else" + d.at(n.Else) + d.exarg(n.ExArg) + d.body(n.Body)
	case *ast.EndIf:
		return "endif" + d.at(n.EndIf) + d.exarg(n.ExArg)
	case *ast.While:
		s := "while" + d.at(n.While) + d.exarg(n.ExArg) + " " + d.expr(n.Condition) + d.body(n.Body)
		if n.EndWhile == nil {
			return s + "NOEND"
		}
		return s + d.node(n.EndWhile)
	case *ast.EndWhile:
		return "endwhile" + d.at(n.EndWhile) + d.exarg(n.ExArg)
	case *ast.For:
		s := "for" + d.at(n.For) + d.exarg(n.ExArg) + " " + d.expr(n.Left) + d.exprs(n.List) + d.expr(n.Rest) + " " + d.expr(n.Right) + d.body(n.Body)
		if n.EndFor == nil {
			return s + "NOEND"
		}
		return s + d.node(n.EndFor)
	case *ast.EndFor:
		return "endfor" + d.at(n.EndFor) + d.exarg(n.ExArg)
	case *ast.Continue:
		return "continue" + d.at(n.Continue) + d.exarg(n.ExArg)
	case *ast.Break:
		return "break" + d.at(n.Break) + d.exarg(n.ExArg)
	case *ast.Try:
		s := "try" + d.at(n.Try) + d.exarg(n.ExArg) + d.body(n.Body)
		for _, c := range n.Catch {
			s += d.node(c)
		}
		if n.Finally != nil {
			s += d.node(n.Finally)
		}
		if n.EndTry == nil {
			return s + "NOEND"
		}
		return s + d.node(n.EndTry)
	case *ast.Catch:
		return "catch" + d.at(n.Catch) + d.exarg(n.ExArg) + "<" + n.Pattern + ">" + d.body(n.Body)
	case *ast.Finally:
		return "finally" + d.at(n.Finally) + d.exarg(n.ExArg) + d.body(n.Body)
	case *ast.EndTry:
		return "endtry" + d.at(n.EndTry) + d.exarg(n.ExArg)
	case *ast.Throw:
		return "throw" + d.at(n.Throw) + d.exarg(n.ExArg) + " " + d.expr(n.Expr)
	case *ast.Eval:
		return "eval" + d.at(n.Eval) + d.exarg(n.ExArg) + " " + d.expr(n.Expr)
	case *ast.EchoCmd:
		return n.CmdName + d.at(n.Start) + d.exarg(n.ExArg) + " " + d.exprs(n.Exprs)
	case *ast.Echohl:
		return "echohl" + d.at(n.Echohl) + d.exarg(n.ExArg) + "<" + n.Name + ">"
	case *ast.Execute:
		return "execute" + d.at(n.Execute) + d.exarg(n.ExArg) + " " + d.exprs(n.Exprs)
	case *ast.TernaryExpr:
		return "(?" + d.at(n.Ternary) + " " + d.expr(n.Condition) + " " + d.expr(n.Left) + " " + d.expr(n.Right) + ")"
	case *ast.BinaryExpr:
		return "(" + n.Op.String() + d.at(n.OpPos) + " " + d.expr(n.Left) + " " + d.expr(n.Right) + ")"
	case *ast.UnaryExpr:
		return "(u" + n.Op.String() + d.at(n.OpPos) + " " + d.expr(n.X) + ")"
	case *ast.SubscriptExpr:
		return "(sub" + d.at(n.Lbrack) + " " + d.expr(n.Left) + " " + d.expr(n.Right) + ")"
	case *ast.SliceExpr:
		return "(slice" + d.at(n.Lbrack) + " " + d.expr(n.X) + " " + d.expr(n.Low) + " " + d.expr(n.High) + ")"
	case *ast.MethodExpr:
		return "(method" + d.at(n.Lparen) + " " + d.expr(n.Left) + " " + d.expr(n.Method) + d.exprs(n.Args) + ")"
	case *ast.CallExpr:
		return "(call" + d.at(n.Lparen) + " " + d.expr(n.Fun) + d.exprs(n.Args) + ")"
	case *ast.DotExpr:
		return "(dot" + d.at(n.Dot) + " " + d.expr(n.Left) + " " + n.Right.Name + d.at(n.Right.NamePos) + ")"
	case *ast.BasicLit:
		return kindName(n.Kind) + d.at(n.ValuePos) + "<" + n.Value + ">"
	case *ast.List:
		return "(list" + d.at(n.Lsquare) + d.exprs(n.Values) + ")"
	case *ast.Dict:
		s := "(dict" + d.at(n.Lcurlybrace)
		for _, kv := range n.Entries {
			s += " " + d.expr(kv.Key) + ":" + d.expr(kv.Value)
		}
		return s + ")"
	case *ast.CurlyName:
		s := "(curly" + d.at(n.CurlyName)
		for _, p := range n.Parts {
			s += " " + d.node(p)
		}
		return s + ")"
	case *ast.CurlyNameLit:
		return "lit" + d.at(n.CurlyNameLit) + "<" + n.Value + ">"
	case *ast.CurlyNameExpr:
		return "{" + d.at(n.CurlyNameExpr) + " " + d.expr(n.Value) + "}"
	case *ast.Ident:
		return "id" + d.at(n.NamePos) + "<" + n.Name + ">"
	case *ast.LambdaExpr:
		return "(lambda" + d.at(n.Lcurlybrace) + d.idents(n.Params) + " " + d.expr(n.Expr) + ")"
	case *ast.ParenExpr:
		return "(paren" + d.at(n.Lparen) + " " + d.expr(n.X) + ")"
	case *ast.HeredocExpr:
		return "(heredoc" + d.at(n.OpPos) + d.exprs(n.Flags) + "<" + n.EndMarker + ">" + d.exprs(n.Body) + ")"
	}
	sym.Fail("unknown node in the tree")
	return ""
}

// dumpEa includes command arguments but no positions.
func dumpEa(n ast.Node) string { return (&dumper{ea: true}).node(n) }

// errMsg is the message of a parse error without its position.
func errMsg(err error) string {
	if err == nil {
		return ""
	}
	e, ok := err.(*vimlparser.ErrVimlParser)
	if !ok {
		sym.Fail("untyped error " + err.Error())
	}
	return e.Msg
}

// forkOn chooses a number below n, each on its own path.
func forkOn(label string, n int) int {
	x := sym.Choose(label, n)
	for i := 0; i < n-1; i++ {
		if x == i {
			return i
		}
	}
	return n - 1
}

// errText is the whole content of an error.
func errText(err error) string {
	e, ok := err.(*vimlparser.ErrVimlParser)
	if !ok {
		sym.Fail("untyped error " + err.Error())
	}
	return "error " + e.Filename + posText(e.Offset, e.Line, e.Column) + " " + e.Msg
}
