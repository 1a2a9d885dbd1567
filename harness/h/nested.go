package h

import (
	"strings"

	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// exprHoles are the kinds of expressions with a place for each of their parts.
var exprHoles = []string{"@ ? y : z", "x ? @ : z", "x ? y : @", "@ || y", "x || @", "@ && y", "x && @", "@ ==# y", "x isnot @", "@ + y", "x - @", "@ . y", "x .. @", "@ * y", "x % @",
	"!@", "-@", "+@", "@[y]", "x[@]", "@[y:z]", "x[@:z]", "x[y:@]", "@[:]", "x[@:]", "x[:@]", "@(y)", "x(@)", "x(y, @, z)", "@.y", "@->y()", "x->y(@)", "x->{@ -> y}(z)", "x->{y -> @}(z)",
	"[@]", "[x, @, y]", "{'k': @}", "{@: v}", "{'k': 1, @: v, 'l': 2}", "#{k: @}", "{a, b, ... -> @}", "{... -> @}", "{-> @}", "@->{a, b -> y}(z)", "@->(y)(z)", "(@)", "p{@}q", "{@}", "x{y}{@}", "x->(@)(y)"}

// stmtHoles are the kinds of commands with a place for each of their expressions.
var stmtHoles = []string{"echo @", "echo x @ y", "echon @", "echomsg @", "echoerr @", "execute @ y", "let v = @", "let v += @", "let v[@] = 1", "let v{@}w = 1", "let v.k[@].l .= 1", "let [v[@], w; u[@]] = x",
	"const v = @", "call f(@)", "call d[@](x)", "unlet v[@]", "unlet! v w{@}", "lockvar v[@]", "unlockvar 2 v[@]", "throw @", "eval @", "delfunction d[@]", "if @\nendif", "if x\nelseif @\nelse\nendif",
	"while @\nendwhile", "for v in @\nendfor", "for v[@] in x\nendfor", "for [v, w[@]; u] in x\nendfor", "function F(a, b = @, ...)\nreturn @\nendfunction", "function d[@].k()\nendfunction",
	"function p{@}q()\nendfunction", "try\nthrow @\ncatch\necho @\nfinally\necho @\nendtry"}

// nestedExpr is a kind of an expression in each place of others, n deep,
// in parentheses or not.
func nestedExpr(n int, leaf string) string {
	s := leaf
	for i := 0; i < n; i++ {
		if i > 0 && forkOn("paren", 2) == 1 {
			s = "(" + s + ")"
		}
		s = strings.Replace(exprHoles[forkOn("hole", len(exprHoles))], "@", s, 1)
	}
	return s
}

// nestedStmt is a kind of a command with an expression in each of its places.
func nestedStmt(n int) string {
	return strings.Replace(stmtHoles[forkOn("stmt", len(stmtHoles))], "@", nestedExpr(n, sym.BytesIn("leaf", 1, "ab")), -1)
}
