package vimlparser

import "strings"

// VerifCompileScript is the output of the reference compiler for a script that
// parses.
func VerifCompileScript(lines []string, neovim bool) string {
	n := NewVimLParser(neovim).parse(NewStringReader(lines))
	return strings.Join(NewCompiler().compile(n).([]string), "\n")
}

// VerifCompileExpr is the same for an expression.
func VerifCompileExpr(lines []string) string {
	n := NewExprParser(NewStringReader(lines)).parse()
	return NewCompiler().compile(n).(string)
}
