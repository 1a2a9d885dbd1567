package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// A line with an error, the place of it behind the mark, and the number of the
// diagnosis where Vim has one.
type badLine struct{ text, code string }

const mark = "¦"

var badLines = []badLine{
	{"¦endif", "E580"},
	{"¦else", "E581"},
	{"¦elseif 1", "E582"},
	{"¦endwhile", "E588"},
	{"¦endfor", "E588"},
	{"¦endfunction", "E193"},
	{"¦endtry", "E602"},
	{"¦catch", "E603"},
	{"¦finally", "E606"},
	{"¦continue", "E586"},
	{"¦break", "E587"},
	{"¦return 1", "E133"},
	{"¦return", "E133"},
	{"¦xfoo bar", "E492"},
	{"¦if!", "E477"},
	{"¦w >x", "E494"},
	{"e ¦++bad=xy", "E474"},
	{"e ¦++foo x", "E474"},
	{"e ++ff=dos ¦++enc= x", "E474"},
	{":¦\\1", "E10"},
	{"wincmd¦", "E471"},
	{"wincmd g¦", "E474"},
	{"wincmd j ¦x", "E474"},
	{"call¦", "E471"},
	{"call ¦|", "E471"},
	{"call ¦f", ""},
	{"call f() ¦x", "E488"},
	{"let x = 1 ¦x", "E488"},
	{"let x = ¦", ""},
	{"let x = (1¦", ""},
	{"let x = (1 ¦]", ""},
	{"let x = [1, ¦)]", ""},
	{"let x = [1 ¦)", ""},
	{"let x = f(1 ¦]", ""},
	{"let x = {'a': 1 ¦]", ""},
	{"let x = {'a'¦]", ""},
	{"let x = #{¦'a': 1}", ""},
	{"let x = a[1 ¦}", ""},
	{"let x = a[1:2 ¦}", ""},
	{"let x = a[:2 ¦}", ""},
	{"let x = 1 ? 2 ¦", ""},
	{"let x = 1 ? 2 ¦3", ""},
	{"let x = 'abc¦", ""},
	{"let x = \"abc¦", ""},
	{"let x = \"abc\\¦", ""},
	{"let x = ¦$", "E15"},
	{"let x = ¦&", "E112"},
	{"let x = ¦&g:", "E112"},
	{"let x = 1 + ¦^", ""},
	{"let x = a->¦1()", "E260"},
	{"let x = a->b ¦x", "E107"},
	{"let x = {¦g:a -> 1}", "E125"},
	{"let x = {a, ¦a -> 1}", "E853"},
	{"let x = {a¦ , b -> 1}", "E475"},
	{"let x = {a, b ¦c -> 1}", ""},
	{"let x = {a -> a ¦]", ""},
	{"let x = a{1 ¦]", ""},
	{"let ¦1x = 1", ""},
	{"let [a, ¦1] = x", ""},
	{"let [a ¦b] = x", "E475"},
	{"let [a; b ¦c] = x", "E475"},
	{"let a[1 ¦) = x", ""},
	{"let a[1:2 ¦) = x", ""},
	{"let a[: 2 ¦) = x", ""},
	{"const ¦&x = 1", "E996"},
	{"const ¦$X = 1", "E996"},
	{"const ¦@x = 1", "E996"},
	{"const [a ¦b] = x", "E475"},
	{"const [a; b ¦c] = x", "E475"},
	{"unlet ¦&x", "E488"},
	{"unlet ¦@x", "E488"},
	{"lockvar ¦$X", "E940"},
	{"unlet a ¦1", ""},
	{"let x =<< ¦", "E172"},
	{"let x =<< trim ¦", "E172"},
	{"let x =<< E ¦|", "E488"},
	{"let x =<< E ¦x", "E488"},
	{"const x =<< ¦", "E172"},
	{"function ¦foo()", "E128"},
	{"function ¦&x()", "E129"},
	{"function ¦@a()", "E129"},
	{"function F(¦1)", ""},
	{"function F(a, ¦g:b)", "E125"},
	{"function F(a, ¦a)", "E853"},
	{"function F(a, ¦firstline)", "E125"},
	{"function F(a = 1, ¦b)", "E989"},
	{"function F(a¦ , b)", "E475"},
	{"function F(a ¦b)", ""},
	{"function F(... ¦b)", ""},
	{"function F(a) ¦foo", ""},
	{"function F(a) abort ¦rangex", ""},
	{"function F(a) ¦1", "E488"},
	{"for x ¦of y", ""},
	{"for ¦1 in y", ""},
	{"for x in ¦", ""},
	{"if 1 ¦2", "E488"},
	{"if ¦", ""},
	{"while ¦", ""},
	{"delfunction F ¦x", "E488"},
	{"delfunction ¦&x", "E129"},
	{"e `=a ¦)", ""},
	{"echo 1 ¦)", ""},
	{"execute 1 ¦)", ""},
	{"throw 1 ¦x", "E488"},
	{"throw ¦", ""},
	{"eval 1 ¦x", "E488"},
	{"echo ¦~", ""},
	{"1¦xfoo", "E492"},
	{"silent! ¦xfoo", "E492"},
	{"close|¦xfoo bar", "E492"},
	{"call x¦.y", ""},
	{"let x = #{a ¦", ""},
	{"let x = 0z01¦0,", "E973"},
	{"let x = a->{->1} ¦", "E107"},
	{"let x = {...¦, b -> 1}", ""},
	{"const a¦.b = 1", "E996"},
	{"const a¦[1] = 1", "E996"},
	{"function F(...¦, b)", ""},
	{"let x = [1 ¦}", ""},
	{"let x = {¦", ""},
	{"let x = f(¦", ""},
	{"let x = a[¦", ""},
	{"lockvar 2 ¦1", ""},
	{"let x = {a ¦b -> 1}", ""},
	{"echo \"é\" ¦]", ""},
	{"echo '日本'.¦]", ""},
	{"let {¦] = 1", ""},
	{"let a{1 ¦] = 2", ""},
	{"echo ¦`1", ""},
	{"echo a ? b : ¦", ""},
	{"echo a.¦", ""},
	{"echo a || ¦", ""},
	{"for [a, b ¦c] in x", "E475"},
	{"let [a, b; ¦1] = x", ""},
}

// pickBad chooses a row; there may be more of them than one choice can have.
func pickBad() badLine { return badLines[forkOn("row", len(badLines))] }

// places gives line, column and offset of byte i of src.
func places(src string, i int) string {
	return posText(i, strings.Count(src[:i], "\n")+1, i-strings.LastIndexByte(src[:i], '\n'))
}

// quoting are the beginnings of the messages that quote the source.
var quoting = []string{
	"unexpected token: ", "unexpected character: ", "E488: Trailing characters: ",
	"E492: Not an editor command: ", "E128: Function name must start with a capital or contain a colon: ",
	"E125: Illegal argument: ", "E853: Duplicate argument name: ", "E475 Invalid argument: ",
	"E461: Illegal variable name: ", "E940: Cannot lock or unlock variable ", "E15: Invalid expression: ",
}

// checkQuote checks that a message that quotes the source quotes what stands
// at its place (lines that a backslash continues are one line).
func checkQuote(src string, e *vimlparser.ErrVimlParser) {
	for _, q := range quoting {
		if !strings.HasPrefix(e.Msg, q) {
			continue
		}
		w := e.Msg[len(q):]
		if i := strings.Index(w, ", type: "); i > 0 {
			w = w[:i]
		}
		if w == "<EOL>" || w == "<EOF>" || e.Offset > len(src) {
			return
		}
		rest := src[e.Offset:]
		for len(w) > 0 {
			if len(rest) > 0 && rest[0] == w[0] && w[0] != '\n' {
				rest, w = rest[1:], w[1:]
				continue
			}
			next := strings.TrimLeft(strings.TrimPrefix(rest, "\r"), "\n")
			next = strings.TrimLeft(next, " \t")
			if next == "" || next[0] != '\\' || next == rest {
				sym.Fail("error in " + strconv.Quote(src) + " at offset " + strconv.Itoa(e.Offset) + " quotes " + strconv.Quote(e.Msg[len(q):]) + ", which is not there: " + e.Msg)
			}
			rest = next[1:]
		}
		sym.Reach("quoted")
		return
	}
}

// checkErr checks what holds for every error.
func checkErr(src, name string, err error) *vimlparser.ErrVimlParser {
	e, ok := err.(*vimlparser.ErrVimlParser)
	if !ok {
		sym.Fail("untyped error " + err.Error() + " for " + strconv.Quote(src))
	}
	if e.Filename != name {
		sym.Fail("error in " + strconv.Quote(src) + " names the file " + strconv.Quote(e.Filename) + ", not " + strconv.Quote(name))
	}
	if e.Msg == "" {
		sym.Fail("error without a message for " + strconv.Quote(src))
	}
	want := "vimlparser: " + e.Msg + ": line " + strconv.Itoa(e.Line) + " col " + strconv.Itoa(e.Column)
	if name != "" {
		want = name + ":" + strconv.Itoa(e.Line) + ":" + strconv.Itoa(e.Column) + ": vimlparser: " + e.Msg
	}
	eq("Error()", src, e.Error(), want)
	// the place
	lines := strings.SplitAfter(src, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	here := posText(e.Offset, e.Line, e.Column)
	if e.Line == len(lines)+1 && e.Column == 0 {
		// the end of the file; a missing last newline may count
		if e.Offset != len(src) && !(e.Offset == len(src)+1 && src != "" && src[len(src)-1] != '\n') {
			sym.Fail("error at the end of " + strconv.Quote(src) + " has offset " + strconv.Itoa(e.Offset))
		}
		sym.Reach("end_of_file")
		return e
	}
	if e.Line < 1 || e.Line > len(lines) {
		sym.Fail("error in " + strconv.Quote(src) + " at " + here + ", outside the text")
	}
	l := lines[e.Line-1]
	max := len(strings.TrimSuffix(l, "\n")) + 1
	if e.Column < 1 || e.Column > max {
		sym.Fail("error in " + strconv.Quote(src) + " at " + here + ", outside the line")
	}
	checkQuote(src, e)
	off := e.Column - 1
	for _, l := range lines[:e.Line-1] {
		off += len(l)
	}
	if off != e.Offset {
		sym.Fail("error in " + strconv.Quote(src) + " at " + here + ": that column is at offset " + strconv.Itoa(off))
	}
	return e
}

func parseNamed(src, name string) (*ast.File, error) {
	return vimlparser.ParseFile(strings.NewReader(src), name, nil)
}

func judgeBad(src, name, code string) {
	at := strings.LastIndex(src, mark)
	src = src[:at] + src[at+len(mark):]
	_, err := parseNamed(src, name)
	if err == nil {
		sym.Fail("accepted: " + strconv.Quote(src))
	}
	e := checkErr(src, name, err)
	eq("place of the error", src, posText(e.Offset, e.Line, e.Column), places(src, at))
	if code != "" && errCode(err) != code {
		sym.Fail("error in " + strconv.Quote(src) + " is " + e.Msg + ", not " + code)
	}
	switch code {
	case "E492", "E488", "E128", "E125", "E853":
		w := src[at:]
		if i := strings.IndexAny(w, " \t\r\n(),}|"); i > 0 {
			w = w[:i]
		}
		if w[0] != '|' && !strings.Contains(e.Msg, w[:1]) || code != "E488" && !strings.Contains(e.Msg, w) {
			sym.Fail("error in " + strconv.Quote(src) + " does not name " + w + ": " + e.Msg)
		}
	}
	sym.Reach("reported")
}

// Every kind of an error is reported at its place, whatever text stands before
// and after it.
//
//vp:quick=100 thorough=300 reach=reported
func C20_place() {
	b := pickBad()
	before := sym.Pick("before", "", "X\n", "\n\r\n", "function F()\nX\nendfunction\n", "let a = 'é'\nlet b =<< E\n|\nE\n", "if 1|endif\ncall f(\n\\1)\n")
	lead := sym.Pick("lead", "", "  ", ":\t", "X|")
	after := sym.Pick("after", "", "\n", "\nX\nif 1\n", "\r\n\r\n")
	if lead == "X|" {
		// the user command has no bar
		lead = "echo 'é' | "
	}
	judgeBad(before+lead+b.text+after, sym.Pick("name", "", "a/%d b.vim"), b.code)
}

// The same behind a comment of arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=reported
func C20_bytes() {
	b := pickBad()
	c := ""
	for i := 0; i < 3; i++ {
		x := sym.Byte("byte")
		sym.Assume(sym.And(x != '\n', x != '\r'))
		c += string([]byte{x})
	}
	judgeBad("\"x"+c+"\n"+b.text+"\n", "f", b.code)
}

// The same with a line continued before the error.
//
//vp:quick=60 thorough=100 reach=reported
func C20_continued() {
	b := pickBad()
	m := strings.Index(b.text, mark)
	i := strings.LastIndexByte(b.text[:m], ' ')
	if i < 0 || strings.Contains(b.text, "\"") || strings.Contains(b.text, "=<<") {
		sym.Truncate()
	}
	// the blank goes behind the backslash
	src := b.text[:i] + sym.Pick("gap", "\n\\", "\n  \\", "\r\n\t\\", "\n\\\n\\", " \n\\") + b.text[i:]
	judgeBad(sym.Pick("before", "", "X\n", "call f(\n\\1)\n")+src+sym.Pick("after", "", "\nX"), "f", b.code)
}

var openBlocks = []badLine{
	{"if 1", "E171"}, {"if 1\nelse", "E171"}, {"if 1\nelseif 2", "E171"}, {"while 1", "E170"}, {"for a in b", "E170"},
	{"try", "E600"}, {"try\ncatch", "E600"}, {"try\nfinally", "E600"}, {"function F()", "E126"},
	{"let x =<< END", "E990"}, {"if 1\nendif\nwhile 1", "E170"}, {"function F()\nif 1\nendif", "E126"},
}

// A missing end is reported at the end of the file.
//
//vp:quick=60 thorough=60 reach=reported,end_of_file
func C20_missing() {
	b := openBlocks[forkOn("row", len(openBlocks))]
	src := sym.Pick("before", "", "X\n", "\n\n", "let a = 'é'\r\n", "call f(\n\\1)\n") + b.text + sym.Pick("after", "", "\n", "\nX", "\nX\n", "\r\n", "\n\n", "\necho 1\n  \\+1\n")
	name := sym.Pick("name", "", "f")
	_, err := parseNamed(src, name)
	if err == nil {
		sym.Fail("accepted: " + strconv.Quote(src))
	}
	e := checkErr(src, name, err)
	if e.Column != 0 {
		sym.Fail("missing end of " + strconv.Quote(src) + " not reported at the end of the file: " + e.Error())
	}
	if errCode(err) != b.code {
		sym.Fail("missing end of " + strconv.Quote(src) + " reported as " + e.Msg)
	}
	if b.code == "E990" && !strings.Contains(e.Msg, "END") {
		sym.Fail("missing marker not named: " + e.Msg)
	}
	sym.Reach("reported")
}

// Whatever is wrong, the error has a place in the text.
//
//vp:quick=100 thorough=600 reach=end_of_file,reported,accepted
func C20_any() {
	n := 2
	p := sym.Pick("before", "", "X\n\nlet x = ", "call f(\n\\1, ", "function F(", "let ", "for ", "if 1\n", "let x =<< ", "w ", "\"é\ntry|catch ", "echo {", "/", "echo 'é'.\"")
	if p == "" {
		n = 3
	}
	src := p + sym.Bytes("bytes", n) + sym.Pick("after", "", "\nX\n", "1)\n")
	_, err := parseNamed(src, "f")
	if err == nil {
		sym.Reach("accepted")
		return
	}
	checkErr(src, "f", err)
	sym.Reach("reported")
}

// An expression of arbitrary bytes.
//
//vp:quick=60 thorough=200 reach=reported,accepted
func C20_expr() {
	src := sym.Pick("before", "", "1 +\n\\", "a[", "{a", "'é'.") + sym.Bytes("bytes", 2) + sym.Pick("after", "", "\n", "(")
	_, err := parseExpr(src)
	if err == nil {
		sym.Reach("accepted")
		return
	}
	checkErr(src, "", err)
	sym.Reach("reported")
}

const everyNode = `"comment
silent! 1,2Xcmd a
function! s:F{'a'}(a, b = 1, ...) range abort dict
  return {'k': [1, a:b], 'x': -y}
endfunction
delfunction g:F
call a.b(1)
let a = 1 ? 2 : 3
let [b, c; d] = #{x: 1}
const e = "s" . 's' . $E . &opt . @r . 0zFF
let h =<< trim END
  text
END
unlet a b
lockvar 2 c
unlockvar c
if a && b || c
elseif a[1] == b[1:2]
else
endif
while !a
  continue
  break
endwhile
for x in (y)
endfor
for [x, y; z] in w
endfor
try
catch /x/
finally
endtry
throw 'x'
eval a->f({p -> p + 1})
echo a b
echon a
echomsg a
echoerr a
echohl None
execute 'x' a
e ++ff=dos +1 f
w >> f
`

// checkFileName fails on a position without the file name.
func checkFileName(what, src string, p ast.Pos, name string) {
	if p.Filename != name {
		sym.Fail(what + " of " + strconv.Quote(src) + " is in the file " + strconv.Quote(p.Filename) + ", not " + strconv.Quote(name))
	}
	want := strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
	if name != "" {
		want = name + ":" + want
	}
	eq("position", src, p.String(), want)
}

// Every position of a tree carries the file name.
//
//vp:quick=60 thorough=60 reach=named,unnamed
func C20_names() {
	name := sym.Bytes("name", forkOn("length", 3))
	f, err := parseNamed(everyNode, name)
	if err != nil {
		sym.Fail("rejected: " + err.Error())
	}
	bare := mustParse(everyNode)
	d := &dumper{pos: true, ea: true, name: name}
	eq("tree with the file name", name, d.node(f), dumpAll(bare))
	if d.seen < 150 {
		sym.Fail("only " + strconv.Itoa(d.seen) + " positions")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n != nil {
			checkFileName("position of a node", everyNode, n.Pos(), name)
		}
		return true
	})
	if name == "" {
		sym.Reach("unnamed")
	} else {
		sym.Reach("named")
	}
}

// operatorTokens cannot start an expression.
var operatorTokens = []string{
	"||", "&&", "==", "==?", "==#", "!=", "!=?", "!=#", ">=", ">=?", ">=#", "<=", "<=?", "<=#", "=~", "=~?", "=~#",
	"!~", "!~?", "!~#", ">", ">?", ">#", "<", "<?", "<#", "=", "->", ".", "..", "...", "*", "/", "%", "?", ":", "#",
	")", "]", "}", ",", ";", "`",
}

// afterValue cannot stand behind a complete operand.
var afterValue = []string{"x", "s:a", "1", "0x1f", "0b1", "0z12", "1.5e3", "&x", "&g:x", "$X", "@a", "#{", "!", "=", "...", ";", "`", "#"}

var expectOperand = []string{
	"echo ¦", "let x = [1, ¦", "let x = {'a': ¦", "let x = f(a, ¦", "let x = (¦", "if ¦", "let x = a ? b : ¦", "let x = a + ¦",
	"let x = a == ¦", "let x = -¦", "let x = a[¦", "let x = #{a: ¦", "let x = {a -> ¦", "let x = a . ¦", "let x = a || ¦", "let x = a * ¦",
	"let x = a{¦", "for a in ¦", "throw ¦", "function F(a = ¦",
}

var expectEnd = []string{
	"let x = [1 ¦", "let x = {'a': 1 ¦", "let x = (a ¦", "let x = a ? b ¦", "let x = f(a ¦", "let x = a[1 ¦", "let x = #{a: 1 ¦", "let x = {'a' ¦",
	"let x = a[1:b ¦", "let x = f(a, b ¦", "let x = {a -> b ¦", "function F(a = b ¦",
}

// The token that is not expected is quoted as it is written.
//
//vp:quick=60 thorough=60 reach=reported,accepted
func C20_token() {
	var hole, tok string
	if sym.Choose("where", 2) == 0 {
		hole, tok = expectOperand[forkOn("hole", len(expectOperand))], operatorTokens[forkOn("token", len(operatorTokens))]
	} else {
		hole, tok = expectEnd[forkOn("hole", len(expectEnd))], afterValue[forkOn("token", len(afterValue))]
	}
	at := strings.Index(hole, mark)
	src := hole[:at] + tok + sym.Pick("behind", "", " ", " y")
	_, err := parse(src)
	if err == nil {
		sym.Reach("accepted")
		return
	}
	e := checkErr(src, "", err)
	if !strings.HasPrefix(e.Msg, "unexpected token: ") || e.Offset != at {
		sym.Reach("other")
		return
	}
	if w := strings.TrimPrefix(e.Msg, "unexpected token: "); w != tok {
		sym.Fail("error in " + strconv.Quote(src) + " names " + strconv.Quote(w) + ", not " + strconv.Quote(tok))
	}
	sym.Reach("reported")
}

// Errors far behind the start of the text.
//
//vp:quick=60 thorough=300 reach=reported steps=400000000 samples=12
func C20_far() {
	before := far(6)
	if len(before) < 6000 {
		judgeBad(before+pickBad().text, "f", "")
		return
	}
	judgeBad(before+[]string{"echo 1 + ¦]", "echo [a,\n\\ b,\n\\ ¦&]", "if 1\n¦endwhile", "¦xfoo"}[forkOn("row", 4)], "f", "")
}
