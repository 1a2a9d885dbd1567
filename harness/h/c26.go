package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// comments are the comments of a tree in order.
func comments(f *ast.File) []*ast.Comment {
	var l []*ast.Comment
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.Comment); ok {
			l = append(l, c)
		}
		return true
	})
	return l
}

// commentAt checks that the tree of src has exactly one comment at offset at
// with the text of the rest of its line.
func commentAt(f *ast.File, src string, at int) string {
	l := refLines(src)
	k := 0
	for k+1 < len(l) && l[k+1].start <= at {
		k++
	}
	lg := &l[k]
	i := 0
	for i < len(lg.s) && lg.off[i] != at {
		i++
	}
	sym.Assume(i < len(lg.s))
	text := lg.s[i+1:]
	n := 0
	for _, c := range comments(f) {
		if c.Quote.Offset == at {
			eq("comment", src, c.Text+posText(c.Quote.Offset, c.Quote.Line, c.Quote.Column), text+lg.at(i))
			n++
		}
		if c.Quote.Offset < 0 || c.Quote.Offset >= len(src) || src[c.Quote.Offset] != '"' {
			sym.Fail("a comment without its quote in " + strconv.Quote(src) + ": " + dumpPos(f))
		}
	}
	if n != 1 {
		sym.Fail("comments in the place of one: " + strconv.Itoa(n) + " in " + strconv.Quote(src) + ": " + dumpPos(f))
	}
	return text
}

// inBlocks are places for a command.
var inBlocks = [][2]string{{"", ""}, {"echo 0\n", "echo 2\n"}, {"if 1\n", "endif"}, {"if 1\nelseif 2\n", "endif"}, {"if 1\nelse\n", "endif"}, {"while 1\n", "endwhile"}, {"for a in b\n", "endfor"},
	{"try\n", "endtry"}, {"try\ncatch\n", "endtry"}, {"try\nfinally\n", "endtry"}, {"function F()\n", "endfunction"}, {"let a =<< E\nx\nE\n", ""}, {"append\na\n.\n", ""}, {"lua << E\nE\n", ""}, {"if 1|", "endif"}, {"try|catch|", "endtry"}}

// A comment of any bytes on a line of its own, in every place.
//
//vp:quick=90 thorough=300 reach=comment,rejected
func C26_line() {
	b := inBlocks[forkOn("block", len(inBlocks))]
	in := sym.Pick("indent", "", " \t", ":", " : ")
	comment(b, in, sym.BytesIn("text", 2, "|\" \\\na\t\r\x00\x80\xe3"))
}

// Three arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=comment,rejected
func C26_bytes() {
	comment(inBlocks[4*forkOn("block", 2)], sym.Pick("indent", "", " "), sym.Bytes("text", 3))
}

func comment(b [2]string, in, text string) {
	src := b[0] + in + "\"" + text + "\n" + b[1]
	at := len(b[0]) + len(in)
	l := refLines(src)
	k := 0
	for k < len(l) && l[k].start <= at {
		k++
	}
	rest := srcFrom(src, l, k)
	f2, err2 := parse(b[0] + "echo zz_mark\n" + rest)
	f, err := parse(src)
	if err2 != nil {
		sym.Reach("rejected")
		eq("error", src, errMsg(err), errMsg(err2))
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("comment")
	text = commentAt(f, src, at)
	eq("commands", src, bodyText(f.Body), strings.Replace(bodyText(f2.Body), "echo [id<zz_mark>]", "comment<"+text+">", 1))
}

// commented are commands that a comment can follow.
var commented = [][3]string{{"", "let a = 1", ""}, {"", "const a = b", ""}, {"", "unlet x", ""}, {"", "lockvar x", ""}, {"", "unlockvar! x y", ""}, {"", "call f(\"x\")", ""},
	{"function F()\n", "return x", "endfunction"}, {"", "eval x->f()", ""}, {"", "throw 'x'", ""}, {"", "if x", "endif"}, {"if 1\n", "elseif x", "endif"}, {"if 1\n", "else", "endif"}, {"if 1\n", "endif", ""},
	{"", "while x", "endwhile"}, {"while 1\n", "endwhile", ""}, {"", "for a in b", "endfor"}, {"for a in b\n", "endfor", ""}, {"", "try", "endtry"}, {"try\n", "catch", "endtry"}, {"try\n", "catch /\"x/", "endtry"},
	{"try\n", "finally", "endtry"}, {"try\n", "endtry", ""}, {"", "function F()", "endfunction"}, {"", "function! s:f(a, b = \"x\") abort dict", "endfunction"}, {"while 1\n", "break", "endwhile"}, {"while 1\n", "continue", "endwhile"},
	{"", "delfunction F", ""}, {"", "echohl x", ""}, {"", "set ai", ""}, {"", "cd x", ""}, {"", "quit! x", ""}, {"", "silent 1,2join 3", ""}, {"", "redir @a", ""}, {"", "edit +1 x", ""}, {"", "function F", ""}, {"", "k a", ""}}

// A comment behind a command is the comment on the line below.
//
//vp:quick=90 thorough=300 reach=comment,rejected
func C26_behind() {
	c := commented[forkOn("cmd", len(commented))]
	head := c[0] + c[1] + sym.Pick("sp", " ", "\t", "  ", "\n\\ ")
	src := head + "\"" + sym.BytesIn("text", 2, "|\" \\\na'\t\r") + "\n" + c[2]
	l := refLines(src)
	k := 0
	for k < len(l) && l[k].start <= len(head) {
		k++
	}
	lg := &l[k-1]
	i := len(lg.s)
	for i > 0 && lg.off[i] > len(head) {
		i--
	}
	f2, err2 := parse(c[0] + c[1] + "\n" + lg.s[i:] + "\n" + srcFrom(src, l, k))
	sym.Assume(!strings.HasSuffix(lg.s, "\r"))
	f, err := parse(src)
	if err2 != nil {
		sym.Reach("rejected")
		eq("error", src, errMsg(err), errMsg(err2))
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("comment")
	commentAt(f, src, len(head))
	eq("commands", src, bodyText(f.Body), bodyText(f2.Body))
}

// A comment behind :let or :const that list variables.
//
//vp:quick=60 thorough=300 reach=comment
func C26_listing() {
	cmd := sym.Pick("cmd", "let a", "let a b", "const a", "let s:", "let d.k")
	src := cmd + " \"" + sym.BytesIn("text", 1, "|\" a")
	f, err := parse(src)
	if err != nil || len(comments(f)) != 1 {
		sym.Fail("the comment behind a listing :let is no comment: " + strconv.Quote(src))
	}
	sym.Reach("comment")
	eq("commands", src, bodyText(f.Body), "excmd<"+cmd+">; comment<"+src[len(cmd)+2:]+">; ")
}

// A quote that does not start a comment leaves none in the tree.
//
//vp:quick=60 thorough=300 reach=none
func C26_none() {
	src := sym.Pick("cmd", "echo \"a\" ", "let x = \"a\" . ", "echo 'a\"' ", "call f(\"a\") ", "normal! ", "nnoremap a ", "echo @\" ", "throw \"a\" . ", "if \"a\" == ", "let @\" = ", "echo \"a|\" ", "execute \"a\" ", "edit \\\"", "s/\"/\"/ ", "g/\"/ ") +
		sym.Pick("mid", "1", "\"b\"", "'\"'", "x[\"a\"]", "\"\\\"\"", "@\"")
	src = strings.Replace(src, "endif", "", 1)
	if strings.HasPrefix(src, "if") {
		src += "\nendif"
	}
	if strings.HasPrefix(src, "edit") || strings.HasPrefix(src, "call") || strings.HasPrefix(src, "s/") {
		i := strings.LastIndex(src, " ")
		src = src[:i]
	}
	f, err := parse(src)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	if len(comments(f)) > 0 {
		sym.Fail("a comment in " + strconv.Quote(src) + ": " + dump(f))
	}
	sym.Reach("none")
}
