package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// srcFrom is the source text after logical line k.
func srcFrom(src string, l []logical, k int) string {
	if k >= len(l) {
		return ""
	}
	return src[l[k].start:]
}

// oneLine tells that a line has no continuation.
func oneLine(l logical) bool { return l.ln[len(l.ln)-1] == l.ln[0] }

// stripFirst removes blanks and colons: the start of a command.
func stripFirst(s string) string {
	for s != "" && (isW(s[0]) || s[0] == ':') {
		s = s[1:]
	}
	return s
}

// bodyText writes the commands of a body.
func bodyText(l []ast.Statement) string {
	s := ""
	for _, c := range l {
		s += dump(c) + "; "
	}
	return s
}

// rawBlock checks a script that starts with n lines of ordinary commands and
// then a command whose text goes on to the line that ends it.
func rawBlock(src string, n int, ends func(line string) bool) {
	l := refLines(src)
	if len(l) <= n {
		sym.Fail("harness: too few lines")
	}
	// a continuation line would change the command
	sym.Assume(oneLine(l[n]))
	k := n + 1
	for k < len(l) && !ends(l[k].s) {
		k++
	}
	if k < len(l) {
		sym.Reach("terminated")
		k++
	} else {
		sym.Reach("to the end")
	}
	want := stripFirst(l[n].s)
	for _, x := range l[n+1 : k] {
		want += "\n" + x.s
	}
	before, e1 := parse(src[:len(src)-len(srcFrom(src, l, n))])
	after, e2 := parse(srcFrom(src, l, k))
	f, err := parse(src)
	if e1 != nil {
		sym.Fail("harness: " + e1.Error())
	}
	if e2 != nil {
		sym.Reach("error behind")
		if err == nil {
			sym.Fail("the text behind the block is wrong, but accepted: " + strconv.Quote(src))
		}
		eq("error", src, errMsg(err), errMsg(e2))
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	eq("commands", src, bodyText(f.Body), bodyText(before.Body)+"excmd<"+want+">; "+bodyText(after.Body))
}

func isDot(s string) bool { return s == "." }
func never(s string) bool { return false }

// The lines after :append, :insert and :change: 2 arbitrary bytes in one
// line and 1 in the next, then a dot or something like it, or nothing.
//
//vp:quick=60 thorough=300 reach=terminated
func C13_append() {
	c := "append"
	pre := forkOn("pre", 2)
	nl, end := "\n", "\n.\necho 2\n"
	b := ""
	switch forkOn("vary", 2) {
	case 0:
		b = sym.Bytes("b", 1)
		c = []string{"append", "insert", "change"}[forkOn("c", 3)]
		nl = sym.Pick("nl", "\n", "\r\n")
		end = sym.Pick("end", "\n.\r\necho 2", "\n.", "\n.\n", "\n.x\n", "")
	case 1:
		c = sym.Pick("cmd", "append", "a", "i", "c", "1,2c", ": a!", "sil i", "cha", "append |foo", "a \"x")
	}
	rawBlock([]string{"", "echo 1\n"}[pre]+c+nl+sym.Bytes("a", 2)+"\n"+b+end, pre, isDot)
}

// scriptCmds are the commands that take a script.
var scriptCmds = []string{"lua", "python", "py", "py3", "python3", "pyx", "pythonx", "perl", "ruby", "rub", "tcl", "mzscheme", "mz", "sil! lua", "1,2perl", ":pe"}

// The lines of scripts: 2 arbitrary bytes in each of two lines, with a given
// marker, the default one, or none.
//
//vp:quick=60 thorough=300 reach=terminated,to_the_end
func C13_script() {
	cmd, m, w, nl := "lua", "E", " <<", "\n"
	if forkOn("vary", 2) == 0 {
		cmd = sym.Pick("cmd", scriptCmds...)
	} else {
		w = sym.Pick("w", " <<", "<<", " << ", "\t<<\t")
		m = sym.Pick("marker", "", ".", "EOF", "Eé", "E:", "\"x")
		nl = sym.Pick("nl", "\n", "\r\n")
	}
	src := cmd + w + m + nl + sym.Bytes("a", 2) + "\n" + sym.Bytes("b", 1) + m + sym.Pick("end", "\necho 2\n", "", "\n")
	if m == "" {
		m = "."
	}
	rawBlockR(src, 0, func(s string) bool { return s == m })
}

// rawBlockR is rawBlock under another name for the markers of reach.
func rawBlockR(src string, n int, ends func(line string) bool) {
	l := refLines(src)
	for k := n + 1; k < len(l); k++ {
		if ends(l[k].s) {
			rawBlock(src, n, ends)
			return
		}
	}
	sym.Reach("to_the_end")
	rawBlock(src, n, ends)
}

// Without << the text of a script command is its line.
//
//vp:quick=60 thorough=300
func C13_oneline() {
	src := sym.Pick("cmd", scriptCmds...) + " " + sym.Bytes("a", 2) + sym.Pick("b", "x|y", "\"x", "", " << E") + "\necho 2\n"
	l := refLines(src)
	s := stripFirst(l[0].s)
	if i := strings.IndexByte(s, ' '); strings.HasPrefix(s, "sil! ") {
		s = s[i+1:]
	}
	s = strings.TrimLeft(s[strings.IndexByte(s, ' '):], " \t")
	sym.Assume(!strings.HasPrefix(s, "<<"))
	sym.Assume(oneLine(l[0]))
	k, err := parse(srcFrom(src, l, 1))
	if err != nil {
		if _, e := parse(src); e == nil {
			sym.Fail("the text behind the command is wrong, but accepted: " + strconv.Quote(src))
		}
		return
	}
	eq("commands", src, bodyText(mustParse(src).Body), "excmd<"+stripFirst(l[0].s)+">; "+bodyText(k.Body))
}

// :loadkeymap takes everything behind it, and so does :finish outside of
// functions, where it is not a part of the command.
//
//vp:quick=60 thorough=300 reach=finish
func C13_rest() {
	what := forkOn("k", 3)
	n := 3
	if what == 0 {
		n = 1
	}
	rest := sym.Pick("nl", "\n", "\r\n", "\n\n") + sym.Bytes("a", n) + sym.Pick("e", "\n.\nfoo\n", "", "\nendif")
	if what < 2 {
		pre := forkOn("pre", 2)
		lead := ""
		if what == 0 {
			lead = sym.Pick("lead", "sil ", " :", "keepj sil! ", "\t")
		}
		rawBlock([]string{"", "echo 1\n"}[pre]+lead+"loadk"+sym.Pick("c", "eymap", "", "eym")+rest, pre, never)
		return
	}
	src := sym.Pick("f", "finish", "fini", "sil finish", "finish \"x", " :finish ") + rest
	l := refLines(src)
	sym.Assume(oneLine(l[0]))
	f := mustParse(src)
	want := stripFirst(l[0].s)
	if i := strings.IndexByte(want, '"'); i >= 0 {
		want = want[:i]
	}
	want = strings.TrimRight(want, " \t")
	sym.Reach("finish")
	if len(f.Body) != 1 {
		sym.Fail("commands behind finish: " + strconv.Quote(src) + ": " + bodyText(f.Body))
	}
	c, ok := f.Body[0].(*ast.Excmd)
	if !ok {
		sym.Fail("no command: " + strconv.Quote(src))
	}
	eq("finish", src, strings.TrimRight(c.Command, " \t"), want)
}

// In a function, :finish does not end the parse.
//
//vp:quick=60 thorough=300 reach=tree
func C13_finish() {
	body := sym.BytesIn("a", 2, "abfiq1 |") + "\n"
	f, err := parse("function F()\n" + body + "endfunction\n")
	if err != nil {
		return
	}
	for _, w := range []string{"function F()\nfinish\n" + body + "endfunction\n", "function F()\nif 1\nfinish\nendif\n" + body + "endfunction\necho 1\n"} {
		sym.Reach("tree")
		g := mustParse(w)
		x, y := f.Body[0].(*ast.Function), g.Body[0].(*ast.Function)
		eq("body of the function behind finish", w, bodyText(y.Body[1:]), bodyText(x.Body))
	}
	// in a block at the top level, it does not end it either
	src := "if 1\nfinish\nendif\n" + body
	b, err := parse(body)
	if err == nil {
		g := mustParse(src)
		eq("commands", src, bodyText(g.Body), "if num<1>{excmd<finish>}endif; "+bodyText(b.Body))
	}
}

// Here-documents: 2 arbitrary bytes in a line,
// 1 in the next.
//
//vp:quick=90 thorough=300 reach=terminated,missing
func C13_heredoc() { heredocs(1) }

// The same with 2 bytes in the second line.
//
//vp:thorough=600 reach=terminated,missing tier=thorough
func C13_heredoc2() { heredocs(2) }

func heredocs(nb int) {
	flag, m, in := "", "E", ""
	cmd, nl := "let x", "\n"
	end, rest := "E", "\necho 2\n"
	switch forkOn("vary", 3) {
	case 0:
		m = sym.Pick("marker", "E", "END", "_x", "E1")
		end = sym.Pick("end", m, "", "\n  "+m, "\nx")
		rest = sym.Pick("rest", "\necho 2\n", "")
	case 1:
		flag = []string{"", " trim", " eval", " trim eval"}[forkOn("flags", 4)]
		in = []string{"", "  ", "\t"}[forkOn("indent", 3)]
	case 2:
		cmd = sym.Pick("cmd", "let x", "const X", "let a.b", "let [c]", "sil let x")
		nl = sym.Pick("nl", "\n", " \n", " \"c\n", "\r\n")
	}
	src := in + cmd + " =<<" + flag + " " + m + nl + sym.Bytes("a", 2) + "\n" + sym.BytesIn("b", nb, " \t\\.E\r\n\xff") + end + rest
	heredoc(src, in, flag, m)
}

func heredoc(src, in, flag, m string) {
	l := refLines(src)
	trim := strings.HasPrefix(flag, " trim")
	k := 1
	for k < len(l) && l[k].s != m && !(trim && l[k].s == in+m) {
		k++
	}
	// a continuation line would change the command
	sym.Assume(oneLine(l[0]))
	f, err := parse(src)
	if k >= len(l) {
		sym.Reach("missing")
		if err == nil {
			sym.Fail("accepted without an end marker: " + strconv.Quote(src))
		}
		if errCode(err) != "E990" {
			sym.Fail("error for a missing end marker of " + strconv.Quote(src) + ": " + err.Error())
		}
		return
	}
	sym.Reach("terminated")
	after, e2 := parse(srcFrom(src, l, k+1))
	if e2 != nil {
		if err == nil {
			sym.Fail("the text behind the here-document is wrong, but accepted: " + strconv.Quote(src))
		}
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	n, ok := f.Body[0].(*ast.Let)
	if !ok {
		sym.Fail("no let: " + strconv.Quote(src))
	}
	if n.Op != "=<<" {
		sym.Fail("operator of " + strconv.Quote(src) + ": " + n.Op)
	}
	h, ok := n.Right.(*ast.HeredocExpr)
	if !ok {
		sym.Fail("no here-document: " + strconv.Quote(src))
	}
	got, want := "", ""
	for _, x := range h.Flags {
		got += " " + x.(*ast.BasicLit).Value
	}
	eq("flags", src, got, flag)
	eq("marker", src, h.EndMarker, m)
	got = ""
	for _, x := range h.Body {
		got += x.(*ast.BasicLit).Value + "\n"
	}
	for _, x := range l[1:k] {
		want += x.s + "\n"
	}
	eq("lines", src, got, want)
	body := f.Body[1:]
	if len(body) > 0 {
		if c, ok := body[0].(*ast.Comment); ok && strings.HasSuffix(l[0].s, "\"c") {
			eq("comment", src, c.Text, "c")
			body = body[1:]
		}
	}
	eq("commands behind", src, bodyText(body), bodyText(after.Body))
}
