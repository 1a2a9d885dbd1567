package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// exprCmd is a command with expressions.
type exprCmd struct {
	before string // commands it needs
	name   string
	mark   string // the command with mark in place of its expressions
	after  string
}

const markName = "zz_mark"
const markText = "id<" + markName + ">"

var listCmds = []exprCmd{
	{"", "echo", "echo zz_mark", ""}, {"", "ec", "echo zz_mark", ""}, {"", "echon", "echon zz_mark", ""}, {"", "echom", "echomsg zz_mark", ""},
	{"", "echoerr", "echoerr zz_mark", ""}, {"", "exe", "execute zz_mark", ""}, {"", "silent! execute", "silent! execute zz_mark", ""},
}

var oneCmds = []exprCmd{
	{"", "throw", "throw zz_mark", ""}, {"", "eval", "eval zz_mark", ""},
	{"function! F()\n", "return", "return zz_mark", "\nendfunction"}, {"function! F()\n", "retu", "return zz_mark", "\nendfunction"},
	{"", "if", "if zz_mark", "\nendif"}, {"if 1\n", "elseif", "elseif zz_mark", "\nelse\nendif"}, {"", "while", "while zz_mark", "\nendwhile"}, {"while 1|", "wh", "while zz_mark", "\nendwhile\nendwhile"},
	{"", "for a in", "for a in zz_mark", "\nendfor"}, {"", "let x =", "let x = zz_mark", ""}, {"", "let [x; y] .=", "let [x; y] .= zz_mark", ""}, {"", "const x =", "const x = zz_mark", ""},
	{"", "call", "call zz_mark()", ""},
}

// expressions checks a script of c, its argument arg and what follows it, by
// the reference of expressions.
func expressions(c exprCmd, arg string) {
	src := c.before + c.name + arg + c.after
	sym.Assume(!strings.HasSuffix(c.name, " in") || arg != "" && isW(arg[0]))
	sym.Assume(arg == "" || !isWord(arg[0]) && arg[0] != '!' || !isAlphaB(c.name[len(c.name)-1])) // another name, or a bang
	at := len(c.before)
	l := refLines(src)
	k := 0
	for k+1 < len(l) && l[k+1].start <= at {
		k++
	}
	lg := &l[k]
	i := at - lg.start + len(c.name)
	sym.Assume(i <= len(lg.s) && strings.HasSuffix(lg.s[:i], c.name) && !strings.HasSuffix(lg.s, "\r") && !strings.Contains(src, "#!"))
	isList, isCall := c.mark[0] == 'e' && c.name != "eval" && c.name != "elseif" || c.mark[0] == 's', c.name == "call"
	want, n := "", 0
	f, err := parse(src)
	for i = skipW(lg.s, i); i < len(lg.s) && lg.s[i] != '|' && (n == 0 && c.name != "call" || isList || lg.s[i] != '"'); i = skipW(lg.s, i) {
		if n > 0 && !isList {
			sym.Reach("trailing")
			if err == nil {
				sym.Fail("text after the expression, but accepted: " + strconv.Quote(src))
			}
			return
		}
		x, end, why := refExprAt(lg, i)
		if why == "" && isCall && x.kind == "method" {
			// Vim: methods may follow a call of a named function
			for x.kind == "method" {
				x = x.kids[0]
			}
			sym.Assume(x.kind == "call")
			if err != nil {
				sym.Fail(":call does not take a method call: " + strconv.Quote(src) + ": " + err.Error())
			}
			sym.Truncate()
		}
		if why != "" || isCall && x.kind != "call" {
			sym.Assume(why != oddBlob)
			if err == nil {
				sym.Fail("a wrong expression, but accepted: " + strconv.Quote(src) + " " + why)
			}
			sym.Reach("rejected")
			return
		}
		if n > 0 {
			want += " "
		}
		want += x.dump(nil)
		n++
		i = end
	}
	old := markText
	if isCall {
		old = "(call " + markText + "[])"
	}
	if n == 0 && !isList {
		if c.mark[0] != 'r' {
			sym.Reach("missing")
			if err == nil {
				sym.Fail("no expression, but accepted: " + strconv.Quote(src))
			}
			return
		}
		want = "nil"
	}
	next := i
	if i < len(lg.s) {
		sym.Reach("separated")
		if lg.s[i] == '|' {
			next++
		}
	}
	// the same script with the mark instead, and what follows on a line of its own
	rest := ":" + lg.s[next:] + "\n" + srcFrom(src, l, k+1)
	f2, err2 := parse(c.before + c.mark + "\n" + rest)
	if err2 != nil {
		if err == nil {
			sym.Fail("what follows the command is wrong, but accepted: " + strconv.Quote(src) + ": " + err2.Error())
		}
		eq("error", src, errMsg(err), errMsg(err2))
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("accepted")
	eq("commands", src, bodyText(f.Body), strings.Replace(bodyText(f2.Body), old, want, 1))
}

// Commands with a list of expressions: any bytes.
//
//vp:quick=90 thorough=300 reach=accepted,rejected,separated
func C25_bytes() {
	c := append(append([]exprCmd{}, listCmds[0], listCmds[5]), oneCmds[0], oneCmds[2], oneCmds[4], oneCmds[12])[forkOn("cmd", 6)]
	a := " " + sym.Bytes("arg", 3)
	if c.name == "call" {
		a = " f(" + sym.Bytes("arg", 2)
	}
	expressions(c, a)
}

func listOf(sep string) {
	c := listCmds[[]int{0, 4, 5}[forkOn("cmd", 3)]]
	expressions(c, " "+sym.Pick("a", tails...)+sep+sym.Pick("b", "", "y", "\"b\"", "'c'", "|echo 1", "\n\\ z \"q\"|x"))
}

func oneOf(sep string) {
	c := oneCmds[forkOn("cmd", len(oneCmds)-1)]
	expressions(c, " "+sym.Pick("a", tails...)+sep+sym.Pick("b", "", "y", "\"b\"", "|echo 1", "\n\\ | x"))
}

const separators = "|\" \t'x1-(,)\n"

// Commands with a list of expressions: up to three of all kinds, with any
// separator.
//
//vp:quick=90 thorough=300 reach=accepted,rejected,separated
func C25_list() { listOf(sym.BytesIn("sep", 1, separators)) }

// The same with two bytes between them.
//
//vp:tier=thorough thorough=400 reach=accepted,rejected,separated
func C25_list2() { listOf(sym.BytesIn("sep", 2, separators)) }

// Commands with one expression, of all kinds, and what follows it.
//
//vp:quick=90 thorough=300 reach=accepted,rejected,separated,trailing
func C25_one() { oneOf(sym.BytesIn("sep", 1, separators)) }

// The same with two bytes behind it.
//
//vp:tier=thorough thorough=400 reach=accepted,rejected,separated,trailing
func C25_one2() { oneOf(sym.BytesIn("sep", 2, separators)) }

// Nothing, a comment or a bar instead of the expressions.
//
//vp:quick=60 thorough=300 reach=accepted,rejected,separated,missing
func C25_none() {
	c := append(append([]exprCmd{}, listCmds...), oneCmds...)[forkOn("cmd", len(listCmds)+len(oneCmds))]
	expressions(c, sym.Pick("sp", "", " ", "\t ")+sym.Pick("a", "", "|", "|echo 1", "\"", "\"x", "\"x\"", "\"x\" \"y\"", "\"x\"|echo 1", "\n", "\n\\", "\n\\ a", "\n\\|echo 1", "\n \\\"x", "\n\\\"x\""))
}

// :call of every kind of an expression.
//
//vp:quick=60 thorough=300 reach=accepted,rejected,separated,trailing
func C25_call() {
	f := sym.Pick("f", "f", "a.b", "a.b[c]", "p{q}r{s}", "s:v", "<SID>f", "a#b", "d[1]", "x->f", "'x'->f", "x()->f", "{-> 1}", "f(1)", "f()(2)", "[1]", "(f)", "g:x", "...{-> 1}")
	a := sym.Pick("args", "()", "(1)", "(1, \"b\")", "(a, f(1), {-> [1]})", "", "(", "(1", "(1,", "()()", "().x", "()[1]", "() + 1", "() ? x : y", ")", "(,)")
	c := oneCmds[len(oneCmds)-1]
	expressions(c, sym.Pick("sp", " ", "\t ")+f+a+sym.Pick("end", "", " ", "\"c", " | echo 1", " x", "|", "\n\\"))
}

// :delfunction of every kind of a name, and what follows it.
//
//vp:quick=60 thorough=300 reach=accepted,rejected,separated
func C25_delfunction() {
	good := []string{"F", "s:f", "a#b", "g:F", "<SID>f", "d.k", "d[1]", "d.k[x].y", "F{x}y", "{'a'}"}
	bad := []string{"", "1", "'x'", "(f)", "[f]", "@a", "$A", "&ai", "\"f\"", "-f", "{->1}"}
	t := sym.Pick("name", append(append([]string{}, good...), bad...)...)
	end := sym.Pick("end", "", " ", "|echo 1", " | echo 1", "\"c", " \"c", "\n\\ | echo 2", "\n\\")
	bang := sym.Pick("bang", " ", "! ", "!")
	src := "delf" + bang + t + end
	f, err := parse(src)
	for _, g := range good {
		if t == g {
			f2, err2 := parse("delfunction" + bang + "zz_mark\n:" + strings.Replace(strings.TrimLeft(strings.Replace(end, "\n\\", "", 1), " "), "|", "", 1))
			if err != nil || err2 != nil {
				sym.Fail("rejected: " + strconv.Quote(src))
			}
			if end != "" {
				sym.Reach("separated")
			}
			sym.Reach("accepted")
			eq("commands", src, bodyText(f.Body), strings.Replace(bodyText(f2.Body), markText, exprText(t), 1))
			return
		}
	}
	if err == nil {
		sym.Fail("accepted: " + strconv.Quote(src))
	}
	sym.Reach("rejected")
}

// :echohl: a name without blanks around it.
//
//vp:quick=60 thorough=300 reach=accepted,separated
func C25_echohl() {
	name := sym.Pick("name", "", "None", "x", "a.b", "Error") + sym.BytesIn("b", 2, "aZ_ \t")
	end := sym.Pick("end", "", "|echo 1", "\"c", "\n\\|echo 1", "\n\\\"c", "\necho 2")
	src := "echohl" + sym.Pick("sp", " ", "\t ") + name + end
	f, err := parse(src)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	if end != "" {
		sym.Reach("separated")
	}
	sym.Reach("accepted")
	rest := end
	if strings.HasPrefix(rest, "\n\\") {
		rest = rest[2:]
	}
	if strings.HasPrefix(rest, "|") {
		rest = rest[1:]
	}
	eq("commands", src, bodyText(f.Body), "echohl<"+strings.Trim(name, " \t")+">; "+bodyText(mustParse(rest).Body))
}

// :catch with a pattern between delimiters.
//
//vp:quick=60 thorough=300 reach=accepted,separated,trailing
func C25_catch() {
	d := sym.Pick("delimiter", "/", "?", "!", "+", "#", ",")
	pat := sym.BytesIn("pattern", sym.Choose("n", 4), "a/\\[]|\"^? ")
	end := sym.Pick("end", "", " ", "|echo 1", " | echo 1", "\"c", "x", " x", "\n\\| echo 1")
	src := "try\ncat" + sym.Pick("sp", " ", "\t ") + d + pat + d + end + "\nendtry"
	p := refPattern(pat+d, 0, d[0])
	// the end that was meant: others depend on how [ ] and \ pair
	sym.Assume(p == len(pat)+1)
	f, err := parse(src)
	rest := strings.TrimLeft(strings.Replace(end, "\n\\", "", 1), " ")
	if rest == "x" {
		sym.Reach("trailing")
		eq("error", src, errCode(err), "E488")
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("accepted")
	if rest != "" {
		sym.Reach("separated")
	}
	want := bodyText(mustParse("try\ncatch /" + markName + "/\n:" + strings.TrimPrefix(rest, "|") + "\nendtry").Body)
	eq("commands", src, bodyText(f.Body), strings.Replace(want, markName, pat, 1))
}

// Commands with one expression, which is followed by another one.
//
//vp:quick=60 thorough=300 reach=trailing
func C25_trailing() {
	c := oneCmds[forkOn("cmd", len(oneCmds)-1)]
	more := append([]string{"'c'", "\"c", "$E", "@a", "&ai", "#{a: 1}", ";", "]", ")", "}", ",", "=", "!", "#", "`", "\\"}, tails...)
	expressions(c, " "+sym.Pick("a", "x", "1", "'s'", "f(1)", "[1]", "x.y", "-x", "(x)", "{->1}", "x[1]")+sym.Pick("sp", " ", "\t ", "\n \\ ")+sym.Pick("b", more...))
}
