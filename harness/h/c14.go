package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// cut tells where the text of a command ends and where what follows begins.
type cut struct {
	end, next int
	ok        bool // false where the property says nothing
}

func skipW(s string, p int) int {
	for p < len(s) && isW(s[p]) {
		p++
	}
	return p
}

func hasAny(c *cmdSpec, flags ...string) bool {
	for _, f := range flags {
		if c.has(f) {
			return true
		}
	}
	return false
}

// refCut says where the text of a command that is not analysed ends: s is the
// line from the name on, p the place behind the name.
func refCut(c *cmdSpec, s string, p int) cut {
	bang := false
	if p < len(s) && s[p] == '!' {
		if !hasAny(c, "BANG", "USERCMD") {
			return cut{}
		}
		bang = true
		p++
	}
	if c.name != "!" {
		p = skipW(s, p)
	}
	arg := p
	if c.has("ARGOPT") && strings.HasPrefix(s[p:], "++") {
		return cut{}
	}
	filter := false
	switch c.name {
	case "write", "update":
		if strings.HasPrefix(s[p:], ">>") {
			p = skipW(s, p+2)
		} else if strings.HasPrefix(s[p:], ">") {
			return cut{}
		} else if strings.HasPrefix(s[p:], "!") && c.name == "write" {
			filter = true
		}
	case "read":
		filter = bang || strings.HasPrefix(s[p:], "!")
	case "<", ">":
		for p < len(s) && s[p] == c.name[0] {
			p++
		}
		p = skipW(s, p)
	}
	if c.has("EDITCMD") && !filter && p < len(s) && s[p] == '+' {
		for p++; p < len(s) && !isW(s[p]); p++ {
			if s[p] == '\\' && p+1 < len(s) {
				p++
			}
		}
	}
	if !c.has("TRLBAR") || filter {
		return cut{len(s), len(s), true}
	}
	switch c.name {
	case "vimgrep", "vimgrepadd", "lvimgrep", "lvimgrepadd":
		if p < len(s) {
			if s[p] >= 0x80 {
				return cut{}
			}
			if isAlphaB(s[p]) || isDigitB(s[p]) || s[p] == '_' {
				for p < len(s) && !isW(s[p]) {
					p++
				}
			} else if e := refPattern(s, p+1, s[p]); e > 0 {
				p = e
			} else if trailingBackslash(s) {
				return cut{} // E682
			}
		}
	}
	return refSeparate(c, s, p, arg, !c.has("NOTRLCOM"))
}

// refSeparate looks for the bar or comment from p on.
func refSeparate(c *cmdSpec, s string, p, arg int, trlcom bool) cut {
	i := p
	for i < len(s) {
		if s[i] == 0x16 {
			i++
			if i == len(s) {
				break
			}
			if isW(s[i]) && !c.has("USECTRLV") {
				return cut{} // Vim is not of one mind about it
			}
			i++
			continue
		}
		if strings.HasPrefix(s[i:], "`=") && hasAny(c, "XFILE", "FILES", "FILE1") {
			return cut{}
		}
		if (s[i] == '|' || s[i] == '"' && trlcom && !((c.name == "@" || c.name == "*") && i == arg) && !(c.name == "redir" && i == arg+1 && s[arg] == '@')) &&
			!(i > p && s[i-1] == '\\') {
			break
		}
		i++
	}
	end := i
	for trlcom && end > p && isW(s[end-1]) && !(end-2 >= p && (s[end-2] == '\\' || s[end-2] == 0x16)) {
		end--
	}
	return cut{end, i, true}
}

// refPattern is the place behind the delimiter that ends a pattern, or 0.
func refPattern(s string, p int, delim byte) int {
	for p < len(s) {
		switch {
		case s[p] == delim:
			return p + 1
		case s[p] == '\\':
			p += 2
		case s[p] == '[':
			p++
			if p < len(s) && s[p] == '^' {
				p++
			}
			if p < len(s) && s[p] == ']' {
				p++
			}
			for p < len(s) && s[p] != ']' {
				if s[p] == '\\' {
					p++
				}
				if p+1 < len(s) && s[p] == '[' && s[p+1] == ':' {
					q := p + 2
					for q < len(s) && isAlphaB(s[q]) {
						q++
					}
					if strings.HasPrefix(s[q:], ":]") {
						p = q + 1
					}
				} else if p+4 < len(s) && s[p] == '[' && (s[p+1] == '=' || s[p+1] == '.') && s[p+3] == s[p+1] && s[p+4] == ']' {
					p += 4
				}
				p++
			}
			if p >= len(s) {
				return 0
			}
			p++
		default:
			p++
		}
	}
	return 0
}

// separated checks a script whose first line is pre, a command and its
// argument.
func separated(src, pre string, spec *cmdSpec, name string) {
	separatedBy(src, pre, func(s string) cut { return refCut(spec, s, len(name)) })
}

// separatedBy is separated with another reference.
func separatedBy(src, pre string, ref func(s string) cut) {
	l := refLines(src)
	line := l[0].s
	sym.Assume(strings.HasPrefix(line, pre) && !strings.Contains(line, "#!"))
	c := ref(line[len(pre):])
	sym.Assume(c.ok)
	end, next := c.end+len(pre), c.next+len(pre)
	rest := ""
	if next < len(line) {
		sym.Reach("separated")
		if line[next] == '|' {
			next++
		}
		rest = ":" + line[next:] + "\n"
	} else {
		sym.Reach("whole line")
	}
	rest += srcFrom(src, l, 1)
	after, e2 := parse(rest)
	f, err := parse(src)
	if e2 != nil {
		if err == nil {
			sym.Fail("what follows the command is wrong, but accepted: " + strconv.Quote(src) + ": " + e2.Error())
		}
		eq("error", src, errMsg(err), errMsg(e2))
		return
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	eq("commands", src, bodyText(f.Body), "excmd<"+stripFirst(line[:end])+">; "+bodyText(after.Body))
}

// notPlain are commands of the kind common whose arguments are not read like
// those of others: modifiers, and those with harnesses of their own.
var notPlain = map[string]bool{"substitute": true, "smagic": true, "snomagic": true, "&": true, "&&": true, "~": true, "match": true, "sort": true, "filter": true, "def": true, "Print": true, // a user command may have that name
	"*":       true, // a * is a range
	"dsearch": true, "isearch": true, "dlist": true, "ilist": true, "djump": true, "ijump": true, "dsplit": true, "isplit": true, "psearch": true}

func isPlain(c *cmdSpec) bool {
	_, mod := modNames[c.name]
	return c.kind == "common" && !notPlain[c.name] && (!mod || c.name == "hide")
}

// pickSpec picks one of the plain commands.
func pickSpec() *cmdSpec {
	var l []*cmdSpec
	for i := range cmdTable {
		if isPlain(&cmdTable[i]) {
			l = append(l, &cmdTable[i])
		}
	}
	k := 0
	for n := forkOn("cmd group", (len(l)+31)/32); n > 0; n-- {
		k += 32
	}
	m := len(l) - k
	if m > 32 {
		m = 32
	}
	return l[k+forkOn("cmd", m)]
}

// Every command that is not analysed, with two bytes out of those that matter
// in its argument.
//
//vp:quick=90 thorough=300 reach=separated,whole_line
func C14_every() {
	c := pickSpec()
	if c.name == "hide" {
		separated("hide"+sym.Pick("arg", "|", " |", "\"", " \"")+"echo 1", "", c, "hide")
		sym.Reach("whole_line")
		return
	}
	src := c.name + " x" + sym.BytesIn("arg", 2, "|\"\\` \x16x") + "|echo 1"
	if !c.has("TRLBAR") {
		sym.Reach("whole_line")
	}
	separated(src, "", c, c.name)
}

// Every command that takes a bang, with one.
//
//vp:quick=60 thorough=300 reach=separated,whole_line
func C14_bang() {
	c := pickSpec()
	sym.Assume(c.has("BANG") && c.name != "hide")
	if !c.has("TRLBAR") {
		sym.Reach("whole_line")
	}
	separated(c.name+"! x"+sym.BytesIn("arg", 2, "|\"\\` \x16x")+"|echo 1", "", c, c.name)
}

// Arbitrary bytes as argument of a command of each class.
//
//vp:quick=120 thorough=300 reach=separated
func C14_bytes() {
	name := []string{"cd", "map", "nohlsearch", "registers", "normal", "make", "@", "redir", "edit", "Foo", "write"}[forkOn("cmd", 11)]
	c := findSpecOr(name)
	src := name + " " + sym.Bytes("arg", 2) + sym.Pick("end", "|echo 1", "\"x", "\necho 2", " |a", " ")
	separated(src, "", c, name)
}

func findSpecOr(name string) *cmdSpec {
	if name == "Foo" {
		return &cmdSpec{name, 0, "usercmd", "USERCMD"}
	}
	return findSpec(name)
}

// Modifiers, range and white space before the command are a part of its text.
//
//vp:quick=60 thorough=300 reach=separated
func C14_before() {
	pre, in, sp := "silent 1,2", "", ""
	switch forkOn("vary", 3) {
	case 0:
		pre = sym.Pick("mod", "", "silent ", "sil! tab ", "3verbose", "keepa ", "hide ") + sym.Pick("range", "", "1,2", "'a;+3")
	case 1:
		pre = sym.Pick("range", "", "1,2", "%", "/a|\"b/", "'a;+3", "?\\|?,", "/[/|]/", ".,$", "/[[:alpha:]|/\"]/", "/]/;", "/[]|/]/")
	case 2:
		in = sym.Pick("indent", "", " ", ":", "\t: ")
		sp = sym.Pick("sp", "", " ", ":")
	}
	name := []string{"join", "normal", "map", "k", ">"}[forkOn("cmd", 5)]
	src := in + pre + sp + name + sym.Pick("arg", " a", " ") + sym.BytesIn("b", 2, "|\"\\ \tax") + sym.Pick("end", "", "|echo 1")
	p := strings.Index(src[len(in)+len(pre):], name) + len(in) + len(pre)
	sym.Assume(!(pre == "3verbose")) // another name
	separated(src, src[:p], findSpec(name), name)
}

// What has rules of its own before the bar: +cmd, >>, filters, patterns,
// registers, and commands that take bars.
//
//vp:quick=90 thorough=300 reach=separated
func C14_special() {
	a := sym.Pick("arg",
		"edit +", "edit! +", "e", // +cmd
		"write >>", "write !", "w!", "update >>", "read !", "read! ", "r", "read ", // filters
		"!", "! ", "global/a/", "vglobal/a/", "argdo ", "autocmd X * ", "command X ", "terminal ", "help ", "normal! ", // take bars
		"vimgrep /", "lvimgrep! /[", "vimgrepadd +", "vimgrep a", "vimgrep /a/j ", // patterns
		"@", "@\"", "redir @", "redir @\"", "redir > ", "redir >>@", // registers
		">", ">>", "<<< ", "=", "k", "#", "<>") // others
	i := 0
	for i < len(a) && isAlphaB(a[i]) {
		i++
	}
	if i == 0 {
		i = 1
	}
	c, n, ok := refCommand(a[:i], a[i:], false)
	if c == nil {
		c, n, ok = findSpec(a[:1]), 1, true
	}
	sym.Assume(ok)
	src := a + sym.BytesIn("b", 2, "|\"\\/+]a !") + sym.Pick("end", "", "|echo 1", "/|echo 1", " |echo 1", " x\"y")
	// letters behind the name make it another
	if i < len(src) && i == len(a) && isAlphaB(a[0]) {
		sym.Assume(!isAlphaB(src[i]))
	}
	separated(src, "", c, a[:n])
}

// A backtick expression hides bars and quotes where file names are expected.
//
//vp:quick=60 thorough=300 reach=separated
func C14_backtick() {
	name := sym.Pick("cmd", "edit", "cd", "args", "make", "source", "write", "mksession!", "split +1")
	x := sym.Pick("expr", "\"|\"", "a || b", "'|'.\"\\\"\"", "[1, '\"'] ", "{'|': 1}", "F(\"`|\")")
	src := name + " " + sym.Pick("before", "", "x", "x ", "\\|") + "`=" + x + "`" + sym.BytesIn("b", 1, "|\"\\ax ") + sym.Pick("end", "|echo 1", "", "\"x")
	k := strings.Index(src, "`=") + 2 + len(x) + 1
	separatedBy(src, "", func(s string) cut {
		if k >= len(s) {
			return cut{len(s), len(s), true}
		}
		c := findSpec(strings.TrimRight(strings.SplitN(name, " ", 2)[0], "!"))
		return refSeparate(c, s, k, 0, !c.has("NOTRLCOM"))
	})
	// no file names: the backtick means nothing
	src = sym.Pick("cmd", "nohlsearch", "map", "registers", "sleep") + " `=" + sym.Pick("e", "|", "a|", "1||2`", "\"|\"")
	w := src[:strings.IndexByte(src, ' ')]
	separated(src, "", findSpec(w), w)
}

// The commands that look for the bar behind their pattern.
//
//vp:quick=90 thorough=300 reach=separated
func C14_pattern() {
	mid := sym.BytesIn("b", 2, "|\"\\/[]a ")
	end := sym.Pick("end", "", "|echo 1", "/|echo 1", " |echo 1", "/ \"x", "/e|echo 1")
	var src string
	var ref func(s string) cut
	c := findSpec("join") // no flag that matters
	switch forkOn("cmd", 4) {
	case 0:
		name := sym.Pick("cmd", "s", "%s", "substitute", "sno", "smagic", "1,2s ")
		d := sym.Pick("delim", "/", "+", "!", "#", "_")
		src = name + d + mid + strings.Replace(end, "/", d, -1)
		if sym.Choose("where", 2) == 1 {
			src = name + d + "a" + d + mid + strings.Replace(end, "/", d, -1)
		}
		ref = func(s string) cut {
			p := len(name) + 1
			q := refPattern(s, p, d[0])
			if q == 0 || q > len(s) {
				return cut{len(s), len(s), !trailingBackslash(s)}
			}
			for q < len(s) && s[q] != d[0] {
				if s[q] == '\\' {
					q++
				}
				q++
			}
			if q >= len(s) {
				return cut{len(s), len(s), true}
			}
			return refSeparate(c, s, q+1, 0, true)
		}
	case 1:
		name := sym.Pick("cmd", "&", "&&", "~", "~&", "s", "s r ", "sno ")
		src = name + mid + end
		ref = func(s string) cut {
			p := len(name)
			if name == "&" || name == "~" || name == "&&" || name == "~&" {
				return refSeparate(c, s, skipW(s, 1), 0, true)
			}
			r := cut{}
			if p < len(s) && (s[p] == '|' || s[p] == '"' || name == "s r ") {
				r = refSeparate(c, s, skipW(s, len(strings.TrimRight(name, " r"))), 0, true)
			}
			return r
		}
	case 2:
		name := sym.Pick("cmd", "match X /", "match X9+", "2match  a  /", "mat A ?")
		d := name[len(name)-1:]
		if d == "+" {
			name = "match X9 +"
		}
		src = name + mid + strings.Replace(end, "/", d, -1)
		ref = func(s string) cut {
			q := refPattern(s, len(name), d[0])
			if q == 0 {
				return cut{len(s), len(s), !trailingBackslash(s)}
			}
			return refSeparate(c, s, q, 0, true)
		}
	default:
		name := sym.Pick("cmd", "sort", "sort!", "sort u ", "sort /", "%sor r/", "sort n ?")
		d := name[len(name)-1:]
		if d != "/" && d != "?" {
			src = name + sym.Pick("flags", "", " ", "  ", " ui") + strings.Replace(end, "/", "", -1)
			sym.Assume(!strings.HasPrefix(src, "sorte"))
			ref = func(s string) cut {
				p := strings.IndexAny(s, "|\"")
				if p < 0 {
					p = len(s)
				}
				e := p
				for e > len(strings.TrimRight(name, " ")) && isW(s[e-1]) {
					e--
				}
				// blanks right behind the name are not trimmed
				if e == strings.Index(s+"!", "sort")+4 || e > 0 && s[e-1] == '!' {
					e = p
				}
				return cut{e, p, true}
			}
		} else {
			src = name + mid + strings.Replace(end, "/", d, -1)
			ref = func(s string) cut {
				q := refPattern(s, len(name), d[0])
				if q == 0 {
					return cut{len(s), len(s), !trailingBackslash(s)}
				}
				return refSeparate(c, s, q, 0, true)
			}
		}
	}
	separatedBy(src, "", ref)
}

func trailingBackslash(s string) bool {
	n := 0
	for n < len(s) && s[len(s)-1-n] == '\\' {
		n++
	}
	return n%2 == 1
}

// :wincmd takes one character, or two after g and CTRL-G, even a bar.
//
//vp:quick=60 thorough=300 reach=separated
func C14_wincmd() {
	arg := sym.Bytes("arg", 1) + sym.BytesIn("b", 1, "|\" \tax\x07g")
	src := sym.Pick("cmd", "wincmd ", "winc ", "1wincmd\t") + arg + sym.Pick("end", "|echo 1", "", "\"x", " | echo 1", "\n")
	l := refLines(src)
	s := l[0].s
	p := strings.IndexAny(s, " \t")
	p = skipW(s, p)
	sym.Assume(p < len(s))
	n := 1
	if s[p] == 'g' || s[p] == 7 {
		n = 2
	}
	for i := 0; i < n; i++ {
		if i == 1 && (p >= len(s) || isW(s[p])) {
			if _, err := parse(src); errCode(err) != "E474" {
				sym.Fail("g with nothing behind it is E474: " + strconv.Quote(src) + ": " + errText(err))
			}
			return
		}
		p++
		for p < len(s) && s[p]&0xc0 == 0x80 {
			p++ // the rest of a character
		}
	}
	q := skipW(s, p)
	if q < len(s) && s[q] != '|' && s[q] != '"' {
		if _, err := parse(src); errCode(err) != "E474" {
			sym.Fail("more than one character is E474: " + strconv.Quote(src) + ": " + errText(err))
		}
		return
	}
	separatedBy(src, "", func(s string) cut { return cut{p, q, true} })
}

// :syntax, where bars and quotes within patterns do not separate: two bytes
// out of those that matter in a pattern, at each place that takes one.
//
//vp:quick=60 thorough=300 reach=separated
func C14_syntax() {
	d := []string{"/", "+", "\"", "'", "=", "!"}[forkOn("delim", 6)]
	before := sym.Pick("before", "match X ", "match X contained ", "match X9 contains=@a,b conceal ", "sync match X grouphere Y ", "sync linecont ", "sync linecont\t",
		"match X cchar=| ", "region X start=", "region X matchgroup=Y keepend start=", "region X start= ", "region X end=+|\"+ skip=", "sync region X start=/\\|/hs=s+1 end=")
	after := sym.Pick("after", "", " ", " contained", " display ", "me=e-1", "ms=s+1,hs=s+2", " contains=a,b ", " nextgroup=X ", " cchar=| ", " keepend end=+|\"+")
	end := sym.Pick("end", "", "|echo 1", "\"x")
	pre := sym.Pick("cmd", "syntax ", "syn ", "sy\t") + before + d
	src := pre + sym.BytesIn("b", 2, "|\"/[]\\a ") + d + after + end
	k := len(src) - len(end)
	separatedBy(src, "", func(s string) cut {
		q := refPattern(s, len(pre), d[0])
		if q != k-len(after) {
			return cut{}
		}
		return cut{k, k, true}
	})
}

// :syntax without patterns.
//
//vp:quick=60 thorough=300 reach=separated
func C14_syntax2() {
	src := sym.Pick("cmd", "syntax ", "syn ", "sy\t") + sym.Pick("args", "on", "", "enable ", "keyword X a b ", "keyword X don't a/b ", "cluster X contains=a,b ", "case match ",
		"sync fromstart ", "sync ccomment X minlines=10 ", "list X ", "clear ", "spell toplevel", "include @X a.vim", "match", "region", "sync")
	k := len(src)
	src += sym.Pick("end", "", "|echo 1", "\"x", "|"+sym.BytesIn("b", 1, "ax \\"))
	sym.Assume(!strings.HasSuffix(src, "match\"x") && !strings.HasSuffix(src, "region\"x")) // the name of a group
	separatedBy(src, "", func(s string) cut { return cut{k, k, true} })
}

// The commands that look for a pattern in included files (a known finding).
//
//vp:quick=60 thorough=300
func C14_include() {
	name := []string{"dsearch", "isearch", "dlist", "ilist", "djump", "ijump", "dsplit", "isplit", "psearch"}[forkOn("cmd", 9)]
	src := name + " /" + sym.BytesIn("b", 1, "|ax") + "/" + sym.Pick("sp", "", " ") + "|echo 1"
	separatedBy(src, "", func(s string) cut { return refSeparate(findSpec("join"), s, len(name)+4, 0, true) })
}

// :let, :const and :function that list names.
//
//vp:quick=60 thorough=300 reach=separated
func C14_listing() {
	src := sym.Pick("cmd", "let a", "let a b", "const a", "let s:", "let d.k", "let d[\"k|\"]", "let", "const", "function", "function F", "function s:f", "function! F", "function! /a", "function! /a|b/", "function!", "let  ", "const\t", "function \t", "function d.k", "function /a/", "function /a", "function /[|]/", "function /a\\|b/") +
		sym.BytesIn("sp", 1, " \t|\"") + sym.BytesIn("b", 1, "|\" \tX") + sym.Pick("end", "", "|echo 1")
	separatedBy(src, "", func(s string) cut {
		p := 0
		for p < len(s) && (isAlphaB(s[p]) || s[p] == '!') {
			p++
		}
		p = skipW(s, p)
		start := p
		if p < len(s) && s[p] == '/' {
			p = refPattern(s, p+1, '/')
			if p == 0 {
				return cut{len(s), len(s), true}
			}
			if q := skipW(s, p); q < len(s) && s[q] == '|' {
				return cut{p, q, true}
			}
			return cut{len(s), len(s), true}
		}
		in := false
		for p < len(s) && (in || s[p] != '|' && s[p] != '"') {
			in = in && s[p] != ']' || s[p] == '['
			p++
		}
		end := p
		for end > start && isW(s[end-1]) {
			end--
		}
		return cut{end, p, true}
	})
}
