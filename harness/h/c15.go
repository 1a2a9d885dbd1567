package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// before is what stands before the name of a command.
type before struct {
	mods, rng  string // as modText and rangeText write them
	line, name int    // where the line and the name begin
	code       string // the error, if any
	ok         bool   // false where the property says nothing
}

// lineOf is a script of one line.
func lineOf(src string) string {
	sym.Assume(!strings.Contains(src, "\n") && !strings.HasSuffix(src, "\r"))
	return src
}

func skipWC(s string, p int) int {
	for p < len(s) && (isW(s[p]) || s[p] == ':') {
		p++
	}
	return p
}

func skipDigits(s string, p int) int {
	for p < len(s) && isDigitB(s[p]) {
		p++
	}
	return p
}

func skipAlpha(s string, p int) int {
	for p < len(s) && isAlphaB(s[p]) {
		p++
	}
	return p
}

// refModifier reads a modifier at p: its text, and the place behind it.
func refModifier(s string, p int) (string, int) {
	digits := s[p:skipDigits(s, p)]
	p += len(digits)
	if digits != "" {
		p = skipWC(s, p)
	}
	q := skipAlpha(s, p)
	w := s[p:q]
	name := ""
	for _, m := range modOrder {
		if len(w) >= modNames[m] && strings.HasPrefix(m, w) {
			name = m
			break
		}
	}
	if name == "" || digits != "" && name != "tab" && name != "verbose" {
		return "", 0
	}
	if name == "hide" {
		r := skipW(s, q)
		if r == len(s) || s[r] == '|' || s[r] == '"' {
			return "", 0
		}
	}
	t := "<" + name
	switch name {
	case "silent":
		if q < len(s) && s[q] == '!' {
			q++
			t += " bang=1"
		} else {
			t += " bang=0"
		}
	case "verbose", "tab":
		if digits == "" && name == "verbose" {
			digits = "1"
		}
		if digits != "" {
			n, err := strconv.Atoi(digits)
			if err != nil {
				return "", -1
			}
			t += " count=" + strconv.Itoa(n)
		}
	}
	return t + ">", q
}

// the order of the modifiers matters for abbreviations only: keepm, kee
var modOrder = []string{"aboveleft", "belowright", "browse", "botright", "confirm", "keepmarks", "keepalt", "keepjumps", "keeppatterns",
	"hide", "lockmarks", "leftabove", "noautocmd", "noswapfile", "rightbelow", "sandbox", "silent", "tab", "topleft", "unsilent", "vertical", "verbose"}

// refBefore reads what stands before the name of a command, by the rules of
// :help cmdline-ranges and :help :command-modifiers.
func refBefore(s string) before {
	p := skipWC(s, 0)
	b := before{line: p, ok: true}
	for {
		p = skipWC(s, p)
		t, q := refModifier(s, p)
		if q < 0 {
			return before{}
		}
		if q == 0 {
			break
		}
		b.mods += t
		p = q
	}
	tok := func(t string) { b.rng += "<" + t + ">" }
	for {
		for {
			p = skipW(s, p)
			if p == len(s) {
				break
			}
			switch c := s[p]; {
			case c == '.' || c == '$':
				tok(s[p : p+1])
				p++
			case c == '\'':
				if p+1 == len(s) || s[p+1] >= 0x80 {
					return before{}
				}
				tok(s[p : p+2])
				p += 2
			case c == '/' || c == '?':
				e := refPattern(s, p+1, c)
				if e == 0 {
					if trailingBackslash(s) {
						return before{} // E682
					}
					tok(s[p+1:])
					p = len(s)
				} else {
					tok(s[p+1 : e-1])
					p = e
				}
			case c == '\\':
				if p+1 == len(s) || s[p+1] != '/' && s[p+1] != '?' && s[p+1] != '&' {
					return before{code: "E10", ok: true}
				}
				tok(s[p : p+2])
				p += 2
			case isDigitB(c):
				q := skipDigits(s, p)
				tok(s[p:q])
				p = q
			}
			for {
				p = skipW(s, p)
				q := p
				if q < len(s) && (s[q] == '+' || s[q] == '-') {
					q++
				}
				q = skipDigits(s, q)
				if q == p {
					break
				}
				tok(s[p:q])
				p = q
			}
			if p == len(s) || s[p] != '/' && s[p] != '?' {
				break
			}
		}
		if p < len(s) && (s[p] == '%' || s[p] == '*') {
			if b.rng != "" && !strings.HasSuffix(b.rng, "<,>") && !strings.HasSuffix(b.rng, "<;>") {
				return before{} // an address and %
			}
			tok(s[p : p+1])
			p++
		}
		if p == len(s) || s[p] != ',' && s[p] != ';' {
			break
		}
		tok(s[p : p+1])
		p++
	}
	b.name = skipWC(s, p)
	return b
}

// exArgOf gives what a command node records of its line.
func exArgOf(s ast.Statement) *ast.ExArg {
	switch n := s.(type) {
	case *ast.Excmd:
		return &n.ExArg
	case *ast.Let:
		return &n.ExArg
	case *ast.EchoCmd:
		return &n.ExArg
	case *ast.ExCall:
		return &n.ExArg
	case *ast.If:
		return &n.ExArg
	case *ast.UnLet:
		return &n.ExArg
	case *ast.LockVar:
		return &n.ExArg
	case *ast.UnLockVar:
		return &n.ExArg
	case *ast.DelFunction:
		return &n.ExArg
	case *ast.Function:
		return &n.ExArg
	case *ast.Return:
		return &n.ExArg
	case *ast.Execute:
		return &n.ExArg
	case *ast.Echohl:
		return &n.ExArg
	case *ast.Throw:
		return &n.ExArg
	case *ast.Eval:
		return &n.ExArg
	case *ast.Try:
		return &n.ExArg
	case *ast.While:
		return &n.ExArg
	case *ast.For:
		return &n.ExArg
	}
	sym.Fail("not a command: " + dump(s))
	return nil
}

// checkBefore checks the script src, of one line: the modifiers, the range and
// the positions of a command the reference knows where to find.
func checkBefore(src string) {
	s := lineOf(src)
	b := refBefore(s)
	sym.Assume(b.ok)
	f, err := parse(src)
	q := strconv.Quote(src)
	if b.code != "" {
		sym.Reach("E10")
		eq("error", src, errCode(err), b.code)
		return
	}
	rest := s[b.name:]
	if rest == "" || rest[0] == '"' || rest[0] == '|' {
		if i := strings.IndexByte(rest, '|'); i == 0 {
			_, e2 := parse(rest[1:])
			sym.Assume(e2 == nil)
		}
		sym.Reach("no_command")
		if err != nil {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
		if b.mods == "" && b.rng == "" {
			return
		}
		e := exArgOf(f.Body[0])
		if e.Cmd != nil {
			sym.Fail("a command in " + q)
		}
		eq("modifiers", src, modText(e.Modifiers), b.mods)
		eq("range", src, rangeText(e.Range), b.rng)
		return
	}
	w := rest[:skipAlpha(rest, 0)]
	var spec *cmdSpec
	n := 0
	if w != "" {
		var sure bool
		spec, n, sure = refCommand(w, rest[len(w):], false)
		sym.Assume(sure)
	} else if strings.IndexByte("!#&<=>@~", rest[0]) >= 0 {
		sym.Assume(!strings.HasPrefix(rest, "&&") && !strings.HasPrefix(rest, "#!"))
		spec, n = findSpec(rest[:1]), 1
	} else if rest[0] == '*' || rest[0] == '{' || rest[0] == '}' {
		sym.Truncate()
	}
	if spec == nil {
		sym.Reach("E492")
		eq("error", src, errCode(err), "E492")
		eq("message", src, errMsg(err), "E492: Not an editor command: "+rest)
		return
	}
	sym.Assume(spec.kind == "common" || spec.kind == "let" || spec.kind == "echo" || spec.kind == "if")
	arg := b.name + n
	if arg < len(s) && s[arg] == '!' {
		sym.Truncate() // see the other harnesses
	}
	if spec.name != "!" {
		arg = skipW(s, arg)
	}
	if err != nil {
		// what follows the name may be wrong; not so without an argument
		if arg == len(s) && spec.kind == "common" {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
		sym.Truncate()
	}
	sym.Reach("a_command")
	if len(f.Body) == 0 {
		sym.Fail("no command in " + q)
	}
	e := exArgOf(f.Body[0])
	eq("modifiers", src, modText(e.Modifiers), b.mods)
	eq("range", src, rangeText(e.Range), b.rng)
	if e.Cmd == nil {
		sym.Fail("no command in " + q)
	}
	eq("command", src, e.Cmd.Name, spec.name)
	eq("place of the line", src, posText(e.Linepos.Offset, e.Linepos.Line, e.Linepos.Column), posText(b.line, 1, b.line+1))
	eq("place of the name", src, posText(e.Cmdpos.Offset, e.Cmdpos.Line, e.Cmdpos.Column), posText(b.name, 1, b.name+1))
	eq("place of the argument", src, posText(e.Argpos.Offset, e.Argpos.Line, e.Argpos.Column), posText(arg, 1, arg+1))
	if e.Forceit {
		sym.Fail("a bang in " + q)
	}
}

// Four characters out of those of ranges before the command d.
//
//vp:quick=90 thorough=100 reach=E10,a_command
func C15_range() {
	checkBefore(sym.BytesIn("range", 4, "\".$'/?\\&%,;+-0 1[]^:a") + "d")
}

// Five characters out of those of ranges before the command d.
//
//vp:tier=thorough thorough=600 reach=E10,a_command
func C15_range5() {
	checkBefore(sym.BytesIn("range", 5, ".$'/?\\&%,;+-0 1[]:a") + "d")
}

// One or two addresses of every kind with offsets, separators and blanks, and
// commands that are analysed or not.
//
//vp:quick=90 thorough=100 reach=a_command
func C15_addresses() {
	addr := func() string {
		return sym.Pick("address", "", ".", "$", "'a", "'<", "/a,b;c/", "?a\\?b?", "/a//b/", "\\/", "\\&", "42", "?[]?]?") +
			sym.Pick("offset", "", "+", "-2", "+3-4", " + 5", "-- 6 7")
	}
	if forkOn("two", 2) == 1 {
		checkBefore(addr() + sym.Pick("separator", ",", ";", " , ", ";;") + addr() + "d")
		return
	}
	s := sym.Pick("lead", "", ":", " :: ", "silent ") + addr()
	checkBefore(s + sym.Pick("command", "d", " d", " : d", "echo 1", "let x = 1", "s/a/b/", "!ls", "nosuch", "", "\"c", "|d"))
}

// A mark with any name.
//
//vp:quick=60 thorough=100 reach=a_command
func C15_mark() {
	s := sym.Pick("lead", "", "1,", "'a,", "silent ", "/x/;") + "'" + sym.Bytes("name", 2) + sym.Pick("more", "", "+1", ",'\"", " ")
	checkBefore(s + sym.Pick("command", "d", "echo 1", ""))
}

func pickModifier(all bool) string {
	m := sym.Pick("modifier", modOrder...)
	n := len(m)
	if all {
		n -= forkOn("shorter by", n)
	}
	return m[:n]
}

// A modifier at every length, with counts, bangs and blanks.
//
//vp:quick=90 thorough=100 reach=a_command,no_command
func C15_modifier() {
	s := sym.Pick("lead", "", ":", "3", "12 ", "3:", "99999999999999999999", "1,2") + pickModifier(true) + sym.Pick("after", "", " ", "!", " !", "\t:", "!:", "! :", "x", "1", "|", "\"", "%")
	checkBefore(s + sym.Pick("command", "d", "1,2d", "echo 1", ":%s/a/b/", "", "\"c", "let x = 1", "nosuch"))
}

// Counts of up to 3 of the digits 0, 5 and 9 before :verbose and :tab.
//
//vp:quick=60 thorough=100 reach=a_command
func C15_counts() {
	s := ""
	for i := sym.Choose("n", 4); i > 0; i-- {
		s += sym.Pick("d", "0", "5", "9")
	}
	checkBefore(sym.Pick("lead", "", "silent ", "2tab ") + s + sym.Pick("sp", "", " ", ":") + sym.Pick("m", "verb", "verbose", "tab") + sym.Pick("after", " ", "  ", " :", " 0verb ") + sym.Pick("command", "d", "0d", ""))
}

// Two modifiers, one of them at every length.
//
//vp:quick=90 thorough=100 reach=a_command
func C15_modifiers() {
	s := pickModifier(false) + sym.Pick("between", " ", "! ", " :", " 2")
	checkBefore(s + pickModifier(true) + sym.Pick("after", " ", "!", " ::") + "d")
}

// Three modifiers.
//
//vp:tier=thorough thorough=600 reach=a_command
func C15_modifiers3() {
	s := pickModifier(false) + sym.Pick("between", " ", "! ", " :", " 2")
	s += pickModifier(false) + sym.Pick("between", " ", "! ", " : 2")
	checkBefore(s + pickModifier(false) + sym.Pick("after", " ", "!", " ::") + "d")
}

// A name that differs from that of a modifier by one letter.
//
//vp:quick=90 thorough=100 reach=a_command,E492
func C15_notamodifier() {
	m := pickModifier(false)
	i := forkOn("place", len(m))
	checkBefore(m[:i] + sym.BytesIn("letter", 1, "aeiklmnoprstx") + m[i+forkOn("for one", 2):] + " d")
}

// Every command with a bang.
//
//vp:quick=90 thorough=100 reach=E477,bang
func C15_bang() {
	k := 0
	for n := forkOn("group", (len(cmdTable)+31)/32); n > 0; n-- {
		k += 32
	}
	m := len(cmdTable) - k
	if m > 32 {
		m = 32
	}
	c := &cmdTable[k+forkOn("command", m)]
	_, mod := modNames[c.name]
	if mod && c.name != "hide" || c.name == "*" || c.name == "Print" || c.name == "def" || c.name == "filter" || c.name == "!" {
		sym.Truncate()
	}
	pre, post := around(c.kind)
	if strings.HasPrefix(post, "!") {
		post = post[1:]
	}
	bang := sym.Pick("bang", "!", " !", "!!")
	if c.kind == "append" || c.kind == "insert" {
		bang = "!"
	}
	src := pre + "1" + c.name + bang + post
	q := strconv.Quote(src)
	f, err := parse(src)
	switch {
	case c.name == "substitute" || c.name == "smagic" || c.name == "snomagic":
		// the ! is the delimiter
		if err != nil {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
		if exArgOf(f.Body[0]).Forceit {
			sym.Fail("a bang in " + q)
		}
	case bang[0] == '!' && !hasAny(c, "BANG", "USERCMD"):
		sym.Reach("E477")
		eq("error", src, errCode(err), "E477")
		eq("place of the error", src, strings.SplitN(errText(err), " ", 3)[1], posText(len(pre)+1, 1+strings.Count(pre, "\n"), len(pre)+2-(1+strings.LastIndex(pre, "\n"))))
	case c.name == "read":
		sym.Reach("read")
		e := exArgOf(mustParse(src).Body[0])
		if e.Forceit || !e.Usefilter {
			sym.Fail("not a filter: " + q)
		}
	case bang[0] == '!':
		sym.Reach("bang")
		if errCode(err) == "E477" {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
		if err == nil && pre == "" && (c.kind == "common" || bang == "!") {
			if !exArgOf(f.Body[0]).Forceit {
				sym.Fail("no bang in " + q)
			}
		} else if c.kind == "common" {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
	case c.kind == "common":
		e := exArgOf(mustParse(src).Body[0])
		if e.Forceit {
			sym.Fail("a bang in " + q)
		}
		if e.Usefilter != (c.name == "write") {
			sym.Fail("a filter or not: " + q)
		}
	}
}

// optText is what the ++opt and +cmd of a line make of it.
func optText(e *ast.ExArg) string {
	return "bin " + strconv.Itoa(e.ForceBin) + " edit " + strconv.Itoa(e.ReadEdit) + " ff <" + e.ForceFf + "> enc <" + e.ForceEnc + "> bad <" + e.BadChar +
		"> cmd <" + e.DoEcmdCmd + "> append " + strconv.Itoa(e.Append) + " filter " + b01(e.Usefilter) + " amount " + strconv.Itoa(e.Amount)
}

type optRef struct {
	bin, edit, app, amount int
	ff, enc, bad, cmd      string
	filter                 bool
	code                   string
	ok                     bool
}

func (o *optRef) text() string {
	return optText(&ast.ExArg{ForceBin: o.bin, ReadEdit: o.edit, ForceFf: o.ff, ForceEnc: o.enc, BadChar: o.bad, DoEcmdCmd: o.cmd, Append: o.app, Usefilter: o.filter, Amount: o.amount})
}

// refOpts reads ++opt, >>, ! and +cmd by the rules of :help ++opt, :help
// :write_a, :help :w_c and :help +cmd; s begins behind the name of the command.
func refOpts(c *cmdSpec, s string) optRef {
	o := optRef{ok: true}
	p := 0
	bang := strings.HasPrefix(s, "!")
	if bang {
		p = 1
	}
	p = skipW(s, p)
	for c.has("ARGOPT") && strings.HasPrefix(s[p:], "++") {
		p += 2
		q := p
		for q < len(s) && !isW(s[q]) {
			q++
		}
		w := s[p:q]
		val := func(names ...string) (string, bool) {
			for _, n := range names {
				if strings.HasPrefix(w, n+"=") {
					return w[len(n)+1:], true
				}
			}
			return "", false
		}
		if v, ok := val("ff", "fileformat"); ok {
			if v != "dos" && v != "unix" && v != "mac" {
				o.code = "E474"
			}
			o.ff = v
		} else if v, ok := val("enc", "encoding"); ok {
			if v == "" {
				o.code = "E474"
			}
			if strings.Contains(v, "\\") {
				o.ok = false // escaped blanks
			}
			o.enc = v
		} else if v, ok := val("bad"); ok {
			if v != "keep" && v != "drop" && len(v) != 1 {
				if v != "" && v[0] >= 0x80 {
					o.ok = false
				}
				o.code = "E474"
			}
			o.bad = v
		} else if w == "bin" {
			o.bin = 1
		} else if w == "nobin" {
			o.bin = 2
		} else if w == "edit" {
			o.edit = 1
		} else {
			// Vim takes what follows the name for the argument
			for _, n := range []string{"bin", "nobin", "edit"} {
				if strings.HasPrefix(w, n) {
					o.ok = false
				}
			}
			o.code = "E474"
		}
		if o.code != "" {
			return o
		}
		p = skipW(s, q)
	}
	switch c.name {
	case "write", "update":
		if strings.HasPrefix(s[p:], ">>") {
			o.app = 1
			p = skipW(s, p+2)
		} else if strings.HasPrefix(s[p:], ">") {
			o.code = "E494"
			return o
		} else if strings.HasPrefix(s[p:], "!") && c.name == "write" {
			o.filter = true
		}
	case "read":
		o.filter = bang || strings.HasPrefix(s[p:], "!")
	case "<", ">":
		o.amount = 1
		for p < len(s) && s[p] == c.name[0] {
			p++
			o.amount++
		}
	}
	if c.has("EDITCMD") && !o.filter && strings.HasPrefix(s[p:], "+") {
		p++
		if p == len(s) || isW(s[p]) {
			o.cmd = "$"
		}
		for ; p < len(s) && !isW(s[p]); p++ {
			if s[p] == '\\' && p+1 < len(s) {
				p++
			}
			o.cmd += s[p : p+1]
		}
	}
	return o
}

func checkOpts(src, name string) {
	c := findSpec(name)
	s := lineOf(src)
	o := refOpts(c, s[len(name):])
	sym.Assume(o.ok)
	f, err := parse(src)
	if o.code != "" {
		sym.Reach(o.code)
		eq("error", src, errCode(err), o.code)
		return
	}
	if err != nil {
		if i := strings.IndexByte(src, '|'); i >= 0 {
			_, e2 := parse(src[i+1:]) // what follows a bar may be wrong
			sym.Assume(e2 == nil)
		}
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	if len(f.Body) == 0 {
		sym.Fail("no command in " + strconv.Quote(src))
	}
	e := exArgOf(f.Body[0])
	sym.Reach("opts")
	eq("options", src, optText(e), o.text())
}

// ++opt of commands that take it and of one that does not.
//
//vp:quick=90 thorough=100 reach=opts,E474
func C15_argopt() {
	name := sym.Pick("command", "edit", "read", "write", "split", "wqall", "update")
	src := name + sym.Pick("bang", "", "!", " ", "\t ")
	opts := []string{"++bin", "++nobin", "++edit", "++ff=dos", "++ff=unix", "++fileformat=mac", "++fileformat=unix", "++ff=other", "++ff=", "++ff=dosx", "++ff", "++enc=utf-8", "++encoding=LATIN1x", "++enc=", "++enc",
		"++bad=keep", "++bad=drop", "++bad=X", "++bad=?", "++bad=", "++bad=kee", "++bad=keepx", "++", "++x", "++b", "+++"}
	n := 1 + forkOn("options", 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			src += sym.Pick("between", " ", "  ")
		}
		src += sym.Pick("option", opts...)
	}
	checkOpts(src+sym.Pick("rest", "", " f", " +5 f"), name)
}

// Symbolic values of ++opt.
//
//vp:quick=90 thorough=100 reach=opts,E474
func C15_argoptvalue() {
	checkOpts("edit "+sym.Pick("option", "++enc=", "++encoding=", "++bad=", "++ff=", "++")+sym.Bytes("value", 2)+sym.Pick("rest", "", " f"), "edit")
}

// +cmd with symbolic characters.
//
//vp:quick=90 thorough=100 reach=opts
func C15_argcmd() {
	name := sym.Pick("command", "edit", "split", "buffer", "read")
	checkOpts(name+" "+sym.Pick("bin", "", "++bin ")+"+"+sym.BytesIn("cmd", 3, "\\/| \ta\"+5\xc3")+sym.Pick("rest", "", " f"), name)
}

// The special starts of arguments: of :write, :update, :read, :<, :>.
//
//vp:quick=90 thorough=100 reach=opts,E494
func C15_starts() {
	name := sym.Pick("command", "write", "update", "read", "<", ">", "wq", "edit")
	s := name + sym.BytesIn("start", 4, " !><+x")
	sym.Assume(s[len(name)] != 'x')
	if s[len(name)] == '!' && !hasAny(findSpec(name), "BANG") {
		sym.Truncate()
	}
	checkOpts(s, name)
}

// What follows a complete command that is analysed: a comment or a bar
// separates, anything else is E488. A missing argument of :call is E471.
//
//vp:quick=90 thorough=100 reach=E488,E471,separated
func C15_trailing() {
	forms := [][3]string{{"if 0\n", "else", "\nendif"}, {"if 0\n", "endif", ""}, {"while 0\n", "endwhile", ""}, {"for a in b\n", "endfor", ""}, {"try\n", "endtry", ""},
		{"try\n", "finally", "\nendtry"}, {"", "try", "\nendtry"}, {"while 0\n", "break", "\nendwhile"}, {"while 0\n", "continue", "\nendwhile"}, {"", "call f()", ""}, {"", "eval 1", ""},
		{"", "throw 1", ""}, {"function F()\n", "return 1", "\nendfunction"}, {"", "if 1", "\nendif"}, {"if 1\n", "elseif 1", "\nendif"}, {"", "while 1", "\nendwhile"}, {"", "for a in b", "\nendfor"}, {"", "let a = 1", ""}, {"", "let a .= 'x'", ""},
		{"", "const a = 1", ""}, {"", "delfunction f", ""}, {"try\n", "catch /x/", "\nendtry"}, {"", "call", ""}}
	var names []string
	for i := range forms {
		names = append(names, forms[i][0]+"~"+forms[i][1]+"~"+forms[i][2])
	}
	p := strings.Split(sym.Concrete(sym.Pick("command", names...)), "~")
	t := sym.Pick("blank", "", " ", "\t ") + sym.BytesIn("next", 1, "|\"ax09_)]},;=@")
	src := p[0] + p[1] + t + p[2]
	q := strconv.Quote(src)
	c := t[len(t)-1]
	f, err := parse(src)
	switch {
	case p[1] == "call" && (c == '|' || c == '"'):
		sym.Reach("E471")
		eq("error", src, errCode(err), "E471")
	case p[1] == "call":
		if err == nil {
			sym.Fail("accepted: " + q)
		}
	case c == '|' || c == '"':
		sym.Reach("separated")
		if err != nil {
			sym.Fail("rejected: " + q + ": " + err.Error())
		}
		g := mustParse(p[0] + p[1] + p[2])
		if c == '|' {
			eq("tree", src, dump(f), dump(g))
		}
	case len(t) == 1 && (isAlphaB(c) || isDigitB(c) || c == '_'):
		// a part of the word, or another
		sym.Truncate()
	default:
		sym.Reach("E488")
		eq("error", src, errMsg(err), "E488: Trailing characters: "+string([]byte{c}))
	}
}

// exArgs gives what the commands of a body record of their lines, in the order
// of the source.
func exArgs(l []ast.Statement) []*ast.ExArg {
	var r []*ast.ExArg
	for _, s := range l {
		switch n := s.(type) {
		case *ast.Comment:
			continue
		case *ast.If:
			r = append(append(r, &n.ExArg), exArgs(n.Body)...)
			for _, e := range n.ElseIf {
				r = append(append(r, &e.ExArg), exArgs(e.Body)...)
			}
			if n.Else != nil {
				r = append(append(r, &n.Else.ExArg), exArgs(n.Else.Body)...)
			}
			r = append(r, &n.EndIf.ExArg)
		case *ast.While:
			r = append(append(append(r, &n.ExArg), exArgs(n.Body)...), &n.EndWhile.ExArg)
		case *ast.For:
			r = append(append(append(r, &n.ExArg), exArgs(n.Body)...), &n.EndFor.ExArg)
		case *ast.Try:
			r = append(append(r, &n.ExArg), exArgs(n.Body)...)
			for _, e := range n.Catch {
				r = append(append(r, &e.ExArg), exArgs(e.Body)...)
			}
			if n.Finally != nil {
				r = append(append(r, &n.Finally.ExArg), exArgs(n.Finally.Body)...)
			}
			r = append(r, &n.EndTry.ExArg)
		case *ast.Function:
			r = append(append(append(r, &n.ExArg), exArgs(n.Body)...), &n.EndFunction.ExArg)
		case *ast.Break:
			r = append(r, &n.ExArg)
		case *ast.Continue:
			r = append(r, &n.ExArg)
		default:
			r = append(r, exArgOf(s))
		}
	}
	return r
}

// oneEach are scripts with one command in each line, blocks with all clauses
// among them.
var oneEach = []string{"if 1\necho 0\nelseif 2\nelseif 3\nlet a = 1\nelse\nunlet! a\nendif", "while 1\nbreak\ncontinue\nendwhile\nlockvar! a", "for [a, b] in d\nif 1\nendif\nendfor\nthrow 1",
	"try\ncatch\ncall f()\ncatch /x/\nset x\nfinally\nfoldclose!\nendtry", "function! F(a)\nreturn 1\nendfunction\ndelfunction! F", "try\nwhile 1\nendwhile\nfinally\neval x\nendtry",
	"function g.h()\ntry\nreturn\nendtry\nendfunction", "const a = 1\nwrite!\necho 2\nechon 3\nexecute 4\nFoo! a\nunlockvar a\nechohl None\ncall f()"}

// In front of each command of a script, also of those that go on with a block
// or end it, stand modifiers and a range: the node of each records its own, and
// its own bang and places, and the tree is that of the script without them.
//
//vp:quick=60 thorough=100 reach=tree
func C15_each() {
	script := oneEach[forkOn("script", len(oneEach))]
	lines := strings.Split(script, "\n")
	leads := []string{"", "silent! ", "3verbose ", "sandbox keepalt ", " :", "1,3", "%", "silent .;$", "\t"}
	k := forkOn("line", len(lines))
	own := leads[forkOn("lead", len(leads))]
	others := sym.Pick("others", "", "2tab ", "unsilent ", "5")
	src := ""
	for i, s := range lines {
		if i > 0 {
			src += "\n"
		}
		if i == k {
			src += own + s
		} else {
			src += others + s
		}
	}
	f := mustParse(src)
	sym.Reach("tree")
	l := exArgs(f.Body)
	if len(l) != len(lines) {
		sym.Fail(strconv.Itoa(len(l)) + " commands in " + strconv.Quote(src))
	}
	off := 0
	for i, s := range strings.Split(src, "\n") {
		e := l[i]
		b := refBefore(s)
		what := " of line " + strconv.Itoa(i+1)
		if e.Cmd == nil {
			sym.Fail("no command" + what + " of " + strconv.Quote(src))
		}
		eq("modifiers"+what, src, modText(e.Modifiers), b.mods)
		eq("range"+what, src, rangeText(e.Range), b.rng)
		w := lines[i][:skipAlpha(lines[i], 0)]
		eq("command"+what, src, e.Cmd.Name, w)
		p := b.name + len(w)
		bang := s[p:] != "" && s[p] == '!'
		if e.Forceit != bang {
			sym.Fail("a bang or none" + what + " of " + strconv.Quote(src))
		}
		if bang {
			p++
		}
		p = skipW(s, p)
		eq("place of the line"+what, src, posText(e.Linepos.Offset, e.Linepos.Line, e.Linepos.Column), posText(off+b.line, 1+i, b.line+1))
		eq("place of the name"+what, src, posText(e.Cmdpos.Offset, e.Cmdpos.Line, e.Cmdpos.Column), posText(off+b.name, 1+i, b.name+1))
		eq("place of the argument"+what, src, posText(e.Argpos.Offset, e.Argpos.Line, e.Argpos.Column), posText(off+p, 1+i, p+1))
		off += len(s) + 1
	}
	if !strings.Contains(bodyText(f.Body), "excmd") {
		eq("tree", src, bodyText(f.Body), bodyText(mustParse(script).Body))
	}
}

// Modifiers, colons and blanks in front of a command of each kind: the node is
// that of the command alone, or the text has them.
//
//vp:quick=60 thorough=100 reach=tree,error
func C15_lead() {
	i := forkOn("group", (len(allStmts)+31)/32)
	n := len(allStmts) - 32*i
	if n > 32 {
		n = 32
	}
	s := strings.Replace(allStmts[32*i+forkOn("stmt", n)], "@", "x", -1)
	sym.Assume(s[0] != '"')
	lead := sym.Pick("lead", "silent ", "sil! ", ":", " : ", "3verbose ", "keepalt noautocmd ", "vert bel ", "tab:", "hide sil ")
	f, err := parse(s)
	g, err2 := parse(lead + s)
	if err != nil {
		sym.Reach("error")
		eq("error", lead+s, errMsg(err2), errMsg(err))
		return
	}
	sym.Reach("tree")
	if err2 != nil {
		sym.Fail("rejected: " + strconv.Quote(lead+s) + ": " + err2.Error())
	}
	want := bodyText(f.Body)
	if strings.HasPrefix(want, "excmd<") {
		want = "excmd<" + stripFirst(lead) + want[len("excmd<"):]
	}
	eq("tree", lead+s, bodyText(g.Body), want)
}
