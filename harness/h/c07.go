package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

func (c *cmdSpec) has(flag string) bool {
	for _, f := range strings.Split(c.flags, "|") {
		if f == flag {
			return true
		}
	}
	return false
}

func isAlphaB(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func isDigitB(b byte) bool { return b >= '0' && b <= '9' }
func isUpperB(b byte) bool { return b >= 'A' && b <= 'Z' }
func isLetters(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlphaB(s[i]) {
			return false
		}
	}
	return true
}

var neovimMore = []cmdSpec{{"rshada", 3, "common", "BANG|FILE1|TRLBAR"}, {"wshada", 3, "common", "BANG|FILE1|TRLBAR"}}
var neovimLess = map[string]bool{"Print": true, "fixdel": true, "helpfind": true, "open": true, "shell": true, "tearoff": true, "gvim": true}

// modifiers: what they are is the matter of C15.
var modNames = map[string]int{"aboveleft": 3, "belowright": 3, "browse": 3, "botright": 2, "confirm": 4, "keepmarks": 3, "keepalt": 5, "keepjumps": 5, "keeppatterns": 5,
	"hide": 3, "lockmarks": 3, "leftabove": 5, "noautocmd": 3, "noswapfile": 3, "rightbelow": 6, "sandbox": 3, "silent": 3, "tab": 3, "topleft": 2, "unsilent": 3,
	"vertical": 4, "verbose": 4}

// refCommand resolves what stands where a command name is expected: w is the
// word of letters (and digits after py), rest what follows it. It gives the
// command or nil, the length of the name, and false where the documents of
// Vim do not settle the question.
func refCommand(w, rest string, neovim bool) (*cmdSpec, int, bool) {
	if w == "" {
		return nil, 0, true
	}
	if w[0] == 'k' {
		return findSpec("k"), 1, true
	}
	all := w + rest
	if w[0] == 's' && len(all) == 1 {
		return findSpec("substitute"), 1, true
	}
	at := func(i int) byte {
		if i < len(all) && all[i] != '\n' {
			return all[i]
		}
		return 0
	}
	if w[0] == 's' {
		c := at(1)
		if c == 'g' || c == 'I' || c == 'r' && at(2) != 'e' || c == 'i' && at(2) != 'm' && at(2) != 'l' && at(2) != 'g' ||
			c == 'c' && (at(2) == 0 || at(2) != 's' && at(2) != 'r' && (at(3) == 0 || at(3) != 'i' && at(4) != 'p')) {
			return findSpec("substitute"), 1, true
		}
	}
	if n := len(w); w[0] == 'd' && n > 1 && (w[n-1] == 'l' || w[n-1] == 'p') && strings.HasPrefix("delete", w[:n-1]) && w != "del" {
		return findSpec("delete"), n - 1, true
	}
	var r *cmdSpec
	for i := range cmdTable {
		c := &cmdTable[i]
		if len(w) >= c.min && strings.HasPrefix(c.name, w) {
			r = c
			break
		}
	}
	if neovim {
		for i := range neovimMore {
			c := &neovimMore[i]
			if len(w) >= c.min && strings.HasPrefix(c.name, w) {
				r = c
			}
		}
		if r != nil && neovimLess[r.name] {
			r = nil
		}
	}
	if r != nil && r.name == "Print" {
		return nil, 0, false // a user command of that name overrules it
	}
	if r == nil && isUpperB(w[0]) {
		return &cmdSpec{w, 0, "usercmd", "USERCMD"}, len(w), true
	}
	return r, len(w), true
}

func findSpec(name string) *cmdSpec {
	for i := range cmdTable {
		if cmdTable[i].name == name {
			return &cmdTable[i]
		}
	}
	panic("no " + name)
}

// around gives what a command of the kind needs before it and after its name
// to be a good command.
func around(kind string) (string, string) {
	switch kind {
	case "append", "insert":
		return "", "\nx\n."
	case "lua", "mzscheme", "perl", "python", "python3", "ruby", "tcl":
		return "", " x"
	case "let", "const":
		return "", " a=1"
	case "lockvar", "unlockvar", "unlet", "delfunction":
		return "", " a"
	case "call":
		return "", " f()"
	case "echo", "echomsg", "echon", "echoerr", "execute", "throw", "eval":
		return "", " 1"
	case "return":
		return "function F()\n", "\nendfunction"
	case "echohl":
		return "", " None"
	case "if":
		return "", " 1\nendif"
	case "elseif":
		return "if 0\n", " 1\nendif"
	case "else":
		return "if 0\n", "\nendif"
	case "endif":
		return "if 0\n", ""
	case "while":
		return "", " 1\nendwhile"
	case "endwhile", "break", "continue":
		if kind == "endwhile" {
			return "while 1\n", ""
		}
		return "while 1\n", "\nendwhile"
	case "for":
		return "", " a in b\nendfor"
	case "endfor":
		return "for a in b\n", ""
	case "try":
		return "", "\nendtry"
	case "catch", "finally":
		return "try\n", "\nendtry"
	case "endtry":
		return "try\n", ""
	case "function":
		return "", " F()\nendfunction"
	case "endfunction":
		return "function F()\n", ""
	case "wincmd":
		return "", " w"
	case "syntax":
		return "", " on"
	}
	return "", ""
}

// checkName checks what the name w at the start of a line is taken for; what
// follows it, tail, is part of the name of a user command only.
func checkName(w, tail string, neovim bool) {
	for m, n := range modNames {
		if len(w) >= n && strings.HasPrefix(m, w) {
			sym.Truncate()
		}
	}
	c, _, sure := refCommand(w, "", neovim)
	if !sure {
		sym.Reach("unsure")
		return
	}
	if tail != "" {
		if c != nil && c.kind != "usercmd" {
			sym.Truncate()
		}
		w += tail
	}
	cname := w
	pre, post := "", ""
	if c != nil {
		pre, post = around(c.kind)
		if c.kind != "usercmd" {
			cname = c.name
		}
	}
	src := pre + w + post
	f, err := vimlparser.ParseFile(strings.NewReader(src), "", &vimlparser.ParseOption{Neovim: neovim})
	q := strconv.Quote(src)
	if neovim {
		q += " in Neovim"
	}
	if c == nil {
		if err == nil {
			sym.Fail("not a command, but accepted: " + q)
		}
		e := err.(*vimlparser.ErrVimlParser)
		if e.Msg != "E492: Not an editor command: "+w || e.Offset != 0 || e.Line != 1 || e.Column != 1 {
			sym.Fail("not a command, but the error for " + q + " is: " + err.Error())
		}
		sym.Reach("unknown")
		return
	}
	if err != nil {
		sym.Fail(cname + " is rejected: " + q + ": " + err.Error())
	}
	d := dumpEa(f)
	if !strings.Contains(d, " "+cname+"/") {
		sym.Fail(q + " is not " + cname + " but " + d)
	}
	if c.kind == "usercmd" {
		sym.Reach("user")
		eq("tree", q, d[:11], "file{excmd ")
		if !strings.Contains(d, "<"+w+">") || !strings.Contains(d, "/USERCMD/") {
			sym.Fail(q + " is not a user command but " + d)
		}
	} else {
		sym.Reach("builtin")
	}
}

// Every abbreviation of every command, alone and followed by any letter.
//
//vp:quick=60 thorough=300 reach=builtin,unknown,user
func C07_abbreviations() {
	i := 30*forkOn("c", len(cmdTable)/30+1) + forkOn("d", 30)
	sym.Assume(i < len(cmdTable))
	c := &cmdTable[i]
	if !isLetters(c.name) {
		sym.Truncate()
	}
	w := c.name[:1+sym.Choose("k", len(c.name))]
	tail := ""
	if len(w) > 2 && sym.Choose("more", 2) == 1 {
		b := sym.Byte("b")
		sym.Assume(isAlphaB(b))
		w += string([]byte{b})
		if isUpperB(w[0]) && sym.Choose("even", 2) == 1 {
			tail = "1x"
		}
	}
	checkName(w, tail, sym.Choose("neovim", 2) == 1)
}

// Every word of 3 letters.
//
//vp:quick=60 thorough=300 reach=builtin,unknown,user
func C07_letters() {
	w := sym.Bytes("w", 1+sym.Choose("n", 3))
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.In(w[i], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
	}
	checkName(w, "", sym.Choose("neovim", 2) == 1)
}

// :s with flags against commands that start with s, :d with flags, :k.
//
//vp:quick=60 thorough=300 reach=builtin,unknown
func C07_flags() {
	s := sym.Pick("c", "s", "d", "de", "del", "dele", "delet", "delete", "k", "sc", "si", "sr") + sym.BytesIn("f", 4, "crisglIempn 1/&\n")
	i := 0
	for i < len(s) && isAlphaB(s[i]) {
		i++
	}
	w := s[:i]
	for m, n := range modNames {
		if len(w) >= n && strings.HasPrefix(m, w) {
			sym.Truncate()
		}
	}
	nl := strings.IndexByte(s, '\n')
	sym.Assume(nl < 0 || nl == len(s)-1)
	c, n, sure := refCommand(w, s[i:], false)
	if !sure || c != nil && c.kind != "common" {
		sym.Truncate()
	}
	f, err := parse(s)
	q := strconv.Quote(s)
	if c == nil {
		sym.Reach("unknown")
		if errCode(err) != "E492" {
			sym.Fail("not a command, but accepted: " + q)
		}
		return
	}
	sym.Reach("builtin")
	if err != nil {
		sym.Fail(c.name + " is rejected: " + q + ": " + err.Error())
	}
	x := f.Body[0].(*ast.Excmd)
	eq("command", s, x.ExArg.Cmd.Name, c.name)
	for n < len(s) && isW(s[n]) {
		n++
	}
	if x.ExArg.Argpos.Offset != n {
		sym.Fail("the name of the command in " + q + " ends at " + strconv.Itoa(x.ExArg.Argpos.Offset))
	}
}

// Words that start with py, with digits.
//
//vp:quick=60 thorough=300 reach=builtin,unknown
func C07_python() {
	if forkOn("vim9", 2) == 1 {
		checkName("vi"+sym.Pick("v", "m", "m9", "m9s", "m9script", "m9scripts", "m9x", "m9script9"), "", false)
		return
	}
	checkName("py"+sym.Pick("t", "", "t", "th", "tho", "thon", "x", "f", "d")+sym.Pick("n", "", sym.BytesIn("a", 1, "23xfdt"), sym.BytesIn("b", 2, "3xfdoi1")), "", false)
}

// what a command takes, of what its Cmd says.
var takes = []string{"BANG", "RANGE", "TRLBAR", "NOTRLCOM", "EXTRA", "NEEDARG", "FILES", "FILE1", "WORD1", "XFILE", "EDITCMD", "ARGOPT", "USECTRLV"}

// The Cmd of each command has its full name, its minimum length and what it
// takes.
//
//vp:quick=60 thorough=300 reach=builtin
func C07_record() {
	i := 30*forkOn("c", len(cmdTable)/30+1) + forkOn("d", 30)
	sym.Assume(i < len(cmdTable))
	c := &cmdTable[i]
	_, mod := modNames[c.name]
	sym.Assume(!mod && isLetters(c.name) && c.name != "Print" && c.name[0] != 'k')
	pre, post := around(c.kind)
	n, _, _ := refCommand(c.name, post, false)
	sym.Assume(n == c)
	src := pre + c.name + post
	f := mustParse(src)
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(ast.ExCommand)
		if !ok || n.Pos().Offset != len(pre) {
			return true
		}
		found = true
		cmd := s.Cmd()
		eq("command", src, cmd.Name+" "+strconv.Itoa(cmd.Minlen), c.name+" "+strconv.Itoa(c.min))
		flags := "|" + cmd.Flags + "|"
		for _, t := range takes {
			if strings.Contains(flags, "|"+t+"|") != c.has(t) {
				sym.Fail("whether " + c.name + " takes " + t + ": " + cmd.Flags)
			}
		}
		return true
	})
	if !found {
		sym.Fail("no such command in " + strconv.Quote(src))
	}
	sym.Reach("builtin")
}
