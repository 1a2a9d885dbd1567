package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// A reference machine for blocks: it reads the commands one after the other
// and writes the text that dumpPos gives for the tree.

type block struct {
	kind string // if while for try function, or "" for the file
	sub  string // the last clause: "", elseif, else, catch, finally
	head string // text of the block so far, up to the body that is open
	n    int    // commands in the open body
}

type machine struct {
	st   []block
	fail string // why the sequence is wrong
	code []string
}

func (m *machine) top() *block { return &m.st[len(m.st)-1] }

func (m *machine) add(s string) {
	t := m.top()
	if t.n > 0 {
		t.head += "; "
	}
	t.head += s
	t.n++
}

func (m *machine) open(kind, head string) {
	m.st = append(m.st, block{kind: kind, head: head + "{"})
}

func (m *machine) bad(why string, code ...string) {
	m.fail = why
	m.code = code
	// a block that is still open may be reported instead
	switch m.top().kind {
	case "if":
		m.code = append(m.code, "E171")
	case "while", "for":
		m.code = append(m.code, "E170")
	case "try":
		m.code = append(m.code, "E600")
	case "function":
		m.code = append(m.code, "E126")
	}
}

// clause starts another body of the innermost block, which must be a kind.
func (m *machine) clause(kind, sub, head string) {
	t := m.top()
	t.sub, t.head, t.n = sub, t.head+"}"+head+"{", 0
}

func (m *machine) close(end string) {
	t := *m.top()
	m.st = m.st[:len(m.st)-1]
	s := t.head + "}"
	if t.kind == "if" || t.kind == "try" {
		// the clauses come after the block's own body
	}
	m.add(s + end)
}

func (m *machine) inLoop() bool {
	for _, b := range m.st {
		if b.kind == "while" || b.kind == "for" {
			return true
		}
	}
	return false
}

// step takes the command c at the position text p, with the argument starting
// a bytes after it on the same line.
// all tells that catch has no pattern.
func (m *machine) step(c, p string, all bool, off, ln, col int) {
	arg := func(a int) string { return posText(off+a, ln, col+a) }
	t := m.top()
	switch c {
	case "echo":
		m.add("echo" + p + " [num" + arg(5) + "<1>]")
	case "break", "continue":
		if !m.inLoop() {
			if c == "break" {
				m.bad("break outside a loop", "E587")
			} else {
				m.bad("continue outside a loop", "E586")
			}
			return
		}
		m.add(c + p)
	case "if":
		m.open("if", "if"+p+" num"+arg(3)+"<1>")
	case "while":
		m.open("while", "while"+p+" num"+arg(6)+"<1>")
	case "for":
		m.open("for", "for"+p+" id"+arg(4)+"<a>[]nil id"+arg(9)+"<b>")
	case "try":
		m.open("try", "try"+p)
	case "function":
		m.open("function", "function"+p+" id"+arg(9)+"<F>[][]")
	case "elseif":
		if t.kind != "if" || t.sub == "else" {
			m.bad("stray elseif", "E582", "E584")
			return
		}
		m.clause("if", c, "elseif"+p+" num"+arg(7)+"<1>")
	case "else":
		if t.kind != "if" || t.sub == "else" {
			m.bad("stray else", "E581", "E583")
			return
		}
		m.clause("if", c, "else"+p)
	case "catch":
		if t.kind != "try" || t.sub == "finally" {
			m.bad("stray catch", "E603", "E604")
			return
		}
		if all {
			m.clause("try", c, "catch"+p+"<>")
		} else {
			m.clause("try", c, "catch"+p+"<e>")
		}
	case "finally":
		if t.kind != "try" || t.sub == "finally" {
			m.bad("stray finally", "E606", "E607")
			return
		}
		m.clause("try", c, "finally"+p)
	default:
		if c != "end"+t.kind || t.kind == "" {
			m.bad("stray "+c, map[string]string{"endif": "E580", "endwhile": "E588", "endfor": "E588", "endtry": "E602", "endfunction": "E193"}[c])
			return
		}
		m.close(c + p)
	}
}

var blockCmds = []string{
	"echo 1          ", "if 1            ", "elseif 1        ", "else            ", "endif           ", "while 1         ", "endwhile        ",
	"for a in b      ", "endfor          ", "try             ", "catch /e/       ", "catch           ", "finally         ", "endtry          ", "function F()    ",
	"endfunction     ", "break           ", "continue        ",
}

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

// checkBlocks compares ParseFile with the machine for the commands, each
// followed by a separator.
func checkBlocks(cmds []string, sep string) {
	src := ""
	m := &machine{}
	m.open("", "file"+posText(0, 1, 1))
	off, ln, col := 0, 1, 1
	for _, c := range cmds {
		src += c + sep
	}
	f, err := vimlparser.ParseFile(strings.NewReader(src), "", nil)
	for _, c := range cmds {
		m.step(firstWord(c), posText(off, ln, col), !strings.Contains(c, "/"), off, ln, col)
		if m.fail != "" {
			break
		}
		off, col = off+len(c)+len(sep), col+len(c)+len(sep)
		if sep == "\n" {
			ln, col = ln+1, 1
		}
	}
	if m.fail == "" {
		missing := len(m.st) > 1
		if missing {
			m.bad("block is not closed")
			// the end of the file is column 0 of the line after the last
			if sep != "\n" {
				off, ln = off+1, ln+1
			}
			col = 0
		}
	}
	if m.fail == "" {
		if err != nil {
			sym.Fail("balanced but rejected: " + strconv.Quote(src) + ": " + err.Error())
		}
		sym.Reach("balanced")
		eq("tree", src, dumpPos(f), m.top().head+"}")
		return
	}
	if err == nil {
		sym.Fail("accepted: " + strconv.Quote(src) + ": " + m.fail)
	}
	sym.Reach("unbalanced")
	e, ok := err.(*vimlparser.ErrVimlParser)
	if !ok {
		sym.Fail("untyped error " + err.Error())
	}
	code := errCode(err)
	for _, c := range m.code {
		if c == code {
			if e.Offset != off || e.Line != ln || e.Column != col {
				sym.Fail("error for " + m.fail + " in " + strconv.Quote(src) + " at the wrong place: " + err.Error() + ", want " + posText(off, ln, col))
			}
			return
		}
	}
	sym.Fail("wrong error for " + m.fail + " in " + strconv.Quote(src) + ": " + err.Error())
}

func pickBlocks(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, sym.PickSym("c"+strconv.Itoa(i), blockCmds...))
	}
	return l
}

// All sequences of 4 block commands.
//
//vp:quick=60 thorough=300 reach=balanced,unbalanced
func C06_seq4() { checkBlocks(pickBlocks(4), "\n") }

// All sequences of 5 block commands.
//
//vp:thorough=600 reach=balanced,unbalanced tier=thorough
func C06_seq5() { checkBlocks(pickBlocks(5), "\n") }

var blockOpens = []string{"if 1", "while 1", "for a in b", "try", "function F()", "elseif 1", "else", "catch /e/", "finally", "echo 1", "catch"}

// Three nested blocks or clauses followed by 2 block commands.
//
//vp:quick=60 thorough=300 reach=unbalanced
func C06_nested() { nested(2) }

// Three nested blocks or clauses followed by 3 block commands.
//
//vp:thorough=600 reach=balanced,unbalanced tier=thorough
func C06_nested3() { nested(3) }

func nested(n int) {
	checkBlocks(append([]string{sym.Pick("o1", blockOpens[:5]...), sym.Pick("o2", blockOpens...), sym.Pick("o3", blockOpens...)}, pickBlocks(n)...), "\n")
}

// Blocks in one line, separated by bars, 4 commands.
//
//vp:quick=60 thorough=300 reach=balanced,unbalanced
func C06_bars() {
	var l []string
	for i := 0; i < 4; i++ {
		l = append(l, sym.PickSym("c"+strconv.Itoa(i), "echo 1     ", "if 1       ", "elseif 1   ", "else       ", "endif      ", "while 1    ",
			"endwhile   ", "for a in b ", "endfor     ", "try        ", "catch /e/  ", "catch      ", "finally    ", "endtry     ", "break      ", "continue   "))
	}
	checkBlocks(l, "|")
}

// A complete block of 4 to 6 commands in which one command is replaced by any
// other, or to which one is added or from which one is taken.
//
//vp:quick=60 thorough=300 reach=balanced,unbalanced
func C06_mutated() {
	l := strings.Split(sym.Pick("b", "if 1,elseif 1,elseif 1,else,endif", "try,catch /e/,catch /e/,finally,endtry", "while 1,if 1,break,endif,endwhile",
		"function F(),for a in b,continue,endfor,endfunction", "try,while 1,endwhile,finally,if 1,endif,endtry", "if 1,function F(),endfunction,else,try,endtry,endif",
		"for a in b,try,catch /e/,endtry,for a in b,endfor,endfor", "function F(),function F(),endfunction,if 1,else,endif,endfunction"), ",")
	i := sym.Choose("i", len(l)+1)
	c := sym.PickSym("c", blockCmds...)
	var r []string
	for j, x := range l {
		if j == i {
			r = append(r, c)
			if sym.Choose("op", 2) == 0 {
				continue
			}
		}
		r = append(r, x)
	}
	if i == len(l) {
		r = append(r, c)
	}
	k := sym.Choose("cut", 3)
	sym.Assume(k < len(r))
	checkBlocks(r[:len(r)-k], "\n")
}

// Blocks nested up to 64 deep in a function or loop, around a command that
// needs it, all closed or one end missing or of another kind.
//
//vp:quick=60 thorough=300 reach=balanced,unbalanced
func C06_deep() {
	outer := sym.Pick("outer", "function F()", "while 1", "for a in b", "if 1", "try")
	k := forkOn("kind", 5)
	opens := []string{blockOpens[k], blockOpens[(k+2)%5]}
	inner := sym.Pick("inner", "echo 1", "break", "continue", "catch", "else")
	l := []string{outer}
	n := []int{11, 63}[forkOn("depth", 2)]
	for i := 0; i < n; i++ {
		l = append(l, opens[i%2])
	}
	ends := map[string]string{"if": "endif", "while": "endwhile", "for": "endfor", "try": "endtry", "function": "endfunction"}
	m := len(l)
	l = append(l, inner)
	for i := m - 1; i >= 0; i-- {
		l = append(l, ends[firstWord(l[i])])
	}
	switch forkOn("op", 3) {
	case 1:
		l = l[:len(l)-1]
	case 2:
		l[m+2] = sym.Pick("end", "endif", "endwhile", "endfor", "endtry", "endfunction")
	}
	checkBlocks(l, "\n")
}

// A command of each kind in the body of each block, also one that looks like
// the end of a block in its text: it is there and the block is what it was.
//
//vp:quick=60 thorough=300 reach=inside
func C06_leaf() {
	leaf := sym.Pick("leaf", append([]string{"finish", "finish | echo 1", "finish \"x", "sil! finish", "Endif", "Finally x", "a\nendif\n.", "lua << E\nendwhile\nE", "let x =<< E\nendtry\nE",
		"normal endif", "\"endif", "echo 1 | \"else", "g/x/endif", "au X * endif", "let endif = 1", "call else()", "let x = [1,\n\\endif,\n\\2]", "break", "continue", "command! X finally",
		"unlet else", "nnoremap x :endif<cr>|y"}, stmts...)...)
	// the quote starts a string
	sym.Assume(leaf != "echo 1 \" comment")
	ctx, end := "", ""
	n := 0
	if forkOn("inside", 2) == 1 {
		ctx, end = "function F()\nwhile 1\n", "\nendwhile\nendfunction"
		n = 1
	}
	f, err := parse("function F()\nwhile 1\n" + leaf + "\nendwhile\nendfunction")
	if err != nil {
		sym.Fail("rejected in a loop in a function: " + strconv.Quote(leaf) + ": " + err.Error())
	}
	want := strings.TrimSuffix(bodyText(f.Body[0].(*ast.Function).Body[0].(*ast.While).Body), "; ")
	if n == 0 {
		sym.Assume(leaf != "break" && leaf != "continue" && !strings.HasPrefix(leaf, "return"))
	}
	b := blocksFor[forkOn("block", len(blocksFor))]
	f, err = parse(ctx + strings.Replace(b, "@", leaf, 1) + end)
	g, err2 := parse(ctx + strings.Replace(b, "@", "echo 987", 1) + end)
	if err2 != nil {
		sym.Fail("rejected: " + b)
	}
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(ctx+strings.Replace(b, "@", leaf, 1)+end) + ": " + err.Error())
	}
	sym.Reach("inside")
	eq("blocks", strings.Replace(b, "@", leaf, 1), bodyText(f.Body), strings.Replace(bodyText(g.Body), "echo [num<987>]", want, 1))
}

var blocksFor = []string{"if 1\n@\nendif", "if 1\nelseif 2\n@\nelse\nx\nendif", "if 1\nelse\n@\nendif\nx", "while 1\n@\nendwhile", "for a in b\n@\nendfor", "try\n@\nendtry", "try\ncatch\n@\ncatch /e/\nendtry",
	"try\nfinally\n@\nendtry", "function F()\n@\nendfunction", "if 1\ntry\n@\nfinally\nx\nendtry\nelse\nendif", "x\nfor a in b\nif 1\n@\nx\nendif\nendfor", "while 1 | if 2\n@\nendif | endwhile"}
