package h

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// joined is src with its continuation lines joined to the lines they continue.
// Inputs where a joined line starts with a backslash are left out.
func joined(src string) string {
	s := ""
	for n, l := range refLines(src) {
		i := 0
		for i < len(l.s) && isW(l.s[i]) {
			i++
		}
		// such a line cannot be written without a continuation
		sym.Assume(n == 0 || i == len(l.s) || l.s[i] != '\\')
		s += l.s + "\r\n"
	}
	return s
}

// outcome is what a parse gives, positions aside.
func outcome(src string) string {
	f, err := parse(src)
	if err != nil {
		return "error " + errMsg(err)
	}
	return dumpEa(f)
}

func sameJoined(src string) {
	a, b := outcome(src), outcome(joined(src))
	if a != b {
		sym.Fail("continuation lines change the result of " + strconv.Quote(src) + ": got " + a + ", the joined line gives " + b)
	}
	if a[0] == 'e' {
		sym.Reach("error")
	} else {
		sym.Reach("tree")
	}
}

// Each kind of command with one arbitrary byte at an arbitrary place, cut into
// two lines at another arbitrary place.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_cut() {
	t := sym.Pick("stmt", stmts...)
	i := sym.Choose("cut", len(t)+1)
	sym.Assume(i == len(t) || t[i]&0xc0 != 0x80)
	sameJoined(t[:i] + sym.Pick("nl", "\n", "\r\n") + sym.Pick("w", "", " ", "\t ") + "\\" + sym.BytesIn("b", 1, " |\"\\,\r\n\xe9") + t[i:] + sym.Pick("e", "", "\n"))
}

// Each kind of command cut into three lines.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_cut2() {
	t := sym.Pick("stmt", stmts...)
	i := sym.Choose("cut", len(t)+1)
	j := i + sym.Choose("cut2", 6)
	sym.Assume(j <= len(t))
	sameJoined(t[:i] + "\n\t\\" + t[i:j] + sym.Pick("nl", "\n \\", "\n\\\n\\") + t[j:])
}

// Two lines of which the second starts with 2 arbitrary bytes.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_second() {
	sameJoined(sym.Pick("l", "echo 1", "\"c", "", "if 1", "let a = [", "foo", "s/a/b/", "1") + sym.Pick("nl", "\n", "\r\n", "\n\n") + sym.Bytes("b", 2) + sym.Pick("t", "", "]", "echo 2\nendif"))
}

// Two lines that are not joined are two commands: the tree of both is that of
// the one followed by that of the other.
//
//vp:quick=60 thorough=300 reach=tree
func C05_apart() { apart(2) }

// The same with 3 arbitrary bytes.
//
//vp:thorough=600 reach=tree tier=thorough
func C05_apart3() { apart(3) }

func apart(n int) {
	l1 := sym.Pick("l", "echo 1", "\"c", "echo [1,", "let a = 1", "foo bar", "e \\", "call f()", "s/a/b/", "nmap a b|", "!ls |")
	l2 := sym.Bytes("b", n)
	i := 0
	for i < len(l2) && isW(l2[i]) {
		i++
	}
	sym.Assume(i == len(l2) || l2[i] != '\\')
	f1, err := parse(l1)
	f2, err2 := parse(l2)
	f, err3 := parse(l1 + "\n" + l2)
	if err != nil {
		if err3 == nil || errMsg(err3) != errMsg(err) {
			sym.Fail("the second line changes the first: " + strconv.Quote(l1+"\n"+l2))
		}
		return
	}
	if err2 != nil {
		if err3 == nil || errMsg(err3) != errMsg(err2) {
			sym.Fail("the first line changes the second: " + strconv.Quote(l1+"\n"+l2))
		}
		return
	}
	if err3 != nil {
		sym.Fail("two good lines are not good together: " + strconv.Quote(l1+"\n"+l2) + ": " + err3.Error())
	}
	sym.Reach("tree")
	d := &dumper{ea: true}
	body := f1.Body
	body = append(body, f2.Body...)
	eq("two lines", l1+"\n"+l2, dumpEa(f), "file"+d.body(body))
}

// Continuation lines within expressions: the two lines have 6 of the bytes
// that matter.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_expr() {
	sameJoined("echo [1," + sym.BytesIn("b", 6, "\n\r\\ \"1,]|"))
}

// A kind of an expression in each place of the commands, cut before and behind
// that expression's operand.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_places() {
	leaf := sym.Pick("before", "", "\n\\", "\n\t\\ ") + "x" + sym.Pick("behind", "\n\\", "\r\n \\\n\\ ", "\n\\y")
	sameJoined(strings.Replace(stmtHoles[forkOn("stmt", len(stmtHoles))], "@", strings.Replace(exprHoles[forkOn("hole", len(exprHoles))], "@", leaf, 1), -1))
}

// What is behind a backslash and before the end of the line is kept byte for
// byte.
//
//vp:quick=60 thorough=300 reach=tree
func C05_verbatim() {
	l := sym.Pick("l", "echo '", "Foo ", "\"", "e ", "let x = \"", "normal ", "lua ") + sym.BytesIn("end", 1, " \t\\|a")
	sameJoined(l + "\n" + sym.Pick("w", "", " ", "\t") + "\\" + sym.BytesIn("b", 3, " \t\\|\"'a\r\xc3\xa9") + sym.Pick("t", "", "'", "\""))
}

// Up to 300 continuation lines, some of them empty.
//
//vp:quick=60 thorough=300 reach=tree,error
func C05_many() {
	n := []int{9, 33, 300}[forkOn("n", 3)]
	k := forkOn("start", 5)
	s := []string{"let x = [", "echo 1 + {'k': [", "call f(", "foo ", "\"c"}[k]
	w := sym.Pick("w", "", " \t")
	for i := 0; i < n; i++ {
		s += "\n" + w + "\\" + []string{" 1,", "", "  ", " 'a',"}[i%4]
	}
	sameJoined(s + "\n\\" + sym.BytesIn("b", 1, "1]) |\"") + []string{"]", "]}", ")", "", ""}[k] + "\necho 2\n")
}

// Lines cut far behind the start of the text.
//
//vp:quick=60 thorough=300 reach=tree steps=400000000 samples=12
func C05_far() {
	src := far(6)
	f := mustParse(src + farScript)
	if strings.HasPrefix(src, "\"") {
		// the comment
		f.Body = f.Body[1:]
	}
	eq("tree far behind the start", farScript, dump(f), dump(mustParse(farScript)))
	sym.Reach("tree")
}
