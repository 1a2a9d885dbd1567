package h

import (
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// input is something to parse.
type input struct {
	src    string
	neovim bool
	expr   bool
}

// run parses and returns the tree and the text of the outcome.
func (in input) run() (ast.Node, string) {
	if in.expr {
		n, err := parseExpr(in.src)
		if err != nil {
			return nil, errText(err)
		}
		return n, dumpAll(n)
	}
	f, err := vimlparser.ParseFile(strings.NewReader(in.src), "f", &vimlparser.ParseOption{Neovim: in.neovim})
	if err != nil {
		return nil, errText(err)
	}
	return f, dumpAll(f)
}

func (in input) String() string {
	s := strconv.Quote(in.src)
	if in.neovim {
		s += " (neovim)"
	}
	return s
}

// independent checks that two parses do not influence each other.
func independent(a, b input) {
	var both []string
	if !sym.Symbolic() {
		// for the race detector: at the same time, before anything was parsed
		done := make(chan string, 4)
		for i := 0; i < 4; i++ {
			x := a
			if i%2 == 1 {
				x = b
			}
			k := "0"
			if i%2 == 1 {
				k = "1"
			}
			go func() {
				_, t := x.run()
				done <- k + t
			}()
		}
		for i := 0; i < 4; i++ {
			both = append(both, <-done)
		}
	}
	sym.Share(true)
	na, ta := a.run()
	sym.Share(false)
	_, tb := b.run()
	_, tb2 := b.run()
	_, ta2 := a.run()
	if na != nil {
		sym.Reach("tree")
		if s := dumpAll(na); s != ta {
			sym.Fail("parsing " + b.String() + " changes the tree of " + a.String() + " from " + ta + " to " + s)
		}
	}
	if ta != ta2 {
		sym.Fail("the result for " + a.String() + " is " + ta + " at first, and after " + b.String() + " it is " + ta2)
	}
	if tb != tb2 {
		sym.Fail("the result for " + b.String() + " is " + tb + " after " + a.String() + ", and then it is " + tb2)
	}
	for _, t := range both {
		if want := []string{ta, tb}[t[0]-'0']; t[1:] != want {
			sym.Fail("the result for " + a.String() + " or " + b.String() + " is " + t[1:] + " when both run, " + want + " when alone")
		}
	}
	if w := sym.SharedWrites(); w != "" {
		sym.Fail("parsing " + b.String() + " writes to memory of the tree of " + a.String() + ": " + w)
	}
	if w := sym.GlobalWrites(); w != "" {
		sym.Fail("parsing " + a.String() + " or " + b.String() + " writes to shared memory: " + w)
	}
}

// Two scripts of one command each, the second with an arbitrary byte, in one
// mode and the other, one after the other.
//
//vp:quick=120 thorough=300 race=1 reach=tree
func C10_pairs() { pairs("x") }

// The same with an arbitrary byte in the first script, too.
//
//vp:thorough=400 race=1 reach=tree tier=thorough
func C10_pairs2() { pairs(sym.Bytes("x", 1)) }

func pairs(x string) {
	nvim := sym.Choose("na", 2) == 1
	a := input{strings.Replace(sym.Pick("a", allStmts...), "@", x, -1), nvim, false}
	b := input{sym.Pick("b", "sil ", "") + sym.Bytes("y", 1) + sym.Pick("t", "", "!", " x"), !nvim, false}
	independent(a, b)
}

// Two expressions with 2 arbitrary bytes, one after the other.
//
//vp:quick=60 thorough=300 race=1 reach=tree
func C10_exprs() {
	a := input{sym.Pick("a", tails...) + sym.Bytes("x", 1), false, true}
	b := input{sym.Bytes("y", 1) + sym.Pick("b", "", "a", "'", "(c)"), false, true}
	independent(a, b)
}

// Names of commands of up to 3 letters in both modes: what one script uses
// does not define it for the other.
//
//vp:quick=60 thorough=300 race=1 reach=tree
func C10_names() {
	n := sym.BytesIn("n", 3, "FGOacdeghlnoprstxy")
	m := n[:1+sym.Choose("k", 3)]
	independent(input{n + sym.Pick("a", "", "!"), sym.Choose("na", 2) == 1, false}, input{m, sym.Choose("nb", 2) == 1, false})
}

// What one editor knows and the other does not, in one mode and then in the
// other: the outcome is that of the mode.
//
//vp:quick=60 thorough=60 race=1 reach=tree
func C10_modes() {
	l := []string{"rsh", "rshada", "wsh", "wshada", "fix", "fixdel", "helpf", "o", "open", "sh", "shell", "te", "gv"}
	n := l[sym.Choose("n", len(l))]
	nvim := sym.Choose("na", 2) == 1
	a, b := input{n, nvim, false}, input{n + sym.Pick("b", "", "!"), !nvim, false}
	if s := sym.Pick("also", "", "sil "); s != "" {
		b.src = s + b.src
	}
	independent(a, b)
	for _, x := range []input{a, b} {
		w := strings.TrimSuffix(strings.TrimPrefix(x.src, "sil "), "!")
		c, _, ok := refCommand(w, x.src[strings.Index(x.src, w)+len(w):], x.neovim)
		if !ok {
			continue
		}
		_, t := x.run()
		if known := !strings.Contains(t, "E492"); known != (c != nil) {
			sym.Fail("in scripts for both editors one after the other, the outcome of " + x.String() + " is " + t)
		}
	}
}

// linesIndependent checks that the commands of two scripts one after the other are the
// commands of each.
func linesIndependent(a, b string) {
	fa, ea := parse(a)
	fb, eb := parse(b)
	if ea != nil {
		sym.Assume(false)
	}
	f, err := parse(a + "\n" + b)
	if eb != nil {
		sym.Reach("error")
		if err == nil {
			sym.Fail(strconv.Quote(b) + " is rejected with " + eb.Error() + " but not after " + strconv.Quote(a))
		}
		eq("error after "+strconv.Quote(a), b, errMsg(err), errMsg(eb))
		return
	}
	sym.Reach("tree")
	if err != nil {
		sym.Fail("rejected after " + strconv.Quote(a) + ": " + strconv.Quote(b) + ": " + err.Error())
	}
	var l []string
	for _, x := range []*ast.File{fa, fb, f} {
		s := ""
		for _, c := range x.Body {
			s += dump(c) + "; "
		}
		l = append(l, s)
	}
	eq("commands after "+strconv.Quote(a), b, l[2], l[0]+l[1])
}

// Each kind of command followed by a command with a name of up to 3 letters.
//
//vp:quick=60 thorough=300 reach=tree,error
func C10_lines() {
	a := sym.Pick("a", "Fo", "Foo! x", "GO", "Abc", "com! Foo", "command! Fo echo", "set x", "aug x", "delc Foo", "py x", "func! f()\nendf", "let x = 1", "sil! F", "F|F", "foldo x", "en\nendif")
	if strings.HasPrefix(a, "en") {
		a = "if 1\nen"
	}
	linesIndependent(a, sym.Pick("p", "", "sil ", "1", ":")+sym.BytesIn("n", 1, "FGAabcdefghilmnopqrstuvwxyz")+sym.BytesIn("m", 2, "Oobcdelu ")+sym.Pick("e", "", "!", " x"))
}

// Each kind of command with an arbitrary byte followed by each kind of command.
//
//vp:quick=90 thorough=300 reach=tree,error
func C10_stmts() {
	a := sym.Pick("a", allStmts...)
	if strings.HasPrefix(a, "lua") || strings.HasPrefix(a, "finish") {
		sym.Assume(false)
	}
	linesIndependent(strings.Replace(a, "@", "x", -1), strings.Replace(sym.Pick("b", allStmts...), "@", sym.Pick("c", "x", "", "'", "|"), -1))
}

// One set of options for several parses, with and without a file name, and in
// between parses with other options and with none: the options stay as they
// were, and the outcome depends on them alone.
//
//vp:quick=60 thorough=60 reach=tree,error
func C10_options() {
	l := []string{"rshada", "rsh", "tmap a b", "open", "echo 1", "if 1", "let x = {", "", "\"c", "function F()\nrshada\nendfunction", "sil rsh", "helpf"}
	src := l[sym.Choose("script", len(l))] + sym.Bytes("byte", sym.Choose("n", 2))
	nvim := sym.Choose("neovim", 2) == 1
	one := func(src, name string, opt *vimlparser.ParseOption) string {
		f, err := vimlparser.ParseFile(strings.NewReader(src), name, opt)
		if err != nil {
			e, ok := err.(*vimlparser.ErrVimlParser)
			if !ok {
				sym.Fail("another error: " + err.Error())
			}
			return errCode(err) + " " + e.Msg
		}
		return dump(f)
	}
	names := []string{"", "f"}
	want := one(src, "f", &vimlparser.ParseOption{Neovim: nvim})
	if strings.HasPrefix(want, "file") {
		sym.Reach("tree")
	} else {
		sym.Reach("error")
	}
	opt := &vimlparser.ParseOption{Neovim: nvim}
	first := names[sym.Choose("first", 2)]
	between := sym.Choose("between", 3)
	for i, name := range []string{first, names[sym.Choose("second", 2)], first} {
		if i == 2 {
			switch between {
			case 1:
				one(src, first, nil)
			case 2:
				one(src, first, &vimlparser.ParseOption{Neovim: !nvim})
			}
		}
		eq("outcome with options used "+strconv.Itoa(i)+" times, name "+strconv.Quote(name), src, one(src, name, opt), want)
		if opt.Neovim != nvim {
			sym.Fail("parsing " + strconv.Quote(src) + " changes the options")
		}
	}
	if !nvim {
		eq("outcome without options", src, one(src, first, nil), want)
	}
}
