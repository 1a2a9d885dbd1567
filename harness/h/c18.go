package h

import (
	"errors"
	"io"
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// feed delivers text in chunks of the given sizes (the rest in one piece),
// then end as an error.
type feed struct {
	text  string
	sizes []int
	early bool // the error comes with the last bytes, not after them
	end   error
	reads int
}

func (f *feed) Read(p []byte) (int, error) {
	if f.reads++; f.reads > 100 {
		sym.Fail("reads on after the end")
	}
	n := len(f.text)
	if len(f.sizes) > 0 {
		if f.sizes[0] < n {
			n = f.sizes[0]
		}
		f.sizes = f.sizes[1:]
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.text[:n])
	f.text = f.text[n:]
	if f.text == "" && (f.early || n == 0) {
		return n, f.end
	}
	return n, nil
}

func pickFeed(text string, end error) *feed {
	f := &feed{text: text, early: sym.Choose("early", 2) == 1, end: end}
	for i := 0; i < 3; i++ {
		f.sizes = append(f.sizes, forkOn("size", len(text)+1))
	}
	return f
}

// userLines is the body a script of user commands and blank lines must have.
func userLines(src string) string {
	s := ""
	off := 0
	for i, l := range strings.Split(src, "\n") {
		if l != "" {
			if s != "" {
				s += "; "
			}
			s += "excmd" + posText(off, i+1, 1) + "<" + l + ">"
		}
		off += len(l) + 1
	}
	return "{" + s + "}"
}

// A script of up to four bytes that arrives in up to four pieces, empty ones
// among them.
//
//vp:quick=60 thorough=120 reach=whole,no_newline,blank
func C18_chunks() { chunks(4) }

// The same with up to six bytes.
//
//vp:thorough=700 tier=thorough reach=whole,no_newline,blank
func C18_chunks6() { chunks(6) }

func chunks(max int) {
	src := ""
	for i, n := 0, forkOn("length", max+1); i < n; i++ {
		if forkOn("newline", 2) == 1 {
			src += "\n"
		} else {
			src += sym.BytesIn("byte", 1, "XYZ")
		}
	}
	f, err := vimlparser.ParseFile(pickFeed(src, io.EOF), "", nil)
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	if strings.HasSuffix(src, "\n") {
		sym.Reach("whole")
	} else if src != "" {
		sym.Reach("no_newline")
	}
	if strings.HasSuffix(src, "\n\n") || src == "\n" {
		sym.Reach("blank")
	}
	eq("tree", src, bodyPos(f.Body), userLines(src))
}

func bodyPos(l []ast.Statement) string { return (&dumper{pos: true}).body(l) }

// An expression over several lines in pieces.
//
//vp:quick=60 thorough=120 reach=parsed
func C18_expr() {
	a, b := sym.BytesIn("a", 1, "abc"), sym.BytesIn("b", 2, "xyz")
	src := "f(" + a + ",\n\\" + b + ")" + sym.Pick("end", "", "\n")
	x, err := vimlparser.ParseExpr(pickFeed(src, io.EOF))
	if err != nil {
		sym.Fail("rejected: " + strconv.Quote(src) + ": " + err.Error())
	}
	sym.Reach("parsed")
	eq("tree", src, dump(x), "(call id<f>[id<"+a+"> id<"+b+">])")
}

type custom struct{ n int }

func (c *custom) Error() string { return "custom " + strconv.Itoa(c.n) }

// The reader fails after any number of bytes, with a byte or without.
//
//vp:quick=60 thorough=120 reach=file,expr
func C18_error() {
	src := sym.Pick("text", "", "X", "X\n", "X\nYZ", "X\n\nY\n", "if 1\nX\nendif\n", "let x = [\n", "a+1", "a\n\\+1", "(", "\n")
	bad := []error{errors.New("broken"), io.ErrUnexpectedEOF, io.ErrNoProgress, errors.New("EOF"), io.ErrClosedPipe, &custom{7}, io.ErrShortBuffer}[forkOn("error", 7)]
	in := pickFeed(src, bad)
	if forkOn("expr", 2) == 1 {
		x, err := vimlparser.ParseExpr(in)
		sym.Reach("expr")
		if err != bad || x != nil {
			sym.Fail("read error not returned by ParseExpr for " + strconv.Quote(src))
		}
		return
	}
	f, err := vimlparser.ParseFile(in, sym.Pick("name", "", "f"), nil)
	sym.Reach("file")
	if err != bad || f != nil {
		sym.Fail("read error not returned by ParseFile for " + strconv.Quote(src))
	}
}

// A line about as long as a buffer, between other lines.
//
//vp:quick=60 thorough=200 reach=string,comment,last steps=200000000 samples=2
func C18_long() {
	n := []int{100, 4095, 65535}[forkOn("length", 3)] + forkOn("more", 3)
	first, next := sym.BytesIn("first", 1, "XYZ"), sym.BytesIn("next", 1, "XYZ")
	c := sym.BytesIn("c", 1, "abc")
	switch forkOn("kind", 3) {
	case 0:
		text := strings.Repeat("x", n-1) + c
		f := mustParse(first + "\nlet s = '" + text + "'\n" + next)
		sym.Reach("string")
		if len(f.Body) != 3 || dump(f.Body[0]) != "excmd<"+first+">" || dump(f.Body[2]) != "excmd<"+next+">" {
			sym.Fail("lines around a string of " + strconv.Itoa(n) + " bytes lost")
		}
		if dump(f.Body[1]) != "let = id<s>[]nil str<'"+text+"'>" {
			sym.Fail("string of " + strconv.Itoa(n) + " bytes not taken whole")
		}
	case 1:
		text := strings.Repeat("x", n-1) + c
		f := mustParse(first + "\n\"" + text + "\n" + next + "\n")
		sym.Reach("comment")
		if bodyPos(f.Body) != "{excmd@0:1:1<"+first+">; comment@2:2:1<"+text+">; excmd@"+strconv.Itoa(4+n)+":3:1<"+next+">}" {
			sym.Fail("comment of " + strconv.Itoa(n) + " bytes not taken whole")
		}
	case 2:
		f := mustParse(strings.Repeat("\n", n-1) + first + strings.Repeat("X", n))
		sym.Reach("last")
		if bodyPos(f.Body) != "{excmd@"+strconv.Itoa(n-1)+":"+strconv.Itoa(n)+":1<"+first+strings.Repeat("X", n)+">}" {
			sym.Fail("last line of " + strconv.Itoa(n) + " bytes not taken whole")
		}
	}
}

// A line longer than 256 KiB.
//
//vp:thorough=600 tier=thorough reach=huge steps=4000000000 samples=1
func C18_huge() {
	n := 1<<18 + 1
	a, next := sym.BytesIn("a", 1, "XYZ"), sym.BytesIn("next", 1, "XYZ")
	f := mustParse(strings.Repeat(" ", n) + a + "\n" + next)
	sym.Reach("huge")
	if bodyPos(f.Body) != "{excmd@"+strconv.Itoa(n)+":1:"+strconv.Itoa(n+1)+"<"+a+">; excmd@"+strconv.Itoa(n+2)+":2:1<"+next+">}" {
		sym.Fail("huge line not taken whole")
	}
}
