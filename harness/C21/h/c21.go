package h

import (
	"strconv"
	"strings"
	"unicode/utf8"

	internal "github.com/vim-jp/go-vimlparser/go"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// ---- Vim's patterns ----

type reKind int

const (
	reSeq reKind = iota
	reAlt
	reLit
	reClass
	reRep
	reBol
	reEol
	reBow
	reEow
	reOpt // %[...]: any beginning of it
)

type re struct {
	kind     reKind
	subs     []*re
	lit      byte
	set      string // ASCII members
	neg      bool
	min, max int
}

const (
	digits = "0123456789"
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
)

type reParser struct {
	s     string
	i     int
	magic bool // \v
}

func parseRe(s string) *re {
	p := &reParser{s: s}
	r := p.alt()
	if p.i != len(s) {
		panic("pattern " + s)
	}
	return r
}

// op takes an operator, written with a backslash unless very magic.
func (p *reParser) op(c string) bool {
	if !p.magic {
		c = "\\" + c
	}
	if strings.HasPrefix(p.s[p.i:], c) {
		p.i += len(c)
		return true
	}
	return false
}

func (p *reParser) atOp(c string) bool {
	i := p.i
	ok := p.op(c)
	p.i = i
	return ok
}

func (p *reParser) alt() *re {
	r := &re{kind: reAlt, subs: []*re{p.seq()}}
	for p.op("|") {
		r.subs = append(r.subs, p.seq())
	}
	return r
}

func (p *reParser) seq() *re {
	r := &re{kind: reSeq}
	for p.i < len(p.s) && !p.atOp("|") && !p.atOp(")") && !(p.magic && p.s[p.i] == ']') {
		if x := p.piece(len(r.subs) == 0); x != nil {
			r.subs = append(r.subs, x)
		}
	}
	return r
}

func (p *reParser) piece(first bool) *re {
	if strings.HasPrefix(p.s[p.i:], "\\v") {
		p.i += 2
		p.magic = true
		return nil
	}
	x := p.atom(first)
	switch {
	case p.i < len(p.s) && p.s[p.i] == '*':
		p.i++
		return &re{kind: reRep, subs: []*re{x}, min: 0, max: 99}
	case !p.magic && strings.HasPrefix(p.s[p.i:], "\\+"):
		p.i += 2
		return &re{kind: reRep, subs: []*re{x}, min: 1, max: 99}
	case !p.magic && strings.HasPrefix(p.s[p.i:], "\\?"):
		p.i += 2
		return &re{kind: reRep, subs: []*re{x}, min: 0, max: 1}
	}
	return x
}

func (p *reParser) group() *re {
	x := p.alt()
	if !p.op(")") {
		panic("pattern " + p.s)
	}
	return x
}

func (p *reParser) atom(first bool) *re {
	if p.op("(") || p.op("%(") {
		return p.group()
	}
	if p.op("%[") {
		r := &re{kind: reOpt}
		for p.s[p.i] != ']' {
			r.subs = append(r.subs, &re{kind: reLit, lit: p.s[p.i]})
			p.i++
		}
		p.i++
		return r
	}
	if p.op("<") {
		return &re{kind: reBow}
	}
	if p.op(">") {
		return &re{kind: reEow}
	}
	c := p.s[p.i]
	p.i++
	switch c {
	case '^':
		if !p.magic && !first {
			panic("pattern " + p.s)
		}
		return &re{kind: reBol}
	case '$':
		if p.magic || p.i == len(p.s) || p.atOp("|") || p.atOp(")") {
			return &re{kind: reEol}
		}
	case '[':
		r := &re{kind: reClass}
		if p.s[p.i] == '^' {
			r.neg = true
			p.i++
		}
		for p.s[p.i] != ']' {
			c := p.s[p.i]
			p.i++
			if c == '\\' {
				if p.s[p.i] != 't' {
					panic("pattern " + p.s)
				}
				c = '\t'
				p.i++
			}
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				for x := c; x < p.s[p.i+1]; x++ {
					r.set += string([]byte{x})
				}
				c = p.s[p.i+1]
				p.i += 2
			}
			r.set += string([]byte{c})
		}
		p.i++
		return r
	case '\\':
		c = p.s[p.i]
		p.i++
		switch c {
		case 's':
			return &re{kind: reClass, set: " \t"}
		case 'S':
			return &re{kind: reClass, set: " \t", neg: true}
		case 'd':
			return &re{kind: reClass, set: digits}
		case 'x':
			return &re{kind: reClass, set: digits + "abcdefABCDEF"}
		case 'w':
			return &re{kind: reClass, set: digits + lowers + uppers + "_"}
		case 'h':
			return &re{kind: reClass, set: lowers + uppers + "_"}
		case 'a':
			return &re{kind: reClass, set: lowers + uppers}
		case '\\', '.', '$':
		default:
			panic("pattern " + p.s)
		}
	}
	return &re{kind: reLit, lit: c}
}

// charLen is the length of the character at the start of s. Where Vim takes
// byte sequences for characters that UTF-8 does not allow, and where composing
// characters follow, the path ends.
func charLen(s string) int {
	if s[0] < 0x80 {
		return 1
	}
	if len(s) > 1 && s[1] >= 0x80 && s[1] < 0xc0 {
		r, n := utf8.DecodeRuneInString(s)
		if s[0] >= 0xc0 && !(n == 2 && (r < 0x300 || r >= 0x370 && r < 0x483) || n == 3 && r >= 0x4e00 && r < 0xa000) {
			sym.Truncate()
		}
		return n
	}
	return 1
}

// keyword tells whether the character at the start of s is a keyword character.
func keyword(s string) bool {
	if s == "" {
		return false
	}
	if s[0] < 0x80 {
		return sym.In(s[0], digits+lowers+uppers+"_")
	}
	r, n := utf8.DecodeRuneInString(s)
	if n == 1 {
		sym.Truncate() // not UTF-8
	}
	charLen(s)
	return r >= 0xc0 && r != 0xd7 && r != 0xf7
}

func match(r *re, s string, i int, k func(int) bool) bool {
	switch r.kind {
	case reSeq:
		return matchSeq(r.subs, s, i, k)
	case reAlt:
		for _, x := range r.subs {
			if match(x, s, i, k) {
				return true
			}
		}
		return false
	case reLit:
		return i < len(s) && s[i] == r.lit && k(i+1)
	case reClass:
		if i == len(s) {
			return false
		}
		if s[i] >= 0x80 {
			n := charLen(s[i:])
			return r.neg && k(i+n)
		}
		return sym.In(s[i], r.set) != r.neg && k(i+1)
	case reRep:
		return matchRep(r, s, i, 0, k)
	case reBol:
		return i == 0 && k(i)
	case reEol:
		return i == len(s) && k(i)
	case reBow:
		// what stands before is looked at as the last byte of a character
		if !keyword(s[i:]) {
			return false
		}
		if i > 0 && s[i-1] >= 0x80 {
			sym.Truncate()
		}
		return (i == 0 || !keyword(s[i-1:i])) && k(i)
	case reEow:
		if i == 0 || !keyword(s[i-1:i]) {
			return false
		}
		return !keyword(s[i:]) && k(i)
	case reOpt:
		for n := len(r.subs); n >= 0; n-- {
			if matchSeq(r.subs[:n], s, i, k) {
				return true
			}
		}
		return false
	}
	panic("pattern")
}

func matchSeq(l []*re, s string, i int, k func(int) bool) bool {
	if len(l) == 0 {
		return k(i)
	}
	return match(l[0], s, i, func(j int) bool { return matchSeq(l[1:], s, j, k) })
}

func matchRep(r *re, s string, i, n int, k func(int) bool) bool {
	if n < r.max && match(r.subs[0], s, i, func(j int) bool { return matchRep(r, s, j, n+1, k) }) {
		return true
	}
	return n >= r.min && k(i)
}

// found tells whether the pattern matches anywhere.
func found(r *re, s string) bool {
	for i := 0; i <= len(s); i++ {
		if match(r, s, i, func(int) bool { return true }) {
			return true
		}
		if i < len(s) && s[i] >= 0x80 {
			i += charLen(s[i:]) - 1
		}
	}
	return false
}

// generate gives a string the pattern might match: any byte where a class
// stands.
func generate(r *re) string {
	switch r.kind {
	case reSeq:
		s := ""
		for _, x := range r.subs {
			s += generate(x)
		}
		return s
	case reAlt:
		return generate(r.subs[forkOn("alternative", len(r.subs))])
	case reLit:
		return string([]byte{r.lit})
	case reClass:
		return sym.Bytes("class", 1)
	case reRep:
		s := ""
		for i, n := 0, forkOn("times", 3); i < n && i < r.max; i++ {
			s += generate(r.subs[0])
		}
		return s
	case reOpt:
		s := ""
		for _, x := range r.subs[:forkOn("of", len(r.subs)+1)] {
			s += generate(x)
		}
		return s
	}
	return ""
}

// Every pattern of the table.
var patterns = []string{
	"[0-9a-zA-Z]", "[@*!=><&~#]", "\\<ARGOPT\\>", "\\<BANG\\>", "\\<EDITCMD\\>", "\\<NOTRLCOM\\>", "\\<TRLBAR\\>", "\\<USECTRLV\\>",
	"\\<USERCMD\\>", "\\<\\(XFILE\\|FILES\\|FILE1\\)\\>", "\\S", "\\a", "\\d", "\\h", "\\s", "\\v^d%[elete][lp]$",
	"\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))", "\\w", "\\w\\|[:#]", "\\x", "^++",
	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)", "^++bad=drop", "^++bad=keep", "^++bin\\>", "^++edit\\>", "^++enc=\\S",
	"^++encoding=\\S", "^++ff=\\(dos\\|unix\\|mac\\)\\>", "^++fileformat=\\(dos\\|unix\\|mac\\)\\>", "^++nobin\\>", "^[A-Z]",
	"^\\$\\w\\+", "^\\(!\\|global\\|vglobal\\)$", "^\\(WHILE\\|FOR\\)$",
	"^\\(vimgrep\\|vimgrepadd\\|lvimgrep\\|lvimgrepadd\\)$", "^\\d", "^\\h", "^\\s", "^\\s*\\\\", "^[ \\t]$", "^[A-Za-z]$",
	"^[0-9A-Za-z]$", "^[0-9]$", "^[0-9A-Fa-f]$", "^[0-9A-Za-z_]$", "^[A-Za-z_]$", "^[0-9A-Za-z_:#]$",
	"^[A-Za-z_][0-9A-Za-z_]*$", "^[A-Z]$", "^[a-z]$",
	"^[vgslabwt]:$\\|^\\([vgslabwt]:\\)\\?[A-Za-z_][0-9A-Za-z_#]*$", "^[0-7]$", "^[0-9A-Fa-f][0-9A-Fa-f]$",
	"^\\.[0-9A-Fa-f]$", "^[0-9A-Fa-f][^0-9A-Fa-f]$", "^[^a-z]\\S\\+$",
}

// agree compares the port with the pattern. A pattern that left the table
// because nothing needs it is passed over.
func agree(pat, s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\n')
		if strings.HasPrefix(pat, "\\<") {
			sym.Assume(s[i] < 0x80) // a list of flags
		}
	}
	got, ok := false, false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if t, is := x.(string); !is || !strings.Contains(t, "NotImplemented") {
					panic(x)
				}
			}
		}()
		got = internal.VerifMatch(s, pat)
		ok = true
	}()
	if !ok {
		sym.Truncate()
	}
	if found(parseRe(pat), s) {
		sym.Reach("match")
		if !got {
			sym.Fail("pattern " + pat + " does not match " + strconv.Quote(s))
		}
	} else {
		sym.Reach("no_match")
		if got {
			sym.Fail("pattern " + pat + " matches " + strconv.Quote(s))
		}
	}
}

// Every string of up to three bytes.
//
//vp:quick=60 thorough=300 reach=match,no_match
func C21_short() {
	pat := patterns[forkOn("pattern", len(patterns))]
	agree(pat, sym.Bytes("string", forkOn("length", 4)))
}

// Strings that look like what the pattern matches, with more bytes around them
// or one byte of them changed.
//
//vp:quick=100 thorough=300 reach=match,no_match
func C21_near() {
	pat := patterns[forkOn("pattern", len(patterns))]
	s := generate(parseRe(pat))
	k := forkOn("change", 3)
	switch {
	case k == 1 && s != "":
		i := forkOn("where", len(s))
		s = s[:i] + sym.Bytes("other", 1) + s[i+1:]
	case k == 2 && s != "":
		i := forkOn("where", len(s))
		s = s[:i] + s[i+1:]
	}
	if k == 0 {
		s = sym.Bytes("before", forkOn("before", 2)) + s + sym.Bytes("after", forkOn("after", 3))
	} else {
		s += sym.Bytes("after", forkOn("after", 2))
	}
	agree(pat, s)
}

var classes = []struct{ name, set string }{
	{"isalpha", lowers + uppers}, {"isalnum", digits + lowers + uppers}, {"isdigit", digits}, {"isodigit", "01234567"},
	{"isxdigit", digits + "abcdefABCDEF"}, {"iswordc", digits + lowers + uppers + "_"}, {"iswordc1", lowers + uppers + "_"},
	{"iswhite", " \t"}, {"isnamec", digits + lowers + uppers + "_:#"}, {"isnamec1", lowers + uppers + "_"},
	{"isidc", digits + lowers + uppers + "_"}, {"isupper", uppers}, {"islower", lowers},
}

// Every character, nothing, and the marks of the ends of line and file.
//
//vp:quick=60 thorough=60 reach=in,out,special
func C21_class() {
	c := classes[forkOn("class", len(classes))]
	f := internal.VerifClass[c.name]
	switch forkOn("kind", 3) {
	case 0:
		b := sym.Byte("char")
		if sym.In(b, c.set) {
			sym.Reach("in")
		} else {
			sym.Reach("out")
		}
		if f(string([]byte{b})) != sym.In(b, c.set) {
			sym.Fail(c.name + " is wrong about byte " + strconv.Itoa(int(b)))
		}
	case 1:
		s := sym.Bytes("char", 2+forkOn("more", 2))
		sym.Assume(s[0] >= 0x80)
		if f(s) {
			sym.Fail(c.name + " accepts " + strconv.Quote(s))
		}
	case 2:
		s := sym.Pick("mark", "", "<EOL>", "<EOF>")
		sym.Reach("special")
		if f(s) {
			sym.Fail(c.name + " accepts " + strconv.Quote(s))
		}
	}
}

func inAll(s, set string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.In(s[i], set))
	}
	return ok
}

// Names of arguments and variables of up to four bytes.
//
//vp:quick=60 thorough=60 reach=argument,variable,scope
func C21_names() {
	s := sym.Bytes("name", forkOn("length", 5))
	arg := s != "" && inAll(s[:1], lowers+uppers+"_") && inAll(s, digits+lowers+uppers+"_")
	if arg {
		sym.Reach("argument")
	}
	if internal.VerifIsArgName(s) != arg {
		sym.Fail("isargname is wrong about " + strconv.Quote(s))
	}
	rest, scoped := s, false
	if len(s) > 1 && s[1] == ':' && inAll(s[:1], "vgslabwt") {
		rest, scoped = s[2:], true
	}
	v := scoped && rest == "" || rest != "" && inAll(rest[:1], lowers+uppers+"_") && inAll(rest, digits+lowers+uppers+"_#")
	if v && scoped {
		sym.Reach("scope")
	} else if v {
		sym.Reach("variable")
	}
	if internal.VerifIsVarName(s) != v {
		sym.Fail("isvarname is wrong about " + strconv.Quote(s))
	}
}

// Splitting into characters, and escaping characters.
//
//vp:quick=60 thorough=60 reach=split,escaped,unescaped
func C21_split() {
	s := sym.Bytes("string", forkOn("length", 5))
	l := internal.VerifSplit(s)
	sym.Reach("split")
	if strings.Join(l, "") != s {
		sym.Fail("the characters of " + strconv.Quote(s) + " are " + strconv.Quote(strings.Join(l, "|")))
	}
	for _, c := range l {
		if len(c) == 0 || len(c) > 1 && utf8.RuneCountInString(c) != 1 || len(c) > 1 && !utf8.ValidString(c) {
			sym.Fail("a character of " + strconv.Quote(s) + " is " + strconv.Quote(c))
		}
	}
	// no character is torn
	n := 0
	for range s {
		n++
	}
	if n != len(l) {
		sym.Fail(strconv.Quote(s) + " has " + strconv.Itoa(len(l)) + " characters")
	}
	want := ""
	for i := 0; i < len(s); i++ {
		if sym.In(s[i], "\\'|") {
			want += "\\"
			sym.Reach("escaped")
		} else {
			sym.Reach("unescaped")
		}
		want += s[i : i+1]
	}
	eq("escaped form", s, internal.VerifEscape(s, "\\'|"), want)
}

// Numbers.
//
//vp:quick=60 thorough=60 reach=number,large
func C21_numbers() {
	base, set := 10, digits
	switch forkOn("base", 3) {
	case 1:
		base, set = 16, digits+"abcdefABCDEF"
	case 2:
		base, set = 8, "01234567"
	}
	s := sym.Pick("leading", "", "0", "00") + sym.BytesIn("digits", 1+forkOn("length", 3), set)
	want := 0
	for i := 0; i < len(s); i++ {
		d := int(s[i] - '0')
		if s[i] >= 'a' {
			d = int(s[i]-'a') + 10
		} else if s[i] >= 'A' {
			d = int(s[i]-'A') + 10
		}
		want = want*base + d
	}
	sym.Reach("number")
	if got := internal.VerifStr2nr(s, base); got != want {
		sym.Fail("the value of " + s + " in base " + strconv.Itoa(base) + " is " + strconv.Itoa(got))
	}
	if internal.VerifStr2nr("99999999999999999999"+s[:1], 10) != 1<<63-1 && base == 10 {
		sym.Fail("a number too large is not the largest")
	}
	sym.Reach("large")
}

// Searching in strings, and comparing them without case.
//
//vp:quick=60 thorough=60 reach=found,missing,equal,unequal
func C21_strings() {
	a, b := sym.BytesIn("a", forkOn("a", 5), "xyX"), sym.BytesIn("b", forkOn("b", 3), "xyX")
	want := -1
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			want = i
			break
		}
	}
	if want < 0 {
		sym.Reach("missing")
	} else {
		sym.Reach("found")
	}
	if internal.VerifStridx(a, b) != want {
		sym.Fail("index of " + b + " in " + a)
	}
	c, d := sym.Bytes("c", 2), sym.Bytes("d", 2)
	same := true
	for i := 0; i < 2; i++ {
		sym.Assume(sym.And(c[i] < 0x80, d[i] < 0x80))
		if c[i] == d[i] {
			continue
		}
		if !(c[i]|0x20 == d[i]|0x20 && sym.In(c[i], lowers+uppers)) {
			same = false
		}
	}
	if same {
		sym.Reach("equal")
	} else {
		sym.Reach("unequal")
	}
	if internal.VerifEqualci(c, d) != same {
		sym.Fail(strconv.Quote(c) + " and " + strconv.Quote(d) + " without case")
	}
	eq("joined", a, internal.VerifJoin([]string{a, b, c}, "|"), a+"|"+b+"|"+c)
	eq("printed", a, internal.VerifPrintf("%s: %s", a, b), a+": "+b)
}
