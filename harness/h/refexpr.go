package h

import "unicode/utf8"

// A reference parser for Vim expressions, written from Vim's eval.txt: it
// works on the bytes of one line and builds the canonical text of dumper.

type refErr struct {
	pos int
	odd bool // a blob with an odd number of digits ends the line
}

type rnode struct {
	kind string // as in dump: "id", "num", "(+", ...
	text string
	pos  int
	kids []*rnode
}

type rparser struct {
	s  string
	i  int
	lg *logical
}

func (p *rparser) fail() { panic(refErr{p.i, false}) }

func (p *rparser) at(k int) byte {
	if p.i+k < len(p.s) {
		return p.s[p.i+k]
	}
	return 0
}

// end tells that position i+k is past the line (a NUL byte in the text is not).
func (p *rparser) end(k int) bool { return p.i+k >= len(p.s) }

func isW(c byte) bool { return c == ' ' || c == '\t' }
func isD(c byte) bool { return c >= '0' && c <= '9' }
func isX(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isA(c byte) bool     { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isWord(c byte) bool  { return isA(c) || isD(c) || c == '_' }
func isName(c byte) bool  { return isWord(c) || c == ':' || c == '#' }
func isName1(c byte) bool { return isA(c) || c == '_' }

func (p *rparser) ws() {
	for isW(p.at(0)) {
		p.i++
	}
}

func (p *rparser) has(t string) bool {
	return len(p.s)-p.i >= len(t) && p.s[p.i:p.i+len(t)] == t
}

func (p *rparser) n(kind string, pos int, kids ...*rnode) *rnode {
	return &rnode{kind: kind, pos: pos, kids: kids}
}

// op is the operator at the cursor, longest first; "" if there is none.
func (p *rparser) op() string {
	c := p.at(0)
	if p.end(0) {
		return ""
	}
	suffix := func(base string) string {
		switch p.at(len(base)) {
		case '?':
			return base + "?"
		case '#':
			return base + "#"
		}
		return base
	}
	d := p.at(1)
	switch c {
	case '|':
		if d == '|' {
			return "||"
		}
	case '&':
		if d == '&' {
			return "&&"
		}
	case '=':
		if d == '=' {
			return suffix("==")
		}
		if d == '~' {
			return suffix("=~")
		}
	case '!':
		if d == '=' {
			return suffix("!=")
		}
		if d == '~' {
			return suffix("!~")
		}
	case '>':
		if d == '=' {
			return suffix(">=")
		}
		return suffix(">")
	case '<':
		if d == '=' {
			return suffix("<=")
		}
		return suffix("<")
	case '+':
		return "+"
	case '-':
		if d == '>' {
			return "->"
		}
		return "-"
	case '*':
		return "*"
	case '/':
		return "/"
	case '%':
		return "%"
	case '.':
		if d == '.' && p.at(2) == '.' {
			return "..."
		}
		if d == '.' {
			return ".."
		}
		return "."
	case '?':
		return "?"
	case 'i':
		if d == 's' {
			if !isWord(p.at(2)) {
				return suffix("is")
			}
			if p.has("isnot") && !isWord(p.at(5)) {
				return suffix("isnot")
			}
		}
	}
	return ""
}

func level(op string) int {
	switch op {
	case "||":
		return 2
	case "&&":
		return 3
	case "+", "-", ".", "..":
		return 5
	case "*", "/", "%":
		return 6
	case "", "?", "->", "...":
		return 0
	}
	return 4
}

func (p *rparser) expr1() *rnode {
	c := p.binary(2)
	save := p.i
	p.ws()
	if p.op() == "?" {
		pos := p.i
		p.i++
		l := p.expr1()
		p.ws()
		if p.at(0) != ':' {
			p.fail()
		}
		p.i++
		r := p.expr1()
		return p.n("?", pos, c, l, r)
	}
	p.i = save
	return c
}

// binary parses levels lv..6 by climbing.
func (p *rparser) binary(lv int) *rnode {
	if lv > 6 {
		return p.unary()
	}
	l := p.binary(lv + 1)
	for {
		save := p.i
		p.ws()
		o := p.op()
		if level(o) != lv {
			p.i = save
			return l
		}
		pos := p.i
		p.i += len(o)
		r := p.binary(lv + 1)
		if o == ".." {
			o = "."
		}
		l = p.n(o, pos, l, r)
		if lv == 4 {
			return l // comparisons do not chain
		}
	}
}

func (p *rparser) unary() *rnode {
	p.ws()
	c := p.at(0)
	if c == '!' && p.at(1) != '=' && p.at(1) != '~' || c == '-' && p.at(1) != '>' || c == '+' {
		pos := p.i
		p.i++
		x := p.unary()
		return p.n("u"+string(rune(c)), pos, x)
	}
	return p.postfix()
}

func (p *rparser) postfix() *rnode {
	l := p.atom()
	for {
		white := isW(p.at(0))
		save := p.i
		p.ws()
		pos := p.i
		if p.end(0) {
			p.i = save
			return l
		}
		switch {
		case p.at(0) == '[' && !white:
			p.i++
			p.ws()
			var lo, hi *rnode
			slice := false
			if p.at(0) == ':' {
				slice = true
				p.i++
			} else {
				lo = p.expr1()
				p.ws()
				if p.at(0) == ':' {
					slice = true
					p.i++
				}
			}
			p.ws()
			if slice && p.at(0) != ']' {
				hi = p.expr1()
				p.ws()
			}
			if p.at(0) != ']' {
				p.fail()
			}
			p.i++
			if slice {
				l = p.n("slice", pos, l, lo, hi)
			} else {
				l = p.n("sub", pos, l, lo)
			}
		case p.at(0) == '(':
			p.i++
			l = p.n("call", pos, append([]*rnode{l}, p.args()...)...)
		case p.op() == "->":
			p.i += 2
			m := p.atom()
			if m.kind != "id" && m.kind != "curly" && m.kind != "lambda" && m.kind != "paren" {
				p.fail()
			}
			p.ws()
			pos = p.i
			if p.at(0) != '(' {
				p.fail()
			}
			p.i++
			l = p.n("method", pos, append([]*rnode{l, m}, p.args()...)...)
		case p.op() == "." && !white && isWord(p.at(1)) &&
			(l.kind == "id" || l.kind == "curly" || l.kind == "dict" || l.kind == "sub" || l.kind == "call" || l.kind == "dot"):
			j := p.i + 1
			for j < len(p.s) && isWord(p.s[j]) {
				j++
			}
			if j < len(p.s) && isName(p.s[j]) {
				p.i = save
				return l
			}
			id := &rnode{kind: "id", text: p.s[p.i+1 : j], pos: p.i + 1}
			p.i = j
			l = p.n("dot", pos, l, id)
		default:
			p.i = save
			return l
		}
	}
}

func (p *rparser) args() []*rnode {
	l := p.seq(')')
	if len(l) > 20 {
		p.fail()
	}
	return l
}

// seq: expr1, expr1, ... with an optional last comma, up to close.
func (p *rparser) seq(close byte) []*rnode {
	var l []*rnode
	p.ws()
	for p.at(0) != close {
		l = append(l, p.expr1())
		p.ws()
		if p.at(0) == ',' {
			p.i++
			p.ws()
		} else if p.at(0) != close {
			p.fail()
		}
	}
	p.i++
	return l
}

func (p *rparser) blob() {
	p.i += 2
	for !p.end(0) && isX(p.at(0)) {
		if !isX(p.at(1)) {
			panic(refErr{p.i, p.end(1)})
		}
		p.i += 2
		if p.at(0) == '.' && isX(p.at(1)) {
			p.i++
		}
	}
}

func (p *rparser) digits() {
	for isD(p.at(0)) {
		p.i++
	}
}

func (p *rparser) words() {
	for isWord(p.at(0)) {
		p.i++
	}
}

func (p *rparser) lit(kind string, pos int) *rnode {
	return &rnode{kind: kind, text: p.s[pos:p.i], pos: pos}
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func (p *rparser) sid() bool {
	return p.at(0) == '<' && lower(p.at(1)) == 's' && lower(p.at(2)) == 'i' && lower(p.at(3)) == 'd' && p.at(4) == '>'
}

func (p *rparser) atom() *rnode {
	p.ws()
	pos := p.i
	if p.end(0) {
		p.fail()
	}
	c := p.at(0)
	switch {
	case isD(c):
		d := lower(p.at(1))
		switch {
		case c == '0' && d == 'x' && isX(p.at(2)):
			p.i += 2
			for isX(p.at(0)) {
				p.i++
			}
		case c == '0' && d == 'b' && (p.at(2) == '0' || p.at(2) == '1'):
			p.i += 2
			for p.at(0) == '0' || p.at(0) == '1' {
				p.i++
			}
		case c == '0' && d == 'z' && p.at(2) != '.':
			p.blob()
			return p.lit("blob", pos)
		default:
			p.digits()
			if p.at(0) == '.' && isD(p.at(1)) {
				p.i++
				p.digits()
				if lower(p.at(0)) == 'e' {
					k := 1
					if p.at(1) == '+' || p.at(1) == '-' {
						k = 2
					}
					if isD(p.at(k)) {
						p.i += k
						p.digits()
					}
				}
			}
		}
		return p.lit("num", pos)
	case c == '"':
		p.i++
		for {
			if p.end(0) {
				p.fail()
			}
			if p.at(0) == '\\' {
				p.i++
				if p.end(0) {
					p.fail()
				}
			} else if p.at(0) == '"' {
				break
			}
			p.i++
		}
		p.i++
		return p.lit("str", pos)
	case c == '\'':
		p.i++
		for {
			if p.end(0) {
				p.fail()
			}
			if p.at(0) == '\'' {
				if p.at(1) != '\'' {
					break
				}
				p.i++
			}
			p.i++
		}
		p.i++
		return p.lit("str", pos)
	case c == '[':
		p.i++
		return p.n("list", pos, p.seq(']')...)
	case c == '(':
		p.i++
		x := p.expr1()
		p.ws()
		if p.at(0) != ')' {
			p.fail()
		}
		p.i++
		return p.n("paren", pos, x)
	case c == '{':
		return p.brace()
	case c == '#' && p.at(1) == '{':
		p.i += 2
		return p.dict(pos, true)
	case c == '&':
		if p.at(1) == '&' {
			p.fail()
		}
		p.i++
		if (p.at(0) == 'g' || p.at(0) == 'l') && p.at(1) == ':' {
			p.i += 2
		}
		start := p.i
		p.words()
		if p.i == start {
			p.fail()
		}
		return p.lit("opt", pos)
	case c == '$':
		p.i++
		p.words()
		if p.i == pos+1 {
			p.fail()
		}
		return p.lit("env", pos)
	case c == '@':
		p.i++
		if !p.end(0) {
			// a character does not span lines
			k := p.i + 1
			for k < len(p.s) && (p.lg.off == nil || p.lg.off[k] == p.lg.off[k-1]+1) {
				k++
			}
			_, w := utf8.DecodeRuneInString(p.s[p.i:k])
			p.i += w
		}
		return p.lit("reg", pos)
	case isName1(c) || p.sid():
		return p.name()
	}
	p.fail()
	return nil
}

// name: literal characters and {expr} parts without space between.
func (p *rparser) name() *rnode {
	n := &rnode{kind: "curly", pos: p.i}
	if p.sid() {
		p.i += 5
		n.kids = append(n.kids, p.lit("lit", n.pos))
	}
	for !p.end(0) {
		start := p.i
		if isName(p.at(0)) {
			for isName(p.at(0)) {
				p.i++
			}
			n.kids = append(n.kids, p.lit("lit", start))
		} else if p.at(0) == '{' {
			p.i++
			x := p.expr1()
			p.ws()
			if p.at(0) != '}' {
				p.fail()
			}
			p.i++
			n.kids = append(n.kids, p.n("{", start, x))
		} else {
			break
		}
	}
	if len(n.kids) == 1 && n.kids[0].kind == "lit" {
		return &rnode{kind: "id", text: n.kids[0].text, pos: n.pos}
	}
	return n
}

// ident reads a name for a lambda parameter, "" if there is none.
func (p *rparser) ident() string {
	start := p.i
	if isName1(p.at(0)) {
		for isName(p.at(0)) {
			p.i++
		}
	}
	return p.s[start:p.i]
}

func isArg(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isWord(s[i]) {
			return false
		}
	}
	return len(s) > 0 && !isD(s[0])
}

func (p *rparser) brace() *rnode {
	pos := p.i
	// a lambda is recognised by what follows its first argument
	p.i++
	p.ws()
	look := p.i
	lambda := p.has("->")
	if !lambda {
		if p.has("...") {
			p.i += 3
			p.ws()
			lambda = p.has("->")
		} else if p.ident() != "" {
			p.ws()
			lambda = p.has("->") || p.at(0) == ','
		}
	}
	p.i = look
	if lambda {
		return p.lambda(pos)
	}
	x := p.dict(pos, false)
	return x
}

func (p *rparser) lambda(pos int) *rnode {
	n := &rnode{kind: "lambda", pos: pos}
	for {
		p.ws()
		if p.has("->") {
			break
		}
		start := p.i
		if p.has("...") {
			p.i += 3
			n.kids = append(n.kids, &rnode{kind: "id", text: "...", pos: start})
			p.ws()
			if !p.has("->") {
				p.fail()
			}
			break
		}
		id := p.ident()
		if !isArg(id) {
			p.fail()
		}
		for _, k := range n.kids {
			if k.text == id {
				p.fail()
			}
		}
		n.kids = append(n.kids, &rnode{kind: "id", text: id, pos: start})
		if p.at(0) == ',' {
			p.i++
			continue
		}
		p.ws()
		if !p.has("->") {
			p.fail() // including white space before a comma
		}
	}
	p.i += 2
	x := p.expr1()
	p.ws()
	if p.at(0) != '}' {
		p.fail()
	}
	p.i++
	n.kids = append(n.kids, x)
	return n
}

func (p *rparser) dict(pos int, litkeys bool) *rnode {
	n := &rnode{kind: "dict", pos: pos}
	p.ws()
	for first := true; p.at(0) != '}'; first = false {
		var k *rnode
		if litkeys {
			start := p.i
			for isA(p.at(0)) || isD(p.at(0)) || p.at(0) == '_' || p.at(0) == '-' {
				p.i++
			}
			if p.i == start {
				p.fail()
			}
			k = &rnode{kind: "str", text: "'" + p.s[start:p.i] + "'", pos: start}
		} else {
			k = p.expr1()
		}
		p.ws()
		if p.at(0) == '}' && first && !litkeys {
			p.i = pos
			return p.name()
		}
		if p.at(0) != ':' {
			p.fail()
		}
		p.i++
		v := p.expr1()
		n.kids = append(n.kids, k, v)
		p.ws()
		if p.at(0) == ',' {
			p.i++
			p.ws()
		} else if p.at(0) != '}' {
			p.fail()
		}
	}
	p.i++
	return n
}

// refExpr parses the expression at the start of s.
func refExpr(s string) (n *rnode, end int, ok bool) {
	n, end, why := refExprWhy(s)
	return n, end, why == ""
}

const oddBlob = "a blob with an odd number of digits at the end of the line"

// refExprWhy is like refExpr with the reason of a rejection.
func refExprWhy(s string) (n *rnode, end int, why string) {
	return refExprAt(&logical{s: s}, 0)
}

// refExprAt parses the expression at byte i of a line.
func refExprAt(lg *logical, i int) (n *rnode, end int, why string) {
	defer func() {
		if r := recover(); r != nil {
			e, is := r.(refErr)
			if !is {
				panic(r)
			}
			n, end, why = nil, e.pos, "no expression"
			if e.odd {
				why = oddBlob
			}
		}
	}()
	p := &rparser{s: lg.s, i: i, lg: lg}
	n = p.expr1()
	return n, p.i, ""
}

func (n *rnode) at(lg *logical) string {
	if lg == nil {
		return ""
	}
	return lg.at(n.pos)
}

func rlist(l []*rnode, lg *logical) string {
	s := "["
	for i, k := range l {
		if i > 0 {
			s += " "
		}
		s += k.dump(lg)
	}
	return s + "]"
}

// dump is the text dumper gives for the same tree; lg is the line that it was
// parsed from, nil leaves positions out.
func (n *rnode) dump(lg *logical) string {
	if n == nil {
		return "nil"
	}
	a := n.at(lg)
	switch n.kind {
	case "id", "num", "str", "blob", "opt", "env", "reg", "lit":
		return n.kind + a + "<" + n.text + ">"
	case "list":
		return "(list" + a + rlist(n.kids, lg) + ")"
	case "call":
		return "(call" + a + " " + n.kids[0].dump(lg) + rlist(n.kids[1:], lg) + ")"
	case "method":
		return "(method" + a + " " + n.kids[0].dump(lg) + " " + n.kids[1].dump(lg) + rlist(n.kids[2:], lg) + ")"
	case "dot":
		return "(dot" + a + " " + n.kids[0].dump(lg) + " " + n.kids[1].text + n.kids[1].at(lg) + ")"
	case "lambda":
		s := "(lambda" + a + "["
		last := len(n.kids) - 1
		for i, k := range n.kids[:last] {
			if i > 0 {
				s += " "
			}
			s += k.text + k.at(lg)
		}
		return s + "] " + n.kids[last].dump(lg) + ")"
	case "dict":
		s := "(dict" + a
		for i := 0; i < len(n.kids); i += 2 {
			s += " " + n.kids[i].dump(lg) + ":" + n.kids[i+1].dump(lg)
		}
		return s + ")"
	case "{":
		return "{" + a + " " + n.kids[0].dump(lg) + "}"
	}
	s := "(" + n.kind + a
	for _, k := range n.kids {
		s += " " + k.dump(lg)
	}
	return s + ")"
}
