package main

import (
	"regexp"
	"regexp/syntax"
)

// A regular expression match is turned into one boolean term over the input
// bytes by simulating the compiled program (regexp/syntax) symbolically.

type reProg struct {
	prog *syntax.Prog
	host *regexp.Regexp
	clos [][]reEdge // epsilon closure of each instruction
}

type reEdge struct {
	pc int
	ew syntax.EmptyOp // all of these must hold
}

var hostCache = map[string]*regexp.Regexp{}

func hostRe(p string) *regexp.Regexp {
	progMu.Lock()
	defer progMu.Unlock()
	if r, ok := hostCache[p]; ok {
		return r
	}
	r := regexp.MustCompile(p)
	hostCache[p] = r
	return r
}

func reCompile(m *Machine, a []Value) Value {
	s := m.mustStr(a[0], "regexp")
	if _, err := regexp.Compile(s); err != nil {
		m.rtPanic("regexp: Compile(%q): %v", s, err)
	}
	c := &m.cells(1)[0]
	*c = Value{P: &reHandle{s}}
	return Value{P: c}
}

type reHandle struct{ pat string }

func (m *Machine) rePat(v Value) string {
	h, ok := m.ptr(v).P.(*reHandle)
	if !ok {
		m.unsupported("regexp value")
	}
	return h.pat
}

func (m *Machine) reProg(pat string) *reProg {
	if p, ok := m.reCache[pat]; ok {
		return p
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		m.unsupported("regexp %q", pat)
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		m.unsupported("regexp %q", pat)
	}
	p := &reProg{prog: prog, clos: make([][]reEdge, len(prog.Inst))}
	for from := range prog.Inst {
		seen := map[reEdge]bool{}
		var walk func(pc int, ew syntax.EmptyOp)
		walk = func(pc int, ew syntax.EmptyOp) {
			e := reEdge{pc, ew}
			if seen[e] {
				return
			}
			seen[e] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(int(in.Out), ew)
				walk(int(in.Arg), ew)
			case syntax.InstCapture, syntax.InstNop:
				walk(int(in.Out), ew)
			case syntax.InstEmptyWidth:
				walk(int(in.Out), ew|syntax.EmptyOp(in.Arg))
			case syntax.InstFail:
			default:
				p.clos[from] = append(p.clos[from], e)
			}
		}
		walk(from, 0)
	}
	m.reCache[pat] = p
	return p
}

func (m *Machine) reMatch(pat string, s Value) Value {
	if c, ok := s.P.(string); ok {
		return mkBool(hostRe(pat).MatchString(c))
	}
	p := m.reProg(pat)
	ts := m.ts
	var runes []*Term
	n := strLen(s)
	for i := 0; i < n; {
		r, sz := m.decodeRune(s, i)
		runes = append(runes, m.toTerm(r, 32))
		i += sz
	}
	word := func(i int) *Term {
		if i < 0 || i >= len(runes) {
			return ts.False
		}
		return m.runeIn(runes[i], []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
	}
	empty := func(ew syntax.EmptyOp, pos int) *Term {
		r := ts.True
		and := func(t *Term) { r = ts.And(r, t) }
		nl := func(i int) *Term { return ts.Eq(runes[i], ts.Const('\n', 32)) }
		if ew&syntax.EmptyBeginText != 0 {
			and(ts.Bool(pos == 0))
		}
		if ew&syntax.EmptyEndText != 0 {
			and(ts.Bool(pos == len(runes)))
		}
		if ew&syntax.EmptyBeginLine != 0 && pos > 0 {
			and(nl(pos - 1))
		}
		if ew&syntax.EmptyEndLine != 0 && pos < len(runes) {
			and(nl(pos))
		}
		if ew&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			a, b := word(pos-1), word(pos)
			x := ts.Or(ts.And(a, ts.Not(b)), ts.And(ts.Not(a), b))
			if ew&syntax.EmptyWordBoundary != 0 {
				and(x)
			}
			if ew&syntax.EmptyNoWordBoundary != 0 {
				and(ts.Not(x))
			}
		}
		return r
	}
	match := ts.False
	cur := map[int]*Term{}
	var order []int
	add := func(set map[int]*Term, ord *[]int, pc int, cond *Term, pos int) {
		for _, e := range p.clos[pc] {
			c := cond
			if e.ew != 0 {
				c = ts.And(c, empty(e.ew, pos))
			}
			if c.isFalse() {
				continue
			}
			if p.prog.Inst[e.pc].Op == syntax.InstMatch {
				match = ts.Or(match, c)
				continue
			}
			if old, ok := set[e.pc]; ok {
				set[e.pc] = ts.Or(old, c)
			} else {
				set[e.pc] = c
				*ord = append(*ord, e.pc)
			}
		}
	}
	for pos := 0; ; pos++ {
		add(cur, &order, p.prog.Start, ts.True, pos)
		if pos == len(runes) || match.isTrue() {
			break
		}
		next := map[int]*Term{}
		var nord []int
		for _, pc := range order {
			in := &p.prog.Inst[pc]
			var c *Term
			r := runes[pos]
			switch in.Op {
			case syntax.InstRuneAny:
				c = ts.True
			case syntax.InstRuneAnyNotNL:
				c = ts.Not(ts.Eq(r, ts.Const('\n', 32)))
			case syntax.InstRune1:
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					m.unsupported("case-folding regexp %q", pat)
				}
				c = ts.Eq(r, ts.Const(uint64(in.Rune[0]), 32))
			case syntax.InstRune:
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					m.unsupported("case-folding regexp %q", pat)
				}
				rs := in.Rune
				if len(rs) == 1 {
					rs = []rune{rs[0], rs[0]}
				}
				c = m.runeIn(r, rs)
			}
			c = ts.And(cur[pc], c)
			if !c.isFalse() {
				add(next, &nord, int(in.Out), c, pos+1)
			}
		}
		cur, order = next, nord
	}
	return m.termVal(match, false)
}

func (m *Machine) runeIn(r *Term, rs []rune) *Term {
	ts := m.ts
	c := ts.False
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := ts.Const(uint64(rs[i]), 32), ts.Const(uint64(rs[i+1]), 32)
		if lo == hi {
			c = ts.Or(c, ts.Eq(r, lo))
		} else {
			c = ts.Or(c, ts.And(ts.Bin(OUle, lo, r), ts.Bin(OUle, r, hi)))
		}
	}
	return c
}
