package main

import (
	"fmt"
	"os"
	"sort"
)

// A work item is a decision prefix together with a model that satisfies it.
type work struct {
	prefix []int32
	model  []byte
	depth  int
}

// path is the state of the path being executed.
type path struct {
	prefix  []int32
	pos     int
	trace   []int32
	model   []byte
	nvars   int
	varDef  []byte
	labels  []varLabel
	dom     []Set256
	resid   []*Term    // multi-variable constraints
	residOf [][]int32  // per variable: indices into resid
	pc      []*Term    // all constraints in order
	domT    []*Term    // per variable: conjunction of the single-variable constraints
	claims  []certItem // infeasibility verdicts reached without z3
	forks   []work
	obs     []obsItem
	reach   []string
	failed  *failure
	steps   int64
	gwrites []string
	swrites []string
	noFork  bool
	dbg     []string
}

var dbgTrace = os.Getenv("VP_TRACE") != ""

type varLabel struct {
	Label string
	N     int // 0: byte, else choice below N
}

type obsItem struct {
	label string
	v     Value
}

type failure struct {
	msg  string
	args []Value
}

// host panics that end a path
type pathEnd struct {
	kind string // "assume", "fail", "unsupported", "steps", "unknown", "exit"
	msg  string
}

func (m *Machine) abort(kind, msg string, args ...any) {
	panic(&pathEnd{kind, fmt.Sprintf(msg, args...)})
}

func (m *Machine) newVar(label string, n int, def byte) *Term {
	p := m.p
	i := p.nvars
	p.nvars++
	if i >= len(p.model) {
		p.model = append(p.model, def)
		m.ts.SetModel(p.model)
	}
	p.labels = append(p.labels, varLabel{label, n})
	p.dom = append(p.dom, fullSet)
	p.domT = append(p.domT, nil)
	p.residOf = append(p.residOf, nil)
	return m.ts.Var(i)
}

func (m *Machine) setModel(mod []byte) {
	m.p.model = mod
	m.ts.SetModel(mod)
}

// addConstraint records that t (not constant) holds from here on.
func (m *Machine) addConstraint(t *Term) {
	p := m.p
	p.pc = append(p.pc, t)
	if t.v >= 0 {
		m.addPart(t)
		return
	}
	// split conjunctions of single-variable parts into domains
	if t.op == OBAnd {
		m.addPart(t.a)
		m.addPart(t.b)
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		m.addPart(m.ts.Not(t.a.a))
		m.addPart(m.ts.Not(t.a.b))
		return
	}
	m.addResid(t)
}

func (m *Machine) addPart(t *Term) {
	if t.isConst() {
		return
	}
	if t.v >= 0 {
		p := m.p
		p.dom[t.v] = p.dom[t.v].and(*m.ts.Truth(t))
		if d := p.domT[t.v]; d == nil {
			p.domT[t.v] = t
		} else {
			p.domT[t.v] = m.ts.mk(OBAnd, 0, 0, d, t, nil)
		}
		return
	}
	if t.op == OBAnd {
		m.addPart(t.a)
		m.addPart(t.b)
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		m.addPart(m.ts.Not(t.a.a))
		m.addPart(m.ts.Not(t.a.b))
		return
	}
	m.addResid(t)
}

func (m *Machine) addResid(t *Term) {
	p := m.p
	i := int32(len(p.resid))
	p.resid = append(p.resid, t)
	for _, v := range t.varList() {
		p.residOf[v] = append(p.residOf[v], i)
	}
}

// claim records that t contradicts the single-variable constraints on v; the
// solver confirms every such claim.
func (m *Machine) claim(v int32, t *Term) {
	d := m.p.domT[v]
	if d == nil {
		d = m.ts.True
	}
	m.p.claims = append(m.p.claims, certItem{d, t})
	m.stat.claims++
}

// prefOrder: values tried first as witnesses.
var prefOrder = func() []byte {
	var r []byte
	seen := Set256{}
	add := func(b byte) {
		if !seen.has(b) {
			seen.add(b)
			r = append(r, b)
		}
	}
	for _, b := range []byte("ax1 zZA0_|\"'\\:.,()[]{}<>=+-*/&#!?@$\t\n") {
		add(b)
	}
	for i := 32; i < 127; i++ {
		add(byte(i))
	}
	for i := 0; i < 256; i++ {
		add(byte(i))
	}
	return r
}()

// tryModel checks the residual constraints on the given variables under the
// candidate assignment.
func (m *Machine) residOK(vars []int32) bool {
	p := m.p
	for _, v := range vars {
		for _, i := range p.residOf[v] {
			if m.ts.Eval(p.resid[i]) == 0 {
				return false
			}
		}
	}
	return true
}

// feasible decides whether the path condition together with t has a solution.
// It returns the verdict, a model, and whether the verdict came from z3.
func (m *Machine) feasible(t *Term) (res int, model []byte, byZ3 bool) {
	p := m.p
	if t.v >= 0 {
		s := p.dom[t.v].and(*m.ts.Truth(t))
		if s.empty() {
			m.claim(t.v, t)
			return Unsat, nil, false
		}
		if mod := m.witness1(t.v, s); mod != nil {
			return Sat, mod, false
		}
	} else {
		// conjunction of single-variable literals
		lits := map[int32]Set256{}
		if m.litsOf(t, lits) {
			mod := append([]byte(nil), p.model...)
			vars := make([]int32, 0, len(lits))
			for v := range lits {
				vars = append(vars, v)
			}
			sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
			for _, v := range vars {
				s := lits[v].and(p.dom[v])
				if s.empty() {
					m.claim(v, t)
					return Unsat, nil, false
				}
				if !s.has(mod[v]) {
					for _, b := range prefOrder {
						if s.has(b) {
							mod[v] = b
							break
						}
					}
				}
			}
			m.ts.SetModel(mod)
			ok := m.residOK(vars)
			m.ts.SetModel(p.model)
			if ok {
				return Sat, mod, false
			}
		} else if t.op == OBOr || t.op == OBNot && t.a.op == OBAnd {
			// a disjunction: any satisfiable disjunct is a witness
			var ds []*Term
			if m.disjuncts(t, &ds) {
				all := true
				for _, d := range ds {
					s := p.dom[d.v].and(*m.ts.Truth(d))
					if s.empty() {
						continue
					}
					all = false
					if mod := m.witness1(d.v, s); mod != nil {
						return Sat, mod, false
					}
				}
				if all {
					for _, d := range ds {
						m.claim(d.v, d)
					}
					return Unsat, nil, false
				}
			}
		} else {
			// try changing one variable
			for _, v := range t.varList() {
				old := p.model[v]
				mod := append([]byte(nil), p.model...)
				n := 0
				for _, b := range prefOrder {
					if b == old || !p.dom[v].has(b) {
						continue
					}
					n++
					if n > 24 {
						break
					}
					mod[v] = b
					m.ts.SetModel(mod)
					if m.ts.Eval(t) != 0 && m.residOK([]int32{v}) {
						m.ts.SetModel(p.model)
						return Sat, mod, false
					}
				}
				m.ts.SetModel(p.model)
			}
		}
	}
	r, mod := m.sol.Check(p.pc, t, p.nvars, p.model)
	if r == Sat {
		// variables beyond nvars keep their defaults
		if len(mod) < len(p.model) {
			mod = append(mod, p.model[len(mod):]...)
		}
	}
	return r, mod, true
}

func (m *Machine) witness1(v int32, s Set256) []byte {
	p := m.p
	mod := append([]byte(nil), p.model...)
	if len(p.residOf[v]) == 0 {
		for _, b := range prefOrder {
			if s.has(b) {
				mod[v] = b
				return mod
			}
		}
	}
	n := 0
	vars := []int32{v}
	for _, b := range prefOrder {
		if !s.has(b) {
			continue
		}
		mod[v] = b
		m.ts.SetModel(mod)
		ok := m.residOK(vars)
		m.ts.SetModel(p.model)
		if ok {
			return mod
		}
		if n++; n > 40 {
			break
		}
	}
	return nil
}

func (m *Machine) litsOf(t *Term, lits map[int32]Set256) bool {
	if t.v >= 0 {
		s, ok := lits[t.v]
		if !ok {
			s = fullSet
		}
		lits[t.v] = s.and(*m.ts.Truth(t))
		return true
	}
	if t.op == OBAnd {
		return m.litsOf(t.a, lits) && m.litsOf(t.b, lits)
	}
	if t.op == OBNot && t.a.op == OBOr {
		return m.litsOf(m.ts.Not(t.a.a), lits) && m.litsOf(m.ts.Not(t.a.b), lits)
	}
	return false
}

func (m *Machine) disjuncts(t *Term, ds *[]*Term) bool {
	if t.v >= 0 {
		*ds = append(*ds, t)
		return true
	}
	if t.op == OBOr {
		return m.disjuncts(t.a, ds) && m.disjuncts(t.b, ds)
	}
	if t.op == OBNot && t.a.op == OBAnd {
		return m.disjuncts(m.ts.Not(t.a.a), ds) && m.disjuncts(m.ts.Not(t.a.b), ds)
	}
	return false
}

// decide picks a side for a branch on t; the other side, if feasible, becomes
// a work item.
func (m *Machine) decide(t *Term) bool {
	if t.op == OConst {
		return t.k != 0
	}
	if m.sum != nil {
		return m.sumDecide(t)
	}
	p := m.p
	if dbgTrace {
		p.dbg = append(p.dbg, m.where()+" "+t.String())
		defer func() { p.dbg = append(p.dbg, fmt.Sprint("  -> ", p.trace[len(p.trace)-1])) }()
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if m.replayCheck {
			if (m.ts.Eval(t) != 0) != (d == 1 || d == 3) {
				m.abort("unsupported", "replay diverged at decision %d: %v", p.pos, t)
			}
		}
		p.trace = append(p.trace, d)
		switch d {
		case 1:
			m.addConstraint(t)
			return true
		case 0:
			m.addConstraint(m.ts.Not(t))
			return false
		case 3: // implied
			return true
		default:
			return false
		}
	}
	m.stat.decisions++
	nt := m.ts.Not(t)
	take := m.ts.Eval(t) != 0
	other := nt
	this := t
	if !take {
		other, this = t, nt
	}
	res, mod, _ := m.feasible(other)
	switch res {
	case Sat:
		var od, td int32 = 0, 1
		if !take {
			od, td = 1, 0
		}
		pre := make([]int32, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = od
		p.forks = append(p.forks, work{prefix: pre, model: mod[:p.nvars:p.nvars]})
		p.trace = append(p.trace, td)
		m.addConstraint(this)
		return take
	case Unsat:
		if take {
			p.trace = append(p.trace, 3)
		} else {
			p.trace = append(p.trace, 2)
		}
		return take
	}
	m.stat.unknown++
	m.incomplete("solver gave up on a branch")
	if take {
		p.trace = append(p.trace, 1)
	} else {
		p.trace = append(p.trace, 0)
	}
	m.addConstraint(this)
	return take
}

// concretize fixes t to one value, leaving the others as work items.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if m.sum != nil {
		panic(sumFail{})
	}
	for k := 0; ; k++ {
		if k == 60 && dbgTrace {
			println("CONC", m.where(), t.String())
		}
		var c uint64
		if m.p.pos < len(m.p.prefix) {
			// the value tried is recorded before the decision
			lo := uint32(m.p.prefix[m.p.pos])
			hi := uint32(m.p.prefix[m.p.pos+1])
			c = uint64(lo) | uint64(hi)<<32
			m.p.pos += 2
			m.p.trace = append(m.p.trace, int32(lo), int32(hi))
		} else {
			c = m.ts.Eval(t)
			m.p.trace = append(m.p.trace, int32(uint32(c)), int32(uint32(c>>32)))
		}
		if m.decide(m.ts.Eq(t, m.ts.Const(c, t.w))) {
			return c
		}
	}
}

// assume restricts the path to t.
func (m *Machine) assume(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			m.abort("assume", "")
		}
		return
	}
	p := m.p
	if p.pos < len(p.prefix) {
		p.pos++
		p.trace = append(p.trace, 1)
		m.addConstraint(t)
		return
	}
	if m.ts.Eval(t) == 0 {
		res, mod, _ := m.feasible(t)
		if res != Sat {
			if res == Unknown {
				m.incomplete("solver gave up on an assumption")
			}
			m.abort("assume", "")
		}
		m.setModel(mod)
	}
	p.trace = append(p.trace, 1)
	m.addConstraint(t)
}

func (m *Machine) incomplete(why string) {
	m.stat.incomplete[why]++
}
