package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Calls to pure scalar functions with symbolic arguments are summarised: all
// their inner paths are explored and merged into one if-then-else term, so the
// caller does not fork once per inner path.

type sumFail struct{}

type summary struct {
	prefix []bool
	pos    int
	trace  []bool
	forks  [][]bool
	pc     *Term
	calls  int
}

var pureExtern = map[string]bool{
	"strings.Index": true, "(*regexp.Regexp).MatchString": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.IndexByte": true, "internal/bytealg.IndexByteString": true, "unicode/utf8.DecodeRuneInString": false,
}

func (m *Machine) isPure(f *Func, depth int) bool {
	if f.pure != 0 {
		return f.pure > 0
	}
	if f.native != nil {
		return pureExtern[f.name]
	}
	fn := f.fn
	f.pure = -1
	if depth > 4 || len(fn.Blocks) == 0 || len(fn.Blocks) > 40 || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	if _, _, ok := kindOf(res.At(0).Type()); !ok {
		return false
	}
	for _, p := range fn.Params {
		if _, _, ok := kindOf(p.Type()); !ok && !isString(p.Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false // no loops
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Slice, *ssa.DebugRef, *ssa.Panic, *ssa.MakeInterface, *ssa.Lookup, *ssa.Index:
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if _, ok := in.X.(*ssa.Global); !ok {
						return false
					}
				}
			case *ssa.Call:
				c := in.Call.StaticCallee()
				if c == nil {
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						continue
					}
					return false
				}
				if !m.isPure(m.fnOf(c), depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	f.pure = 1
	return true
}

func (m *Machine) trySummary(f *Func, args []Value) (Value, bool) {
	symb := false
	for _, a := range args {
		switch a.P.(type) {
		case *Term, *SymStr:
			symb = true
		}
	}
	if !symb || len(m.undo) > 0 || len(m.undoMaps) > 0 || !m.isPure(f, 0) {
		return Value{}, false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s", f.name)
	for _, a := range args {
		switch x := a.P.(type) {
		case *Term:
			fmt.Fprintf(&sb, "|t%d", x.id)
		case *SymStr:
			sb.WriteString("|s")
			for _, t := range x.t {
				fmt.Fprintf(&sb, ",%d", t.id)
			}
		case string:
			fmt.Fprintf(&sb, "|%q", x)
		default:
			fmt.Fprintf(&sb, "|n%d", a.N)
		}
	}
	key := sb.String()
	if v, ok := m.sumCache[key]; ok {
		if v.P == (sumFail{}) {
			return Value{}, false
		}
		return v, true
	}
	type leaf struct {
		pc *Term
		v  Value
	}
	var leaves []leaf
	w, sg, _ := kindOf(f.fn.Signature.Results().At(0).Type())
	todo := [][]bool{nil}
	ok := func() (ok bool) {
		s := &summary{}
		depth, sp, cur, stack := m.depth, m.sp, len(m.curFn), m.stack
		defer func() {
			m.sum = nil
			if r := recover(); r != nil {
				if _, is := r.(sumFail); is {
					m.depth, m.sp, m.stack = depth, sp, stack
					m.curFn = m.curFn[:cur]
					ok = false
					return
				}
				panic(r)
			}
		}()
		for len(todo) > 0 {
			s.prefix = todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			s.pos, s.trace, s.pc, s.forks = 0, nil, m.ts.True, nil
			m.sum = s
			v := m.call(f, args, nil)
			leaves = append(leaves, leaf{s.pc, v})
			todo = append(todo, s.forks...)
			if len(leaves) > 200 {
				return false
			}
		}
		return true
	}()
	if !ok || len(leaves) == 0 {
		m.sumCache[key] = Value{P: sumFail{}}
		return Value{}, false
	}
	res := m.toTerm(leaves[len(leaves)-1].v, w)
	for i := len(leaves) - 2; i >= 0; i-- {
		res = m.ts.Ite(leaves[i].pc, m.toTerm(leaves[i].v, w), res)
	}
	v := m.termVal(res, sg)
	m.sumCache[key] = v
	return v, true
}

func (m *Machine) sumDecide(t *Term) bool {
	s := m.sum
	ts := m.ts
	yes, no := ts.And(s.pc, t), ts.And(s.pc, ts.Not(t))
	var d bool
	switch {
	case no.isFalse():
		return true
	case yes.isFalse():
		return false
	case s.pos < len(s.prefix):
		d = s.prefix[s.pos]
		s.pos++
	default:
		d = true
		s.forks = append(s.forks, append(append([]bool(nil), s.trace...), false))
	}
	s.trace = append(s.trace, d)
	if d {
		s.pc = yes
	} else {
		s.pc = no
	}
	return d
}
