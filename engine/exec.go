package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Machine struct {
	prog        *ssa.Program
	ts          *Terms
	sol         *Solver
	funcs       map[*ssa.Function]*Func
	globals     map[*ssa.Global]*Value
	globName    map[*Value]string
	shapes      map[types.Type]*aggShape
	rtypes      typeutil.Map
	rtlist      []*RType
	msets       map[methKey]*Func
	implC       map[implKey]bool
	slabs       [][]Value
	slabUsed    int
	inInit      bool
	undo        []undoRec
	sharing     bool
	shSlabs     [][]Value
	shFree      []Value
	undoMaps    []undoMap
	stack       []Value
	sp          int
	depth       int
	maxSteps    int64
	p           *path
	stat        *stats
	sum         *summary
	sumCache    map[string]Value
	runeSrc     map[*Term][]*Term
	claimSeen   map[[2]int32]bool
	pending     []certItem
	replayCheck bool
	curFn       []*Func
	freeze      bool
	reCache     map[string]*reProg
	files       map[string]string
	pools       map[*Value][]Value
	sideTab     map[*Value]any
	trace       bool
	hooksOff    bool
	panicking   []*frame
}

type methKey struct {
	t    *RType
	name string
}
type implKey struct {
	t *RType
	i types.Type
}
type undoRec struct {
	p   *Value
	old Value
}
type undoMap struct {
	m   *Map
	old Map
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v       Value // interface value
	runtime bool
	msg     string
}

type frame struct {
	f      *Func
	regs   []Value
	defers []deferred
	panic  *targetPanic
	recov  bool
	result Value
}

type deferred struct {
	ci   *callInfo
	fnv  Value
	args []Value
}

const slabSize = 1 << 18

func (m *Machine) cells(n int) []Value {
	if !m.inInit {
		if m.sharing {
			// remembered, to notice later writes
			if n > len(m.shFree) {
				m.shFree = make([]Value, max(n, 1024))
				m.shSlabs = append(m.shSlabs, m.shFree)
			}
			r := m.shFree[:n:n]
			m.shFree = m.shFree[n:]
			return r
		}
		return make([]Value, n)
	}
	if n > slabSize/4 {
		s := make([]Value, n)
		// keep the current slab last
		m.slabs = append([][]Value{s}, m.slabs...)
		return s
	}
	if len(m.slabs) == 0 || m.slabUsed+n > slabSize {
		m.slabs = append(m.slabs, make([]Value, slabSize))
		m.slabUsed = 0
	}
	s := m.slabs[len(m.slabs)-1]
	r := s[m.slabUsed : m.slabUsed+n : m.slabUsed+n]
	m.slabUsed += n
	return r
}

func (m *Machine) isFrozen(p *Value) bool { return inSlabs(m.slabs, p) }

// noteShared notes a write to memory that was allocated while sharing.
func (m *Machine) noteShared(p *Value) {
	if !m.sharing && inSlabs(m.shSlabs, p) {
		m.noteWrite(&m.p.swrites, p)
	}
}

func inSlabs(slabs [][]Value, p *Value) bool {
	a := uintptr(unsafe.Pointer(p))
	for _, s := range slabs {
		b := uintptr(unsafe.Pointer(&s[0]))
		if a >= b && a < b+uintptr(len(s))*unsafe.Sizeof(Value{}) {
			return true
		}
	}
	return false
}

func (m *Machine) store(p *Value, v Value) {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if !m.inInit && m.isFrozen(p) {
		m.undo = append(m.undo, undoRec{p, *p})
		m.noteGlobalWrite(p)
	}
	if m.shSlabs != nil {
		m.noteShared(p)
	}
	*p = v
}

func (m *Machine) noteGlobalWrite(p *Value) {
	if m.p != nil {
		m.noteWrite(&m.p.gwrites, p)
	}
}

func (m *Machine) noteWrite(to *[]string, p *Value) {
	if m.p == nil || m.hooksOff {
		return
	}
	// attribute to the innermost repository function on the stack
	for i := len(m.curFn) - 1; i >= 0; i-- {
		f := m.curFn[i]
		if f.repo {
			n := f.name
			if g, ok := m.globName[p]; ok {
				n += " writes " + g
			}
			*to = append(*to, n)
			return
		}
		if !f.harness && f.fn.Package() != nil {
			continue
		}
		return
	}
}

func (m *Machine) touchMap(mp *Map) {
	if mp.shared && !m.sharing {
		m.noteWrite(&m.p.swrites, nil)
	}
	if mp.frozen && !m.inInit {
		old := *mp
		old.idx = make(map[any]int, len(mp.idx))
		for k, v := range mp.idx {
			old.idx[k] = v
		}
		old.ents = append([]mapEnt(nil), mp.ents...)
		m.undoMaps = append(m.undoMaps, undoMap{mp, old})
		mp.frozen = false
		m.noteGlobalWrite(nil)
	}
}

func (m *Machine) restore() {
	m.sharing, m.shSlabs, m.shFree = false, nil, nil
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
	}
	m.undo = m.undo[:0]
	for i := len(m.undoMaps) - 1; i >= 0; i-- {
		*m.undoMaps[i].m = m.undoMaps[i].old
		m.undoMaps[i].m.frozen = true
	}
	m.undoMaps = m.undoMaps[:0]
}

func (m *Machine) rtype(t types.Type) *RType {
	if x := m.rtypes.At(t); x != nil {
		return x.(*RType)
	}
	r := &RType{id: len(m.rtlist), t: t}
	if b, ok := t.Underlying().(*types.Basic); ok {
		r.kind = b.Kind()
	}
	r.cmp = types.Comparable(t)
	m.rtlist = append(m.rtlist, r)
	m.rtypes.Set(t, r)
	return r
}

// panics

func (m *Machine) stdType(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		return types.Typ[types.String]
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return types.Typ[types.String]
	}
	return o.Type()
}

func (m *Machine) rtPanic(msg string, args ...any) {
	if m.sum != nil {
		panic(sumFail{})
	}
	s := fmt.Sprintf(msg, args...)
	t := m.rtype(m.stdType("runtime", "errorString"))
	panic(&targetPanic{v: Value{P: &Iface{t, mkStr(s)}}, runtime: true, msg: s + " at " + m.where()})
}

func (m *Machine) where() string {
	var s []string
	for i := len(m.curFn) - 1; i >= 0 && len(s) < 6; i-- {
		s = append(s, m.curFn[i].name)
	}
	return strings.Join(s, " < ")
}

func (m *Machine) unsupported(format string, args ...any) {
	if m.sum != nil {
		panic(sumFail{})
	}
	m.abort("unsupported", "%s in %s", fmt.Sprintf(format, args...), m.where())
}

// calls

func (m *Machine) call(f *Func, args []Value, free []Value) (res Value) {
	if f.native != nil {
		return f.native(m, args)
	}
	if !f.compiled {
		m.compile(f)
	}
	if len(f.blocks) == 0 {
		m.unsupported("function without body %s", f.name)
	}
	if m.depth > 6000 {
		m.abort("steps", "call depth")
	}
	if f.pure >= 0 && m.sum == nil && m.p != nil && !f.harness {
		if v, ok := m.trySummary(f, args); ok {
			return v
		}
	}
	m.depth++
	m.curFn = append(m.curFn, f)
	// registers
	if m.sp+f.nregs > len(m.stack) {
		n := 1 << 16
		if f.nregs > n {
			n = f.nregs
		}
		savedStack, savedSp := m.stack, m.sp
		m.stack, m.sp = make([]Value, n), 0
		defer func() { m.stack, m.sp = savedStack, savedSp }()
	}
	base := m.sp
	fr := frame{f: f, regs: m.stack[base : base+f.nregs : base+f.nregs]}
	m.sp += f.nregs
	copy(fr.regs, args)
	if len(free) > 0 {
		copy(fr.regs[f.nparams:], free)
	}
	if f.hasDefer {
		m.runDeferring(&fr)
	} else {
		m.runBlocks(&fr, f.blocks[0])
	}
	clear(fr.regs)
	m.sp = base
	m.depth--
	m.curFn = m.curFn[:len(m.curFn)-1]
	return fr.result
}

func (m *Machine) runDeferring(fr *frame) {
	depth, sp, cur, stack := m.depth, m.sp, len(m.curFn), m.stack
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			m.depth, m.sp, m.stack = depth, sp, stack
			m.curFn = m.curFn[:cur]
			fr.panic = tp
		}()
		m.runBlocks(fr, fr.f.blocks[0])
		done = true
	}()
	if done {
		return
	}
	// panicking: run the deferred calls
	m.runDefers(fr)
	if fr.panic != nil {
		panic(fr.panic)
	}
	// recovered
	if fr.f.recover != nil {
		m.runBlocks(fr, fr.f.recover)
	} else {
		fr.result = m.zero(fr.f.fn.Signature.Results())
		if fr.f.fn.Signature.Results().Len() == 1 {
			fr.result = m.zero(fr.f.fn.Signature.Results().At(0).Type())
		}
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sp, cur, stack := m.depth, m.sp, len(m.curFn), m.stack
		done := false
		func() {
			defer func() {
				if done {
					return
				}
				r := recover()
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				m.depth, m.sp, m.stack = depth, sp, stack
				m.curFn = m.curFn[:cur]
				fr.panic = tp
			}()
			m.panicking = append(m.panicking, fr)
			n := len(m.panicking)
			defer func() { m.panicking = m.panicking[:n-1] }()
			m.doCall(d.ci, d.fnv, d.args)
			done = true
		}()
	}
}

func (m *Machine) doRecover() Value {
	// recover() called by a deferred function of the frame that panics
	if n := len(m.panicking); n > 0 {
		fr := m.panicking[n-1]
		if fr.panic != nil {
			v := fr.panic.v
			fr.panic = nil
			return v
		}
	}
	return Value{}
}

func (m *Machine) doCall(ci *callInfo, fnv Value, args []Value) Value {
	switch {
	case ci.fn != nil:
		return m.call(ci.fn, args, nil)
	case ci.builtin != nil:
		return m.builtin(ci, args)
	case ci.method != nil:
		i, _ := fnv.P.(*Iface)
		if i == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := m.method(i.t, ci.method)
		var buf [6]Value
		a := append(buf[:0], i.v)
		a = append(a, args...)
		return m.call(f, a, nil)
	}
	return m.callValue(fnv, args)
}

func (m *Machine) callValue(fnv Value, args []Value) Value {
	switch c := fnv.P.(type) {
	case *Closure:
		return m.call(c.fn, args, c.free)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case Native:
		return c(m, args)
	}
	m.unsupported("call of %T", fnv.P)
	return Value{}
}

func (m *Machine) method(t *RType, meth *types.Func) *Func {
	name := meth.Name()
	if !meth.Exported() && meth.Pkg() != nil {
		name = meth.Pkg().Path() + "." + name
	}
	k := methKey{t, name}
	if f, ok := m.msets[k]; ok {
		return f
	}
	var fn *ssa.Function
	progMu.Lock()
	fn = m.prog.LookupMethod(t.t, meth.Pkg(), meth.Name())
	progMu.Unlock()
	if fn == nil {
		m.unsupported("no method %s on %s", name, t.t)
	}
	f := m.fnOf(fn)
	m.msets[k] = f
	return f
}

func (m *Machine) implements(t *RType, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := m.implC[k]; ok {
		return b
	}
	b := types.Implements(t.t, it.Underlying().(*types.Interface))
	m.implC[k] = b
	return b
}

func (fr *frame) get(i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.f.consts[^i]
}

func (m *Machine) ptr(v Value) *Value {
	p, _ := v.P.(*Value)
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) runBlocks(fr *frame, blk *Block) {
	var tmp [16]Value
	for {
		fr.f.cov[blk.idx] = true
		ins := blk.ins
		var next *Block
		var from int
		if m.p != nil {
			m.p.steps += int64(len(ins)) + 1
			if m.p.steps > m.maxSteps {
				m.abort("steps", "step limit in %s", m.where())
			}
		}
	instrs:
		for k := range ins {
			in := &ins[k]
			switch in.op {
			case iNop:
			case iAlloc:
				c := &m.cells(1)[0]
				*c = m.zero(in.typ)
				fr.regs[in.dst] = Value{P: c}
			case iBin:
				a, b := fr.get(in.a), fr.get(in.b)
				if a.P == nil && b.P == nil {
					fr.regs[in.dst] = m.binConc(in, a.N, b.N)
				} else {
					fr.regs[in.dst] = m.binSym(in, a, b)
				}
			case iStrCat:
				fr.regs[in.dst] = m.strCat(fr.get(in.a), fr.get(in.b))
			case iStrCmp:
				fr.regs[in.dst] = m.strCompare(in.tok, fr.get(in.a), fr.get(in.b))
			case iEqAgg:
				t := m.eqVal(in.typ, fr.get(in.a), fr.get(in.b))
				if in.tok == token.NEQ {
					t = m.ts.Not(t)
				}
				fr.regs[in.dst] = m.termVal(t, false)
			case iNotBool:
				a := fr.get(in.a)
				if a.P == nil {
					fr.regs[in.dst] = Value{N: a.N ^ 1}
				} else {
					fr.regs[in.dst] = m.termVal(m.ts.Not(a.P.(*Term)), false)
				}
			case iNeg:
				a := fr.get(in.a)
				if a.P == nil {
					fr.regs[in.dst] = Value{N: norm(-a.N, in.w, in.sg)}
				} else {
					fr.regs[in.dst] = m.termVal(m.ts.Bin(OSub, m.ts.Const(0, in.w), a.P.(*Term)), in.sg)
				}
			case iCompl:
				a := fr.get(in.a)
				if a.P == nil {
					fr.regs[in.dst] = Value{N: norm(^a.N, in.w, in.sg)}
				} else {
					fr.regs[in.dst] = m.termVal(m.ts.BVNot(a.P.(*Term)), in.sg)
				}
			case iFloat:
				fr.regs[in.dst] = m.floatOp(fr, in)
			case iLoad:
				a := fr.get(in.a)
				p, ok := a.P.(*Value)
				if !ok || p == nil {
					m.badLoad(a)
				}
				fr.regs[in.dst] = *p
			case iLoadAgg:
				p := m.ptr(fr.get(in.a))
				fr.regs[in.dst] = m.deepCopy(*p, in.shape)
			case iCall:
				ci := in.aux.(*callInfo)
				args := tmp[:0]
				if len(in.args) > len(tmp) {
					args = make([]Value, 0, len(in.args))
				}
				for _, x := range in.args {
					args = append(args, fr.get(x))
				}
				if ci.fn != nil {
					fr.regs[in.dst] = m.call(ci.fn, args, nil)
				} else {
					var fnv Value
					if ci.builtin == nil {
						fnv = fr.get(in.a)
					}
					fr.regs[in.dst] = m.doCall(ci, fnv, args)
				}
			case iDefer:
				ci := in.aux.(*callInfo)
				var d deferred
				d.ci = ci
				if ci.fn == nil && ci.builtin == nil {
					d.fnv = fr.get(in.a)
				}
				for _, x := range in.args {
					d.args = append(d.args, fr.get(x))
				}
				fr.defers = append(fr.defers, d)
			case iRunDefers:
				m.runDefers(fr)
				if fr.panic != nil {
					p := fr.panic
					panic(p)
				}
			case iCopy:
				fr.regs[in.dst] = fr.get(in.a)
			case iConvInt:
				a := fr.get(in.a)
				if a.P == nil {
					fr.regs[in.dst] = Value{N: norm(a.N, in.w2, in.sg2)}
				} else {
					fr.regs[in.dst] = m.termVal(m.ts.Conv(a.P.(*Term), in.w2, in.sg), in.sg2)
				}
			case iConvStr:
				fr.regs[in.dst] = m.convStr(fr.get(in.a), in.typ, in.typ2)
			case iConvOther:
				fr.regs[in.dst] = m.convOther(fr.get(in.a), in.typ, in.typ2)
			case iMakeIface:
				fr.regs[in.dst] = Value{P: &Iface{in.aux.(*RType), fr.get(in.a)}}
			case iMakeMap:
				fr.regs[in.dst] = Value{P: &Map{kt: in.typ, frozen: m.inInit, shared: m.sharing, idx: map[any]int{}}}
			case iMakeSlice:
				n, c := m.concInt(fr.get(in.a)), m.concInt(fr.get(in.b))
				if n < 0 || n > 1<<30 {
					m.rtPanic("makeslice: len out of range")
				}
				if c < n || c > 1<<30 {
					m.rtPanic("makeslice: cap out of range")
				}
				if c == 0 {
					fr.regs[in.dst] = mkSlice(&m.cells(1)[0], 0, 0)
				} else {
					cs := m.cells(c)
					m.fillZero(cs, in.typ)
					fr.regs[in.dst] = mkSlice(&cs[0], n, c)
				}
			case iMakeClosure:
				free := make([]Value, len(in.args))
				for i, x := range in.args {
					free[i] = fr.get(x)
				}
				fr.regs[in.dst] = Value{P: &Closure{in.aux.(*Func), free}}
			case iSlice:
				fr.regs[in.dst] = m.sliceOp(fr, in)
			case iFieldAddr:
				p := m.ptr(fr.get(in.a))
				b, ok := p.P.(*Value)
				if !ok {
					m.unsupported("field address of %T", p.P)
				}
				fr.regs[in.dst] = Value{P: ptrAdd(b, int(in.b))}
			case iField:
				v := fr.get(in.a)
				fr.regs[in.dst] = *ptrAdd(v.P.(*Value), int(in.b))
			case iIndexAddr, iIndexLoad:
				m.indexAddr(fr, in)
			case iIndex:
				v := fr.get(in.a)
				fr.regs[in.dst] = m.loadIndexed(v.P, int(v.N), fr.get(in.b), in)
			case iStrIndex:
				fr.regs[in.dst] = m.strIndex(fr.get(in.a), fr.get(in.b), in)
			case iLookup:
				fr.regs[in.dst] = m.lookup(fr, in)
			case iMapUpdate:
				mv, _ := fr.get(in.a).P.(*Map)
				if mv == nil {
					m.rtPanic("assignment to entry in nil map")
				}
				m.mapSet(mv, fr.get(in.b), fr.get(in.c))
			case iRange:
				v := fr.get(in.a)
				if in.ok {
					fr.regs[in.dst] = Value{P: &strIter{s: v}}
				} else {
					mv, _ := v.P.(*Map)
					fr.regs[in.dst] = Value{P: &mapIter{m: mv}}
				}
			case iNext:
				fr.regs[in.dst] = m.next(fr.get(in.a), in)
			case iTypeAssert:
				fr.regs[in.dst] = m.typeAssert(fr.get(in.a), in)
			case iExtract:
				v := fr.get(in.a)
				fr.regs[in.dst] = *ptrAdd(v.P.(*Value), int(in.b))
			case iStore:
				a := fr.get(in.a)
				p, ok := a.P.(*Value)
				if !ok || p == nil {
					m.badLoad(a)
				}
				m.store(p, fr.get(in.b))
			case iStoreAgg:
				p := m.ptr(fr.get(in.a))
				m.storeAgg(p, fr.get(in.b), in.shape)
			case iJump:
				next, from = blk.succ[0], blk.pred[0]
				break instrs
			case iIf:
				c := fr.get(in.a)
				var t bool
				if c.P == nil {
					t = c.N != 0
				} else {
					t = m.decide(c.P.(*Term))
				}
				if t {
					next, from = blk.succ[0], blk.pred[0]
				} else {
					next, from = blk.succ[1], blk.pred[1]
				}
				break instrs
			case iReturn:
				switch len(in.args) {
				case 0:
				case 1:
					fr.result = fr.get(in.args[0])
				default:
					r := make([]Value, len(in.args))
					for i, x := range in.args {
						r[i] = fr.get(x)
					}
					fr.result = m.mkAgg(r)
				}
				return
			case iPanic:
				if m.sum != nil {
					panic(sumFail{})
				}
				v := fr.get(in.a)
				panic(&targetPanic{v: v, msg: "panic in " + m.where()})
			default:
				m.unsupported("instruction %T %v", in.ssa, in.ssa)
			}
		}
		// phis
		if e := &next.edges[from]; len(e.dst) > 0 {
			if len(e.dst) == 1 {
				fr.regs[e.dst[0]] = fr.get(e.src[0])
			} else {
				t := tmp[:0]
				for _, s := range e.src {
					t = append(t, fr.get(s))
				}
				for i, d := range e.dst {
					fr.regs[d] = t[i]
				}
			}
		}
		blk = next
	}
}

func (m *Machine) badLoad(a Value) {
	if a.P == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p, ok := a.P.(*Value); ok && p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported("load through %T", a.P)
}

func (m *Machine) concInt(v Value) int {
	if v.P == nil {
		return int(v.N)
	}
	t := v.P.(*Term)
	return int(sx(m.concretize(t), t.w))
}

func (m *Machine) binConc(in *Instr, a, b uint64) Value {
	w, sg := in.w, in.sg
	switch in.tok {
	case token.ADD:
		return Value{N: norm(a+b, w, sg)}
	case token.SUB:
		return Value{N: norm(a-b, w, sg)}
	case token.MUL:
		return Value{N: norm(a*b, w, sg)}
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		var r uint64
		if sg {
			x, y := int64(a), int64(b)
			if y == -1 {
				if in.tok == token.QUO {
					r = uint64(-x)
				}
			} else if in.tok == token.QUO {
				r = uint64(x / y)
			} else {
				r = uint64(x % y)
			}
		} else if in.tok == token.QUO {
			r = a / b
		} else {
			r = a % b
		}
		return Value{N: norm(r, w, sg)}
	case token.AND:
		return Value{N: a & b}
	case token.OR:
		return Value{N: a | b}
	case token.XOR:
		return Value{N: norm(a^b, w, sg)}
	case token.AND_NOT:
		return Value{N: a &^ b}
	case token.SHL, token.SHR:
		if in.sg2 && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if b >= 64 {
				return Value{}
			}
			return Value{N: norm(a<<b, w, sg)}
		}
		if sg {
			if b >= 64 {
				b = 63
			}
			return Value{N: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return Value{}
		}
		return Value{N: a >> b}
	case token.EQL:
		return mkBool(a == b)
	case token.NEQ:
		return mkBool(a != b)
	}
	var lt, eq bool
	if sg {
		lt, eq = int64(a) < int64(b), a == b
	} else {
		lt, eq = a < b, a == b
	}
	switch in.tok {
	case token.LSS:
		return mkBool(lt)
	case token.LEQ:
		return mkBool(lt || eq)
	case token.GTR:
		return mkBool(!lt && !eq)
	case token.GEQ:
		return mkBool(!lt)
	}
	panic("binConc " + in.tok.String())
}

func (m *Machine) binSym(in *Instr, a, b Value) Value {
	w, sg := in.w, in.sg
	ts := m.ts
	x := m.toTerm(a, w)
	if in.tok == token.SHL || in.tok == token.SHR {
		y := m.toTerm(b, in.w2)
		if in.sg2 && y.op != OConst {
			if m.decide(ts.Bin(OSlt, y, ts.Const(0, y.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		var yy *Term
		if y.w > w {
			yy = ts.Ite(ts.Bin(OUle, ts.Const(uint64(w), y.w), y), ts.Const(uint64(w), w), ts.Conv(y, w, false))
		} else {
			yy = ts.Conv(y, w, false)
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLShr
			if sg {
				op = OAShr
			}
		}
		return m.termVal(ts.Bin(op, x, yy), sg)
	}
	y := m.toTerm(b, w)
	if w == 0 {
		switch in.tok {
		case token.EQL:
			return m.termVal(ts.Eq(x, y), false)
		case token.NEQ:
			return m.termVal(ts.Not(ts.Eq(x, y)), false)
		case token.AND:
			return m.termVal(ts.And(x, y), false)
		case token.OR:
			return m.termVal(ts.Or(x, y), false)
		}
		m.unsupported("boolean %s", in.tok)
	}
	switch in.tok {
	case token.ADD:
		return m.termVal(ts.Bin(OAdd, x, y), sg)
	case token.SUB:
		return m.termVal(ts.Bin(OSub, x, y), sg)
	case token.MUL:
		return m.termVal(ts.Bin(OMul, x, y), sg)
	case token.QUO, token.REM:
		if m.decide(ts.Eq(y, ts.Const(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case sg && in.tok == token.QUO:
			op = OSDiv
		case sg:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return m.termVal(ts.Bin(op, x, y), sg)
	case token.AND:
		return m.termVal(ts.Bin(OAnd, x, y), sg)
	case token.OR:
		return m.termVal(ts.Bin(OOr, x, y), sg)
	case token.XOR:
		return m.termVal(ts.Bin(OXor, x, y), sg)
	case token.AND_NOT:
		return m.termVal(ts.Bin(OAnd, x, ts.BVNot(y)), sg)
	case token.EQL:
		return m.termVal(ts.Eq(x, y), false)
	case token.NEQ:
		return m.termVal(ts.Not(ts.Eq(x, y)), false)
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.LSS:
		return m.termVal(ts.Bin(lt, x, y), false)
	case token.LEQ:
		return m.termVal(ts.Bin(le, x, y), false)
	case token.GTR:
		return m.termVal(ts.Bin(lt, y, x), false)
	case token.GEQ:
		return m.termVal(ts.Bin(le, y, x), false)
	}
	panic("binSym " + in.tok.String())
}

func (m *Machine) floatOp(fr *frame, in *Instr) Value {
	a := fr.get(in.a)
	x := math.Float64frombits(a.N)
	if in.tok == token.XOR {
		return Value{N: math.Float64bits(-x)}
	}
	y := math.Float64frombits(fr.get(in.b).N)
	f := func(z float64) Value {
		if b := in.typ.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			z = float64(float32(z))
		}
		return Value{N: math.Float64bits(z)}
	}
	switch in.tok {
	case token.ADD:
		return f(x + y)
	case token.SUB:
		return f(x - y)
	case token.MUL:
		return f(x * y)
	case token.QUO:
		return f(x / y)
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	m.unsupported("float %s", in.tok)
	return Value{}
}

func (m *Machine) strCompare(tok token.Token, a, b Value) Value {
	switch tok {
	case token.EQL:
		return m.termVal(m.strEq(a, b), false)
	case token.NEQ:
		return m.termVal(m.ts.Not(m.strEq(a, b)), false)
	case token.LSS:
		return m.termVal(m.strLess(a, b), false)
	case token.GTR:
		return m.termVal(m.strLess(b, a), false)
	case token.LEQ:
		return m.termVal(m.ts.Not(m.strLess(b, a)), false)
	case token.GEQ:
		return m.termVal(m.ts.Not(m.strLess(a, b)), false)
	}
	panic("strCompare")
}

func (m *Machine) eqVal(t types.Type, a, b Value) *Term {
	ts := m.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return ts.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
		}
		if u.Kind() == types.UnsafePointer {
			return ts.Bool(samePtr(a, b))
		}
		if a.P == nil && b.P == nil {
			return ts.Bool(a.N == b.N)
		}
		w, _, _ := kindOf(t)
		return ts.Eq(m.toTerm(a, w), m.toTerm(b, w))
	case *types.Struct:
		r := ts.True
		x, y := agg(a), agg(b)
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = ts.And(r, m.eqVal(u.Field(i).Type(), x[i], y[i]))
		}
		return r
	case *types.Array:
		r := ts.True
		x, y := agg(a), agg(b)
		for i := range x {
			r = ts.And(r, m.eqVal(u.Elem(), x[i], y[i]))
		}
		return r
	case *types.Interface:
		return m.eqIface(a, b)
	case *types.Pointer, *types.Chan, *types.Map, *types.Slice, *types.Signature:
		return ts.Bool(samePtr(a, b))
	}
	m.unsupported("comparison of %s", t)
	return nil
}

func samePtr(a, b Value) bool {
	if isNilP(a.P) || isNilP(b.P) {
		return isNilP(a.P) && isNilP(b.P)
	}
	return a.P == b.P
}

func isNilP(p any) bool {
	if p == nil {
		return true
	}
	if v, ok := p.(*Value); ok {
		return v == nil
	}
	return false
}

func (m *Machine) eqIface(a, b Value) *Term {
	x, _ := a.P.(*Iface)
	y, _ := b.P.(*Iface)
	if x == nil || y == nil {
		return m.ts.Bool(x == y)
	}
	if x.t != y.t {
		return m.ts.False
	}
	if !x.t.cmp {
		m.rtPanic("comparing uncomparable type %s", x.t.t)
	}
	return m.eqVal(x.t.t, x.v, y.v)
}

// indexing

func (m *Machine) checkIndex(iv Value, n int, in *Instr) int {
	if iv.P == nil {
		i := iv.N
		if i >= uint64(n) {
			m.rtPanic("index out of range [%d] with length %d", int64(i), n)
		}
		return int(i)
	}
	return -1
}

func (m *Machine) symIndex(iv Value, n int, in *Instr) *Term {
	t := iv.P.(*Term)
	t64 := m.ts.Conv(t, 64, in.sg2)
	if !m.decide(m.ts.Bin(OUlt, t64, m.ts.Const(uint64(n), 64))) {
		m.rtPanic("index out of range [%d] with length %d", int64(m.ts.Eval(t64)), n)
	}
	return t64
}

func (m *Machine) indexAddr(fr *frame, in *Instr) {
	v := fr.get(in.a)
	var base *Value
	var n int
	if in.ok { // pointer to array
		p := m.ptr(v)
		n = int(in.d)
		base, _ = p.P.(*Value)
	} else {
		n = sliceLen(v)
		base, _ = v.P.(*Value)
	}
	iv := fr.get(in.b)
	if iv.P == nil {
		i := m.checkIndex(iv, n, in)
		e := ptrAdd(base, i)
		if in.op == iIndexLoad {
			fr.regs[in.dst] = *e
		} else {
			fr.regs[in.dst] = Value{P: e}
		}
		return
	}
	if in.op == iIndexLoad {
		fr.regs[in.dst] = m.loadIndexed(base, n, iv, in)
		return
	}
	t := m.symIndex(iv, n, in)
	fr.regs[in.dst] = Value{P: ptrAdd(base, int(m.concretize(t)))}
}

// loadIndexed reads element iv of n cells at base; a symbolic index into
// scalar cells becomes a term.
func (m *Machine) loadIndexed(base any, n int, iv Value, in *Instr) Value {
	if iv.P == nil {
		i := m.checkIndex(iv, n, in)
		return *ptrAdd(base.(*Value), i)
	}
	t := m.symIndex(iv, n, in)
	w, sg, ok := kindOf(in.typ2)
	if ok && n <= 1024 {
		cells := unsafe.Slice(base.(*Value), n)
		return m.termVal(m.tableTerm(cells, t, w), sg)
	}
	return *ptrAdd(base.(*Value), int(m.concretize(t)))
}

func (m *Machine) tableTerm(cells []Value, t *Term, w uint8) *Term {
	ts := m.ts
	n := len(cells)
	type run struct {
		lo, hi int
		v      *Term
	}
	var runs []run
	count := map[*Term]int{}
	for i := 0; i < n; i++ {
		x := m.toTerm(cells[i], w)
		if w != 0 && cells[i].P == nil {
			x = ts.Const(cells[i].N, w)
		}
		if len(runs) > 0 && runs[len(runs)-1].v == x {
			runs[len(runs)-1].hi = i
			continue
		}
		runs = append(runs, run{i, i, x})
		count[x]++
	}
	// the most frequent value is the default
	var def *Term
	best := 0
	for _, r := range runs {
		if count[r.v] > best {
			best, def = count[r.v], r.v
		}
	}
	res := def
	for _, r := range runs {
		if r.v == def {
			continue
		}
		var c *Term
		if r.lo == r.hi {
			c = ts.Eq(t, ts.Const(uint64(r.lo), 64))
		} else {
			c = ts.And(ts.Bin(OUle, ts.Const(uint64(r.lo), 64), t), ts.Bin(OUle, t, ts.Const(uint64(r.hi), 64)))
		}
		res = ts.Ite(c, r.v, res)
	}
	return res
}

func (m *Machine) strIndex(s, iv Value, in *Instr) Value {
	n := strLen(s)
	if iv.P == nil {
		i := m.checkIndex(iv, n, in)
		return m.strByte(s, i)
	}
	t := m.symIndex(iv, n, in)
	if n <= 1024 {
		ts := m.strTerms(s)
		cells := make([]Value, n)
		for i, x := range ts {
			cells[i] = m.termVal(x, false)
		}
		return m.termVal(m.tableTerm(cells, t, 8), false)
	}
	return m.strByte(s, int(m.concretize(t)))
}

func (m *Machine) sliceOp(fr *frame, in *Instr) Value {
	v := fr.get(in.a)
	opt := func(r int32, def int) int {
		if r == noReg {
			return def
		}
		return m.concInt(fr.get(r))
	}
	switch u := in.typ.(type) {
	case *types.Basic: // string
		n := strLen(v)
		lo, hi := opt(in.b, 0), opt(in.c, n)
		if hi < 0 || hi > n {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return m.substr(v, lo, hi)
	case *types.Slice:
		n, c := sliceLen(v), sliceCap(v)
		lo, hi := opt(in.b, 0), opt(in.c, n)
		mx := opt(in.d, c)
		if mx < 0 || mx > c {
			m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, c)
		}
		if hi < 0 || hi > mx {
			m.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, c)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if v.P == nil {
			return v
		}
		if mx == lo {
			lo, hi, mx = 0, 0, 0 // no pointer past the end of an allocation
		}
		return mkSlice(ptrAdd(v.P.(*Value), lo), hi-lo, mx-lo)
	case *types.Pointer:
		c := int(u.Elem().Underlying().(*types.Array).Len())
		p := m.ptr(v)
		lo, hi := opt(in.b, 0), opt(in.c, c)
		mx := opt(in.d, c)
		if mx < 0 || mx > c {
			m.rtPanic("slice bounds out of range [::%d] with length %d", mx, c)
		}
		if hi < 0 || hi > mx {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, c)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if c == 0 {
			return mkSlice(&m.cells(1)[0], 0, 0)
		}
		if mx == lo {
			lo, hi, mx = 0, 0, 0 // no pointer past the end of an allocation
		}
		return mkSlice(ptrAdd(p.P.(*Value), lo), hi-lo, mx-lo)
	}
	m.unsupported("slice of %s", in.typ)
	return Value{}
}

// maps

type symKey struct{}

func (m *Machine) keyOf(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.P.(type) {
			case nil:
				return "", true
			case string:
				return s, true
			}
			return nil, false
		}
		if v.P != nil {
			if _, ok := v.P.(*Term); ok {
				return nil, false
			}
			return v.P, true
		}
		return v.N, true
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return nil, true
		}
		if !i.t.cmp {
			m.rtPanic("hash of unhashable type %s", i.t.t)
		}
		k, ok := m.keyOf(i.t.t, i.v)
		return [2]any{i.t, k}, ok
	case *types.Struct:
		var s any
		for i, x := range agg(v) {
			k, ok := m.keyOf(u.Field(i).Type(), x)
			if !ok {
				return nil, false
			}
			s = [2]any{s, k}
		}
		return s, true
	case *types.Array:
		var s any
		for _, x := range agg(v) {
			k, ok := m.keyOf(u.Elem(), x)
			if !ok {
				return nil, false
			}
			s = [2]any{s, k}
		}
		return s, true
	}
	if isNilP(v.P) {
		return nil, true
	}
	return v.P, true
}

func (m *Machine) mapFind(mp *Map, k Value) int {
	key, ok := m.keyOf(mp.kt, k)
	if ok {
		if i, found := mp.idx[key]; found {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.del {
			continue
		}
		if m.decide(m.eqVal(mp.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	i := m.mapFind(mp, k)
	m.touchMap(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	key, ok := m.keyOf(mp.kt, k)
	if ok {
		mp.idx[key] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, mapEnt{k: k, v: v})
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.touchMap(mp)
	if key, ok := m.keyOf(mp.kt, mp.ents[i].k); ok {
		delete(mp.idx, key)
	} else {
		mp.nsym--
	}
	mp.ents[i].del = true
	mp.n--
}

func (m *Machine) lookup(fr *frame, in *Instr) Value {
	mp, _ := fr.get(in.a).P.(*Map)
	var v Value
	found := false
	if mp != nil {
		if i := m.mapFind(mp, fr.get(in.b)); i >= 0 {
			v, found = mp.ents[i].v, true
		}
	}
	if !found {
		v = m.zero(in.typ2)
	}
	if in.ok {
		return m.mkAgg([]Value{v, mkBool(found)})
	}
	return v
}

type strIter struct {
	s Value
	i int
}
type mapIter struct {
	m *Map
	i int
}

func (m *Machine) next(it Value, in *Instr) Value {
	switch it := it.P.(type) {
	case *strIter:
		n := strLen(it.s)
		if it.i >= n {
			return m.mkAgg([]Value{{}, {}, {}})
		}
		pos := it.i
		r, sz := m.decodeRune(it.s, pos)
		it.i += sz
		return m.mkAgg([]Value{{N: 1}, {N: uint64(pos)}, r})
	case *mapIter:
		if it.m != nil {
			for it.i < len(it.m.ents) {
				e := it.m.ents[it.i]
				it.i++
				if e.del {
					continue
				}
				return m.mkAgg([]Value{{N: 1}, e.k, e.v})
			}
		}
		tt := in.typ.(*types.Tuple)
		z := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return Value{}
			}
			return m.zero(t)
		}
		return m.mkAgg([]Value{{}, z(1), z(2)})
	}
	panic("next")
}

func (m *Machine) typeAssert(v Value, in *Instr) Value {
	i, _ := v.P.(*Iface)
	ok := false
	var res Value
	if rt, conc := in.aux.(*RType); conc {
		if i != nil && i.t == rt {
			ok, res = true, i.v
		}
	} else if i != nil && m.implements(i.t, in.typ) {
		ok, res = true, v
	}
	if in.ok {
		if !ok {
			res = m.zero(in.typ)
		}
		return m.mkAgg([]Value{res, mkBool(ok)})
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.t.t.String()
		}
		m.rtPanic("interface conversion: interface is %s, not %s", dyn, in.typ)
	}
	return res
}

// runes and strings

func (m *Machine) decodeRune(s Value, i int) (Value, int) {
	if c, ok := s.P.(string); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return Value{N: uint64(int64(r))}, n
	}
	b := s.P.(*SymStr).t[i:]
	return m.decodeTerms(b)
}

func (m *Machine) decodeTerms(b []*Term) (Value, int) {
	ts := m.ts
	conc := true
	n := 0
	var buf [4]byte
	for n < len(b) && n < 4 {
		if b[n].op != OConst {
			conc = false
			break
		}
		buf[n] = byte(b[n].k)
		n++
		if utf8.FullRune(buf[:n]) {
			break
		}
	}
	if conc {
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{N: uint64(int64(r))}, sz
	}
	b0 := b[0]
	K := func(x uint64) *Term { return ts.Const(x, 8) }
	le := func(x, y *Term) *Term { return ts.Bin(OUle, x, y) }
	if m.decide(ts.Bin(OUlt, b0, K(0x80))) {
		return m.termVal(ts.Conv(b0, 32, false), true), 1
	}
	bad := Value{N: 0xfffd}
	z := func(x *Term) *Term { return ts.Conv(x, 32, false) }
	k32 := func(x uint64) *Term { return ts.Const(x, 32) }
	cont := func(x *Term) *Term { return ts.And(le(K(0x80), x), le(x, K(0xbf))) }
	low6 := func(x *Term) *Term { return ts.Bin(OAnd, z(x), k32(0x3f)) }
	shl := func(x *Term, n uint64) *Term { return ts.Bin(OShl, x, k32(n)) }
	or := func(x, y *Term) *Term { return ts.Bin(OOr, x, y) }
	mk := func(t *Term, n int) (Value, int) {
		if t.op != OConst {
			m.runeSrc[t] = b[:n:n]
		}
		return m.termVal(t, true), n
	}
	if len(b) >= 2 && m.decide(ts.And(ts.And(le(K(0xc2), b0), le(b0, K(0xdf))), cont(b[1]))) {
		return mk(or(shl(ts.Bin(OAnd, z(b0), k32(0x1f)), 6), low6(b[1])), 2)
	}
	if len(b) >= 3 {
		ok := ts.And(le(K(0xe0), b0), le(b0, K(0xef)))
		ok = ts.And(ok, cont(b[1]))
		ok = ts.And(ok, ts.Or(ts.Not(ts.Eq(b0, K(0xe0))), le(K(0xa0), b[1])))
		ok = ts.And(ok, ts.Or(ts.Not(ts.Eq(b0, K(0xed))), le(b[1], K(0x9f))))
		ok = ts.And(ok, cont(b[2]))
		if m.decide(ok) {
			return mk(or(or(shl(ts.Bin(OAnd, z(b0), k32(0xf)), 12), shl(low6(b[1]), 6)), low6(b[2])), 3)
		}
	}
	if len(b) >= 4 {
		ok := ts.And(le(K(0xf0), b0), le(b0, K(0xf4)))
		ok = ts.And(ok, cont(b[1]))
		ok = ts.And(ok, ts.Or(ts.Not(ts.Eq(b0, K(0xf0))), le(K(0x90), b[1])))
		ok = ts.And(ok, ts.Or(ts.Not(ts.Eq(b0, K(0xf4))), le(b[1], K(0x8f))))
		ok = ts.And(ok, ts.And(cont(b[2]), cont(b[3])))
		if m.decide(ok) {
			return mk(or(or(shl(ts.Bin(OAnd, z(b0), k32(0x7)), 18), shl(low6(b[1]), 12)), or(shl(low6(b[2]), 6), low6(b[3]))), 4)
		}
	}
	return bad, 1
}

func (m *Machine) runeToTerms(v Value, w uint8) []*Term {
	ts := m.ts
	if v.P == nil {
		s := string(rune(int32(v.N)))
		if int64(v.N) > 0x10ffff || int64(v.N) < 0 {
			s = "\uFFFD"
		}
		return m.strTerms(mkStr(s))
	}
	t := ts.Conv(v.P.(*Term), 32, true)
	if src, ok := m.runeSrc[t]; ok {
		return src
	}
	if t.op == OZext && t.a.w == 8 {
		if m.decide(ts.Bin(OUlt, t.a, ts.Const(0x80, 8))) {
			return []*Term{t.a}
		}
	} else if m.decide(ts.Bin(OUlt, t, ts.Const(0x80, 32))) {
		return []*Term{ts.Conv(t, 8, false)}
	}
	k := func(x uint64) *Term { return ts.Const(x, 32) }
	six := func(sh uint64) *Term {
		return ts.Conv(ts.Bin(OOr, k(0x80), ts.Bin(OAnd, ts.Bin(OLShr, t, k(sh)), k(0x3f))), 8, false)
	}
	lead := func(p, sh uint64) *Term {
		return ts.Conv(ts.Bin(OOr, k(p), ts.Bin(OLShr, t, k(sh))), 8, false)
	}
	if m.decide(ts.Bin(OUlt, t, k(0x800))) {
		return []*Term{lead(0xc0, 6), six(0)}
	}
	if m.decide(ts.Or(ts.Bin(OUlt, k(0x10ffff), t), ts.And(ts.Bin(OUle, k(0xd800), t), ts.Bin(OUle, t, k(0xdfff))))) {
		return m.strTerms(mkStr("\uFFFD"))
	}
	if m.decide(ts.Bin(OUlt, t, k(0x10000))) {
		return []*Term{lead(0xe0, 12), six(6), six(0)}
	}
	return []*Term{lead(0xf0, 18), six(12), six(6), six(0)}
}

func (m *Machine) convStr(v Value, from, to types.Type) Value {
	if isString(to) {
		switch u := from.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return v
			}
			w, _, _ := kindOf(from)
			return m.mkSymStr(m.runeToTerms(v, w))
		case *types.Slice:
			cells := sliceVals(v)
			if isByte(u.Elem()) {
				return m.bytesToStr(cells)
			}
			var r []*Term
			for _, c := range cells {
				r = append(r, m.runeToTerms(c, 32)...)
			}
			return m.mkSymStr(r)
		}
	}
	if u, ok := to.Underlying().(*types.Slice); ok {
		if isByte(u.Elem()) {
			return m.strToBytes(v)
		}
		var r []Value
		n := strLen(v)
		for i := 0; i < n; {
			x, sz := m.decodeRune(v, i)
			r = append(r, x)
			i += sz
		}
		if m.inInit {
			c := m.cells(len(r))
			copy(c, r)
			r = c
		}
		return mkSliceOf(r)
	}
	m.unsupported("conversion %s to %s", from, to)
	return Value{}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) bytesToStr(cells []Value) Value {
	for _, c := range cells {
		if c.P != nil {
			r := make([]*Term, len(cells))
			for i, c := range cells {
				r[i] = m.toTerm(c, 8)
			}
			return Value{P: &SymStr{r}}
		}
	}
	b := make([]byte, len(cells))
	for i, c := range cells {
		b[i] = byte(c.N)
	}
	return Value{P: string(b)}
}

func (m *Machine) strToBytes(v Value) Value {
	n := strLen(v)
	c := m.cells(n)
	switch s := v.P.(type) {
	case string:
		for i := 0; i < n; i++ {
			c[i] = Value{N: uint64(s[i])}
		}
	case *SymStr:
		for i, t := range s.t {
			c[i] = m.termVal(t, false)
		}
	}
	return mkSliceOf(c)
}

func (m *Machine) convOther(v Value, from, to types.Type) Value {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			x := math.Float64frombits(v.N)
			if tb.Kind() == types.Float32 {
				x = float64(float32(x))
			}
			return Value{N: math.Float64bits(x)}
		case ff:
			w, sg, ok := kindOf(to)
			if ok {
				x := math.Float64frombits(v.N)
				if sg {
					return Value{N: norm(uint64(int64(x)), w, sg)}
				}
				return Value{N: norm(uint64(x), w, sg)}
			}
		case tf:
			_, sg, ok := kindOf(from)
			if ok && v.P == nil {
				var x float64
				if sg {
					x = float64(int64(v.N))
				} else {
					x = float64(v.N)
				}
				if tb.Kind() == types.Float32 {
					x = float64(float32(x))
				}
				return Value{N: math.Float64bits(x)}
			}
		}
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			if tb.Kind() == types.Uintptr || fb.Kind() == types.Uintptr {
				m.unsupported("uintptr conversion")
			}
		}
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fok && fb.Kind() == types.UnsafePointer {
		return v
	}
	m.unsupported("conversion %s to %s", from, to)
	return Value{}
}

// builtins

func (m *Machine) builtin(ci *callInfo, args []Value) Value {
	switch ci.builtin.Name() {
	case "len":
		switch u := ci.argT[0].Underlying().(type) {
		case *types.Basic:
			return mkInt(int64(strLen(args[0])))
		case *types.Slice:
			return mkInt(int64(sliceLen(args[0])))
		case *types.Map:
			mp, _ := args[0].P.(*Map)
			if mp == nil {
				return Value{}
			}
			return mkInt(int64(mp.n))
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch u := ci.argT[0].Underlying().(type) {
		case *types.Slice:
			return mkInt(int64(sliceCap(args[0])))
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		return m.appendB(ci, args)
	case "copy":
		dt := ci.argT[0].Underlying().(*types.Slice)
		dst := sliceVals(args[0])
		var src []Value
		if isString(ci.argT[1]) {
			n := strLen(args[1])
			if n > len(dst) {
				n = len(dst)
			}
			for i := 0; i < n; i++ {
				m.store(&dst[i], m.strByte(args[1], i))
			}
			return mkInt(int64(n))
		}
		src = sliceVals(args[1])
		n := min(len(dst), len(src))
		if isAgg(dt.Elem()) {
			sh := m.shape(dt.Elem())
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = m.deepCopy(src[i], sh)
			}
			for i := 0; i < n; i++ {
				m.storeAgg(&dst[i], tmp[i], sh)
			}
			return mkInt(int64(n))
		}
		if n > 0 && !m.inInit && m.isFrozen(&dst[0]) {
			for i := 0; i < n; i++ {
				m.undo = append(m.undo, undoRec{&dst[i], dst[i]})
			}
			m.noteGlobalWrite(&dst[0])
		}
		if n > 0 && m.shSlabs != nil {
			m.noteShared(&dst[0])
		}
		copy(dst[:n], src[:n])
		return mkInt(int64(n))
	case "delete":
		mp, _ := args[0].P.(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return Value{}
	case "clear":
		if mp, ok := args[0].P.(*Map); ok {
			m.touchMap(mp)
			mp.idx, mp.ents, mp.n, mp.nsym = map[any]int{}, nil, 0, 0
			return Value{}
		}
		if u, ok := ci.argT[0].Underlying().(*types.Slice); ok {
			for i := range sliceVals(args[0]) {
				p := &sliceVals(args[0])[i]
				if isAgg(u.Elem()) {
					m.storeAgg(p, m.zero(u.Elem()), m.shape(u.Elem()))
				} else {
					m.store(p, m.zero(u.Elem()))
				}
			}
			return Value{}
		}
	case "panic":
		panic(&targetPanic{v: args[0], msg: "panic in " + m.where()})
	case "recover":
		return m.doRecover()
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			var less bool
			t := ci.argT[0]
			switch {
			case isString(t):
				less = m.decideV(m.strCompare(token.LSS, x, r))
			case isFloat(t):
				less = math.Float64frombits(x.N) < math.Float64frombits(r.N)
			default:
				w, sg, _ := kindOf(t)
				in := &Instr{tok: token.LSS, w: w, sg: sg}
				if x.P == nil && r.P == nil {
					less = m.binConc(in, x.N, r.N).N != 0
				} else {
					less = m.decideV(m.binSym(in, x, r))
				}
			}
			if less == (ci.builtin.Name() == "min") {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilP(args[0].P) {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	case "String": // unsafe.String
		n := m.concInt(args[1])
		if n == 0 {
			return mkStr("")
		}
		return m.bytesToStr(unsafe.Slice(m.ptr(args[0]), n))
	case "StringData":
		v := m.strToBytes(args[0])
		return Value{P: v.P}
	case "Slice":
		n := m.concInt(args[1])
		if isNilP(args[0].P) {
			return Value{}
		}
		return mkSlice(args[0].P.(*Value), n, n)
	case "SliceData":
		if args[0].P == nil {
			return Value{}
		}
		return Value{P: args[0].P}
	}
	m.unsupported("builtin %s", ci.builtin.Name())
	return Value{}
}

func (m *Machine) decideV(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return m.decide(v.P.(*Term))
}

func (m *Machine) appendB(ci *callInfo, args []Value) Value {
	et := ci.argT[0].Underlying().(*types.Slice).Elem()
	s := args[0]
	var add []Value
	if len(args) > 1 {
		if isString(ci.argT[1]) {
			add = sliceVals(m.strToBytes(args[1]))
		} else {
			add = sliceVals(args[1])
		}
	}
	n, c := sliceLen(s), sliceCap(s)
	if len(add) == 0 {
		return s
	}
	aggE := isAgg(et)
	if n+len(add) <= c {
		base := s.P.(*Value)
		dst := unsafe.Slice(base, c)[n : n+len(add)]
		for i, x := range add {
			if aggE {
				m.storeAgg(&dst[i], x, m.shape(et))
			} else {
				m.store(&dst[i], x)
			}
		}
		return mkSlice(base, n+len(add), c)
	}
	nc := c * 2
	if c > 512 {
		nc = c + c/4 + 192
	}
	if nc < n+len(add) {
		nc = n + len(add)
	}
	if nc < 4 && !aggE {
		nc = 4
	}
	cs := m.cells(nc)
	copy(cs, sliceVals(s))
	if aggE {
		sh := m.shape(et)
		for i := 0; i < n; i++ {
			cs[i] = m.deepCopy(cs[i], sh)
		}
		for i, x := range add {
			cs[n+i] = m.deepCopy(x, sh)
		}
		for i := n + len(add); i < nc; i++ {
			cs[i] = m.zero(et)
		}
	} else {
		copy(cs[n:], add)
		m.fillZero(cs[n+len(add):], et)
	}
	return mkSlice(&cs[0], n+len(add), nc)
}

var _ = sort.Ints
