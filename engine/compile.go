package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iBad opcode = iota
	iAlloc
	iBin
	iEqAgg
	iNotBool
	iNeg
	iCompl
	iLoad
	iLoadAgg
	iCall
	iCopy
	iConvInt
	iConvStr
	iConvOther
	iMakeIface
	iMakeMap
	iMakeSlice
	iMakeClosure
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndexLoad
	iIndex
	iStrIndex
	iLookup
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iDefer
	iStore
	iStoreAgg
	iMapUpdate
	iNop
	iUnsupported
	iStrCat
	iStrCmp
	iFloat
)

type Instr struct {
	op      opcode
	tok     token.Token
	w       uint8
	sg      bool
	ok      bool // comma-ok
	w2      uint8
	sg2     bool
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	typ     types.Type
	typ2    types.Type
	shape   *aggShape
	aux     any
	ssa     ssa.Instruction
}

type edge struct{ dst, src []int32 }

type Block struct {
	ins   []Instr
	edges []edge // per predecessor
	succ  [2]*Block
	pred  [2]int // index of this block among succ's preds
	idx   int
}

type Func struct {
	fn       *ssa.Function
	name     string
	nparams  int
	nregs    int
	consts   []Value
	blocks   []*Block
	native   Native
	hasDefer bool
	recover  *Block
	repo     bool
	harness  bool
	cov      []bool
	pure     int8 // 0 unknown, 1 pure, -1 not, -2 blacklisted
	compiled bool
	resAgg   bool
}

type compiler struct {
	m    *Machine
	f    *Func
	regs map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

const noReg = math.MinInt32

func (m *Machine) fnOf(fn *ssa.Function) *Func {
	if f, ok := m.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String(), nparams: len(fn.Params)}
	m.funcs[fn] = f
	if o := fn.Origin(); o != nil {
		f.name = o.String()
	}
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = m.prog.Package(fn.Object().Pkg())
	}
	if pkg != nil {
		p := pkg.Pkg.Path()
		f.repo = isRepoPkg(p)
		f.harness = strings.Contains(p, "zz_verif") && !strings.HasSuffix(p, "zz_verif/cli")
	}
	if fn.Synthetic == "package initializer" && pkg != nil {
		p := pkg.Pkg.Path()
		if !initPkgs[p] && !strings.HasPrefix(p, repoModule) {
			f.native = nop
		}
	}
	if n, ok := intrinsics[f.name]; ok {
		f.native = n
	}
	if name, ok := models[f.name]; ok {
		var h *ssa.Function
		if p := m.prog.ImportedPackage(repoModule + "/zz_verif/h"); p != nil {
			h = p.Func(name)
		}
		if h != nil {
			f.native = func(m *Machine, a []Value) Value { return m.call(m.fnOf(h), a, nil) }
		}
	}
	return f
}

// models maps functions of the standard library to the harness functions that
// stand for them.
var models = map[string]string{}

func isRepoPkg(p string) bool {
	return strings.HasPrefix(p, repoModule) && (!strings.Contains(p, "zz_verif") || strings.HasSuffix(p, "zz_verif/cli"))
}

func (m *Machine) compile(f *Func) {
	f.compiled = true
	fn := f.fn
	if len(fn.Blocks) == 0 {
		return
	}
	c := &compiler{m: m, f: f, regs: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
		}
	}
	f.nregs = int(n)
	f.blocks = make([]*Block, len(fn.Blocks))
	f.cov = make([]bool, len(fn.Blocks))
	for i := range f.blocks {
		f.blocks[i] = &Block{idx: i}
	}
	for i, b := range fn.Blocks {
		blk := f.blocks[i]
		for j, s := range b.Succs {
			if j >= 2 {
				break
			}
			blk.succ[j] = f.blocks[s.Index]
			for k, p := range s.Preds {
				if p == b {
					// an If with both edges to the same block lists it twice
					if j == 1 && b.Succs[0] == s && k == blk.pred[0] {
						continue
					}
					blk.pred[j] = k
					break
				}
			}
		}
		blk.edges = make([]edge, len(b.Preds))
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, e := range phi.Edges {
					blk.edges[k].dst = append(blk.edges[k].dst, c.regs[phi])
					blk.edges[k].src = append(blk.edges[k].src, c.val(e))
				}
				continue
			}
			blk.ins = append(blk.ins, c.instr(in))
		}
	}
	// a frame needs host-level recovery only if it defers
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		f.recover = f.blocks[fn.Recover.Index]
	}
}

func (c *compiler) val(v ssa.Value) int32 {
	if v == nil {
		return noReg
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	if i, ok := c.cidx[v]; ok {
		return i
	}
	var x Value
	switch v := v.(type) {
	case *ssa.Const:
		x = c.m.constVal(v)
	case *ssa.Global:
		x = Value{P: c.m.global(v)}
	case *ssa.Function:
		x = Value{P: &Closure{fn: c.m.fnOf(v)}}
	case *ssa.Builtin:
		x = Value{P: v}
	default:
		panic(fmt.Sprintf("val %T", v))
	}
	i := int32(-1 - len(c.f.consts))
	c.f.consts = append(c.f.consts, x)
	c.cidx[v] = i
	return i
}

func (m *Machine) constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		saved := m.inInit
		m.inInit = true
		defer func() { m.inInit = saved }()
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			panic("const of type parameter " + tp.String())
		}
		return Value{}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(v.Value))
	case b.Info()&types.IsString != 0:
		if v.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(v.Value))
		}
		return mkStr(string(rune(v.Int64())))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case b.Info()&types.IsInteger != 0:
		w, sg, _ := kindOf(t)
		var n uint64
		cv := constant.ToInt(v.Value)
		if i, exact := constant.Int64Val(cv); exact {
			n = uint64(i)
		} else {
			n, _ = constant.Uint64Val(cv)
		}
		return Value{N: norm(n, w, sg)}
	}
	return Value{}
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	saved := m.inInit
	m.inInit = true
	cell := &m.cells(1)[0]
	*cell = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.inInit = saved
	m.globals[g] = cell
	m.globName[cell] = g.String()
	return cell
}

func (c *compiler) instr(in ssa.Instruction) Instr {
	r := Instr{ssa: in, dst: noReg}
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.regs[v]
	}
	m := c.m
	switch in := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.typ = in.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		r.tok = in.Op
		r.a, r.b = c.val(in.X), c.val(in.Y)
		t := in.X.Type()
		r.typ = t
		w, sg, ok := kindOf(t)
		switch {
		case ok:
			r.op, r.w, r.sg = iBin, w, sg
			if in.Op == token.SHL || in.Op == token.SHR {
				r.w2, r.sg2, _ = kindOf(in.Y.Type())
			}
		case isString(t):
			if in.Op == token.ADD {
				r.op = iStrCat
			} else {
				r.op = iStrCmp
			}
		case isFloat(t):
			r.op = iFloat
		default:
			r.op = iEqAgg
			// comparison of an interface with a concrete value is converted by ssa
		}
	case *ssa.UnOp:
		r.a = c.val(in.X)
		switch in.Op {
		case token.MUL:
			r.op = iLoad
			if isAgg(in.Type()) {
				r.op = iLoadAgg
				r.shape = m.shape(in.Type())
			}
			r.typ = in.Type()
		case token.NOT:
			r.op = iNotBool
		case token.SUB:
			if isFloat(in.Type()) {
				r.op = iFloat
				r.tok = token.XOR
				break
			}
			r.op = iNeg
			r.w, r.sg, _ = kindOf(in.Type())
		case token.XOR:
			r.op = iCompl
			r.w, r.sg, _ = kindOf(in.Type())
		default:
			r.op = iUnsupported
		}
	case *ssa.Call:
		c.call(&r, &in.Call)
		r.op = iCall
	case *ssa.Defer:
		c.call(&r, &in.Call)
		r.op = iDefer
		if in.DeferStack != nil {
			r.op = iUnsupported
		}
	case *ssa.Go:
		r.op = iUnsupported
	case *ssa.ChangeInterface:
		r.op, r.a = iCopy, c.val(in.X)
	case *ssa.ChangeType:
		r.op, r.a = iCopy, c.val(in.X)
	case *ssa.SliceToArrayPointer:
		r.op = iUnsupported
	case *ssa.MultiConvert:
		r.op = iUnsupported
	case *ssa.Convert:
		r.a = c.val(in.X)
		ft, tt := in.X.Type(), in.Type()
		r.typ, r.typ2 = ft, tt
		fw, fs, fok := kindOf(ft)
		tw, tsg, tok := kindOf(tt)
		switch {
		case fok && tok:
			r.op, r.w, r.sg, r.w2, r.sg2 = iConvInt, fw, fs, tw, tsg
		case isString(tt) || isString(ft):
			r.op = iConvStr
		default:
			r.op = iConvOther
		}
	case *ssa.MakeInterface:
		r.op, r.a = iMakeIface, c.val(in.X)
		r.aux = m.rtype(in.X.Type())
	case *ssa.MakeMap:
		r.op = iMakeMap
		r.typ = in.Type().Underlying().(*types.Map).Key()
	case *ssa.MakeSlice:
		r.op, r.a, r.b = iMakeSlice, c.val(in.Len), c.val(in.Cap)
		r.typ = in.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.aux = m.fnOf(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			r.args = append(r.args, c.val(b))
		}
	case *ssa.Slice:
		r.op, r.a, r.b, r.c, r.d = iSlice, c.val(in.X), c.val(in.Low), c.val(in.High), c.val(in.Max)
		r.typ = in.X.Type().Underlying()
	case *ssa.FieldAddr:
		r.op, r.a, r.b = iFieldAddr, c.val(in.X), int32(in.Field)
	case *ssa.Field:
		r.op, r.a, r.b = iField, c.val(in.X), int32(in.Field)
	case *ssa.IndexAddr:
		r.op, r.a, r.b = iIndexAddr, c.val(in.X), c.val(in.Index)
		r.typ = in.X.Type().Underlying()
		if p, ok := r.typ.(*types.Pointer); ok {
			r.d = int32(p.Elem().Underlying().(*types.Array).Len())
			r.ok = true
		}
		r.w2, r.sg2, _ = kindOf(in.Index.Type())
		// fuse with a load when that is the only use
		if refs := in.Referrers(); refs != nil && len(*refs) == 1 {
			if u, ok := (*refs)[0].(*ssa.UnOp); ok && u.Op == token.MUL && !isAgg(u.Type()) && u.Block() == in.Block() {
				b := in.Block()
				for i, x := range b.Instrs {
					if x == ssa.Instruction(in) && i+1 < len(b.Instrs) && b.Instrs[i+1] == ssa.Instruction(u) {
						r.op = iIndexLoad
						r.dst = c.regs[u]
						r.typ2 = u.Type()
						r.w, r.sg, _ = kindOf(u.Type())
					}
				}
			}
		}
	case *ssa.Index:
		r.a, r.b = c.val(in.X), c.val(in.Index)
		r.w2, r.sg2, _ = kindOf(in.Index.Type())
		r.w, r.sg, _ = kindOf(in.Type())
		r.typ2 = in.Type()
		r.op = iIndex
		if isString(in.X.Type()) {
			r.op = iStrIndex
		}
	case *ssa.Lookup:
		r.a, r.b = c.val(in.X), c.val(in.Index)
		if isString(in.X.Type()) {
			r.op = iStrIndex
			r.w2, r.sg2, _ = kindOf(in.Index.Type())
			break
		}
		r.op = iLookup
		mt := in.X.Type().Underlying().(*types.Map)
		r.typ = mt.Key()
		r.typ2 = mt.Elem()
		r.ok = in.CommaOk
	case *ssa.Range:
		r.op, r.a = iRange, c.val(in.X)
		r.ok = isString(in.X.Type())
	case *ssa.Next:
		r.op, r.a, r.ok = iNext, c.val(in.Iter), in.IsString
		r.typ = in.Type()
	case *ssa.TypeAssert:
		r.op, r.a, r.ok = iTypeAssert, c.val(in.X), in.CommaOk
		r.typ = in.AssertedType
		if _, ok := in.AssertedType.Underlying().(*types.Interface); !ok {
			r.aux = m.rtype(in.AssertedType)
		}
	case *ssa.Extract:
		r.op, r.a, r.b = iExtract, c.val(in.Tuple), int32(in.Index)
	case *ssa.Jump:
		r.op = iJump
	case *ssa.If:
		r.op, r.a = iIf, c.val(in.Cond)
	case *ssa.Return:
		r.op = iReturn
		for _, x := range in.Results {
			r.args = append(r.args, c.val(x))
		}
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Panic:
		r.op, r.a = iPanic, c.val(in.X)
	case *ssa.Store:
		r.op, r.a, r.b = iStore, c.val(in.Addr), c.val(in.Val)
		if isAgg(in.Val.Type()) {
			r.op = iStoreAgg
			r.shape = m.shape(in.Val.Type())
		}
	case *ssa.MapUpdate:
		r.op, r.a, r.b, r.c = iMapUpdate, c.val(in.Map), c.val(in.Key), c.val(in.Value)
		r.typ = in.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.DebugRef:
		r.op = iNop
	default:
		r.op = iUnsupported
	}
	if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
		// loads fused into the previous iIndexLoad
		if ia, ok := u.X.(*ssa.IndexAddr); ok && !isAgg(u.Type()) && ia.Referrers() != nil && len(*ia.Referrers()) == 1 && ia.Block() == u.Block() {
			b := u.Block()
			for i, x := range b.Instrs {
				if x == ssa.Instruction(u) && i > 0 && b.Instrs[i-1] == ssa.Instruction(ia) {
					r.op = iNop
				}
			}
		}
	}
	return r
}

type callInfo struct {
	fn      *Func        // static
	builtin *ssa.Builtin // builtin
	method  *types.Func  // invoke
	argT    []types.Type
	resT    types.Type
}

func (c *compiler) call(r *Instr, cc *ssa.CallCommon) {
	ci := &callInfo{}
	r.aux = ci
	if cc.IsInvoke() {
		ci.method = cc.Method
		r.a = c.val(cc.Value)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v
			for _, a := range cc.Args {
				ci.argT = append(ci.argT, a.Type())
			}
			if x := cc.Signature(); x != nil && x.Results().Len() == 1 {
				ci.resT = x.Results().At(0).Type()
			}
		case *ssa.Function:
			ci.fn = c.m.fnOf(v)
		default:
			r.a = c.val(v)
		}
	}
	for _, a := range cc.Args {
		r.args = append(r.args, c.val(a))
	}
}
