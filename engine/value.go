package main

import (
	"fmt"
	"go/types"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value.
//
//	integers, booleans, floats  concrete: N (signed types sign-extended), P nil
//	                            symbolic: P = *Term
//	string                      P = string or *SymStr (nil: "")
//	pointer                     P = *Value (nil: nil pointer)
//	struct, array, tuple        P = *Value (first element), N = number of elements
//	slice                       P = *Value (first element), N = len<<32 | cap
//	interface                   P = *Iface (nil: nil)
//	map                         P = *Map
//	func                        P = *Closure or *ssa.Builtin
//	unsafe.Pointer              as the pointer it came from
type Value struct {
	N uint64
	P any
}

type SymStr struct{ t []*Term }

type Iface struct {
	t *RType
	v Value
}

type RType struct {
	id   int
	t    types.Type
	kind types.BasicKind // for basic underlying, else 0
	meth map[string]*Closure
	cmp  bool
}

type Closure struct {
	fn   *Func
	free []Value
}

type Native func(m *Machine, args []Value) Value

type mapEnt struct {
	k, v Value
	del  bool
}

// Map keeps insertion order.
type Map struct {
	idx    map[any]int // concrete keys only
	ents   []mapEnt
	n      int
	nsym   int
	frozen bool
	shared bool
	kt     types.Type
}

type tupleVal []Value

func mkInt(n int64) Value { return Value{N: uint64(n)} }
func mkBool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func mkStr(s string) Value { return Value{P: s} }

// term values
func (m *Machine) termVal(t *Term, signed bool) Value {
	if t.op == OConst {
		if signed && t.w != 0 {
			return Value{N: uint64(sx(t.k, t.w))}
		}
		return Value{N: t.k}
	}
	return Value{P: t}
}

func asTerm(v Value) *Term {
	if v.P == nil {
		return nil
	}
	t, _ := v.P.(*Term)
	return t
}

// toTerm turns a scalar value of width w into a term.
func (m *Machine) toTerm(v Value, w uint8) *Term {
	if v.P != nil {
		t := v.P.(*Term)
		return t
	}
	return m.ts.Const(v.N, w)
}

func agg(v Value) []Value {
	if v.N == 0 {
		return nil
	}
	return unsafe.Slice(v.P.(*Value), int(v.N))
}

func (m *Machine) mkAgg(vs []Value) Value {
	if len(vs) == 0 {
		return Value{}
	}
	return Value{N: uint64(len(vs)), P: &vs[0]}
}

func sliceLen(v Value) int { return int(v.N >> 32) }
func sliceCap(v Value) int { return int(v.N & 0xffffffff) }
func sliceVals(v Value) []Value {
	n := sliceLen(v)
	if n == 0 {
		return nil
	}
	return unsafe.Slice(v.P.(*Value), n)
}
func mkSlice(p *Value, n, c int) Value {
	if p == nil {
		return Value{}
	}
	return Value{N: uint64(n)<<32 | uint64(c), P: p}
}
func mkSliceOf(vs []Value) Value {
	if cap(vs) == 0 {
		return mkSlice(new(Value), 0, 0)
	}
	return mkSlice(unsafe.SliceData(vs), len(vs), cap(vs))
}
func ptrAdd(p *Value, i int) *Value {
	return (*Value)(unsafe.Add(unsafe.Pointer(p), uintptr(i)*unsafe.Sizeof(Value{})))
}

// strings

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.t)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

func (m *Machine) strTerms(v Value) []*Term {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.ts.bytes[s[i]]
		}
		return r
	case *SymStr:
		return s.t
	}
	panic(fmt.Sprintf("strTerms %T", v.P))
}

func (m *Machine) mkSymStr(t []*Term) Value {
	for _, x := range t {
		if x.op != OConst {
			return Value{P: &SymStr{t}}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.k)
	}
	return Value{P: string(b)}
}

func (m *Machine) substr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return m.mkSymStr(s.t[lo:hi:hi])
	}
	panic("substr")
}

func (m *Machine) strByte(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return m.termVal(s.t[i], false)
	}
	panic("strByte")
}

func (m *Machine) strCat(a, b Value) Value {
	as, aok := a.P.(string)
	bs, bok := b.P.(string)
	if a.P == nil || aok && as == "" {
		return b
	}
	if b.P == nil || bok && bs == "" {
		return a
	}
	if aok && bok {
		return Value{P: as + bs}
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	return Value{P: &SymStr{append(append(r, x...), y...)}}
}

func (m *Machine) strEq(a, b Value) *Term {
	as, aok := a.P.(string)
	bs, bok := b.P.(string)
	if aok && bok {
		return m.ts.Bool(as == bs)
	}
	n := strLen(a)
	if n != strLen(b) {
		return m.ts.False
	}
	r := m.ts.True
	x, y := m.strTerms(a), m.strTerms(b)
	// cheap inequality first
	for i := range x {
		if x[i].op == OConst && y[i].op == OConst && x[i] != y[i] {
			return m.ts.False
		}
	}
	for i := range x {
		r = m.ts.And(r, m.ts.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess builds a < b.
func (m *Machine) strLess(a, b Value) *Term {
	as, aok := a.P.(string)
	bs, bok := b.P.(string)
	if aok && bok {
		return m.ts.Bool(as < bs)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := m.ts.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.ts.Or(m.ts.Bin(OUlt, x[i], y[i]), m.ts.And(m.ts.Eq(x[i], y[i]), r))
	}
	return r
}

func (m *Machine) mustStr(v Value, what string) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.t))
		for i, t := range s.t {
			b[i] = byte(m.concretize(t))
		}
		return string(b)
	}
	panic("mustStr " + what)
}

// evalStr gives the string under the current model, without constraining.
func (m *Machine) evalStr(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.t))
		for i, t := range s.t {
			b[i] = byte(m.ts.Eval(t))
		}
		return string(b)
	}
	return fmt.Sprintf("?%T", v.P)
}

// type helpers

func kindOf(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func norm(n uint64, w uint8, signed bool) uint64 {
	if w >= 64 || w == 0 {
		return n
	}
	if signed {
		return uint64(sx(n, w))
	}
	return n & mask(w)
}

// typeSize: number of cells is 1 for everything; aggregates are nested.
func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{P: ""}
		}
		return Value{}
	case *types.Struct:
		n := u.NumFields()
		if n == 0 {
			return Value{}
		}
		cells := m.cells(n)
		for i := 0; i < n; i++ {
			if z, ok := m.zeroScalar(u.Field(i).Type()); ok {
				cells[i] = z
			} else {
				cells[i] = m.zero(u.Field(i).Type())
			}
		}
		return Value{N: uint64(n), P: &cells[0]}
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return Value{}
		}
		cells := m.cells(n)
		m.fillZero(cells, u.Elem())
		return Value{N: uint64(n), P: &cells[0]}
	case *types.Tuple:
		cells := make([]Value, u.Len())
		for i := range cells {
			cells[i] = m.zero(u.At(i).Type())
		}
		return m.mkAgg(cells)
	}
	return Value{}
}

func (m *Machine) zeroScalar(t types.Type) (Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{P: ""}, true
		}
		return Value{}, true
	case *types.Struct, *types.Array:
		return Value{}, false
	}
	return Value{}, true
}

func (m *Machine) fillZero(cells []Value, et types.Type) {
	if z, ok := m.zeroScalar(et); ok {
		if z.P == nil {
			return
		}
		for i := range cells {
			cells[i] = z
		}
		return
	}
	for i := range cells {
		cells[i] = m.zero(et)
	}
}

// copyVal copies aggregates (value semantics).
func (m *Machine) copyVal(v Value) Value {
	// only called for static struct/array types
	if v.N == 0 {
		return v
	}
	src := agg(v)
	dst := m.cells(len(src))
	for i, x := range src {
		dst[i] = x
	}
	return Value{N: v.N, P: &dst[0]}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// aggShape describes nested aggregate fields so that copies are deep.
type aggShape struct {
	n      int
	nested []*aggShape // nil when no nested aggregates; per element
	same   *aggShape   // arrays of aggregates
}

func (m *Machine) shape(t types.Type) *aggShape {
	if s, ok := m.shapes[t]; ok {
		return s
	}
	var s *aggShape
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s = &aggShape{n: u.NumFields()}
		for i := 0; i < s.n; i++ {
			if isAgg(u.Field(i).Type()) {
				if s.nested == nil {
					s.nested = make([]*aggShape, s.n)
				}
				s.nested[i] = m.shape(u.Field(i).Type())
			}
		}
	case *types.Array:
		s = &aggShape{n: int(u.Len())}
		if isAgg(u.Elem()) {
			s.same = m.shape(u.Elem())
		}
	}
	m.shapes[t] = s
	return s
}

func (m *Machine) deepCopy(v Value, s *aggShape) Value {
	if s == nil || s.n == 0 {
		return v
	}
	src := unsafe.Slice(v.P.(*Value), s.n)
	dst := m.cells(s.n)
	copy(dst, src)
	if s.nested != nil {
		for i, x := range s.nested {
			if x != nil {
				dst[i] = m.deepCopy(src[i], x)
			}
		}
	} else if s.same != nil {
		for i := range dst {
			dst[i] = m.deepCopy(src[i], s.same)
		}
	}
	return Value{N: v.N, P: &dst[0]}
}

// storeAgg copies v into the aggregate that lives at p (keeping inner addresses).
func (m *Machine) storeAgg(p *Value, v Value, s *aggShape) {
	if s.n == 0 {
		return
	}
	dst := unsafe.Slice(p.P.(*Value), s.n)
	src := unsafe.Slice(v.P.(*Value), s.n)
	if &dst[0] == &src[0] {
		return
	}
	for i := range dst {
		switch {
		case s.nested != nil && s.nested[i] != nil:
			m.storeAgg(&dst[i], src[i], s.nested[i])
		case s.same != nil:
			m.storeAgg(&dst[i], src[i], s.same)
		default:
			m.store(&dst[i], src[i])
		}
	}
}

var _ = ssa.NaiveForm
