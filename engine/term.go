package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Symbolic terms.  All variables are 8-bit vectors.  Terms are hash-consed per
// worker and survive across paths.

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot // bitwise not
	OZext
	OSext
	OExtract // low w bits starting at k
	OIte
	// boolean valued
	OUlt
	OUle
	OSlt
	OSle
	OEq
	OBNot
	OBAnd
	OBOr
)

var opNames = []string{"var", "const", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvnot", "zext", "sext", "extract", "ite", "bvult", "bvule", "bvslt", "bvsle", "=", "not", "and", "or"}

type Set256 [4]uint64

func (s *Set256) has(b byte) bool { return s[b>>6]>>(b&63)&1 != 0 }
func (s *Set256) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s Set256) and(t Set256) Set256 {
	return Set256{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s Set256) andNot(t Set256) Set256 {
	return Set256{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}
func (s Set256) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

var fullSet = Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Term struct {
	op      Op
	w       uint8 // 0 = boolean
	k       uint64
	a, b, c *Term
	id      int32
	v       int32   // single variable index, -1 none (constant), -2 several
	vs      []int32 // sorted, when v == -2
	truth   *Set256 // single-variable boolean: values that make it true
	vals    []uint64
	gen     uint64
	val     uint64
	z3      uintptr
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.k == 0 }

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type Terms struct {
	tab   map[tkey]*Term
	n     int32
	vars  []*Term
	True  *Term
	False *Term
	bytes [256]*Term
	gen   uint64
	model []byte
}

func newTerms() *Terms {
	ts := &Terms{tab: map[tkey]*Term{}}
	ts.True = ts.mk(OConst, 0, 1, nil, nil, nil)
	ts.False = ts.mk(OConst, 0, 0, nil, nil, nil)
	for i := 0; i < 256; i++ {
		ts.bytes[i] = ts.mk(OConst, 8, uint64(i), nil, nil, nil)
	}
	return ts
}

func (ts *Terms) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op: op, w: w, k: k, a: -1, b: -1, c: -1}
	if a != nil {
		key.a = a.id
	}
	if b != nil {
		key.b = b.id
	}
	if c != nil {
		key.c = c.id
	}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: ts.n, v: -1}
	ts.n++
	if op == OVar {
		t.v = int32(k)
	} else {
		for _, x := range [3]*Term{a, b, c} {
			if x != nil {
				t.mergeVars(x)
			}
		}
	}
	ts.tab[key] = t
	return t
}

func (t *Term) mergeVars(x *Term) {
	switch {
	case x.v == -1:
	case t.v == -1:
		t.v, t.vs = x.v, x.vs
	case t.v == x.v && t.v >= 0:
	default:
		t.vs = unionVars(t.varList(), x.varList())
		t.v = -2
	}
}

func (t *Term) varList() []int32 {
	switch t.v {
	case -1:
		return nil
	case -2:
		return t.vs
	}
	return []int32{t.v}
}

func unionVars(a, b []int32) []int32 {
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (ts *Terms) Var(i int) *Term {
	for len(ts.vars) <= i {
		ts.vars = append(ts.vars, ts.mk(OVar, 8, uint64(len(ts.vars)), nil, nil, nil))
	}
	return ts.vars[i]
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	if w == 8 {
		return ts.bytes[byte(v)]
	}
	if w == 0 {
		if v != 0 {
			return ts.True
		}
		return ts.False
	}
	return ts.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func evalOp(op Op, w uint8, k uint64, aw uint8, a, b uint64) uint64 {
	b2u := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sx(a, w) < 0 {
				return 1
			}
			return mask(w)
		}
		if sx(b, w) == -1 {
			return -a & mask(w)
		}
		return uint64(sx(a, w)/sx(b, w)) & mask(w)
	case OSRem:
		if b == 0 {
			return a
		}
		if sx(b, w) == -1 {
			return 0
		}
		return uint64(sx(a, w)%sx(b, w)) & mask(w)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & mask(w)
	case ONot:
		return ^a & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & mask(w)
	case OExtract:
		return a >> k & mask(w)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OEq:
		return b2u(a == b)
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic("evalOp")
}

// Eval evaluates t under ts.model.
func (ts *Terms) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return uint64(ts.model[t.k])
	}
	if t.gen == ts.gen {
		return t.val
	}
	var r uint64
	switch t.op {
	case OIte:
		if ts.Eval(t.a) != 0 {
			r = ts.Eval(t.b)
		} else {
			r = ts.Eval(t.c)
		}
	case OBAnd:
		r = ts.Eval(t.a)
		if r != 0 {
			r = ts.Eval(t.b)
		}
	case OBOr:
		r = ts.Eval(t.a)
		if r == 0 {
			r = ts.Eval(t.b)
		}
	default:
		a := ts.Eval(t.a)
		var b uint64
		if t.b != nil {
			b = ts.Eval(t.b)
		}
		r = evalOp(t.op, t.w, t.k, t.a.w, a, b)
	}
	t.gen, t.val = ts.gen, r
	return r
}

func (ts *Terms) SetModel(m []byte) { ts.model = m; ts.gen++ }
func (ts *Terms) Touch()            { ts.gen++ }

// table gives the value of a single-variable term for each value of its variable.
func (ts *Terms) table(t *Term) []uint64 {
	if t.vals != nil {
		return t.vals
	}
	r := make([]uint64, 256)
	switch t.op {
	case OVar:
		for i := range r {
			r[i] = uint64(i)
		}
	case OConst:
		for i := range r {
			r[i] = t.k
		}
		return r // not cached: constants are shared
	case OIte:
		a, b, c := ts.table(t.a), ts.table(t.b), ts.table(t.c)
		for i := range r {
			if a[i] != 0 {
				r[i] = b[i]
			} else {
				r[i] = c[i]
			}
		}
	default:
		a := ts.table(t.a)
		if t.b != nil {
			b := ts.table(t.b)
			for i := range r {
				r[i] = evalOp(t.op, t.w, t.k, t.a.w, a[i], b[i])
			}
		} else {
			for i := range r {
				r[i] = evalOp(t.op, t.w, t.k, t.a.w, a[i], 0)
			}
		}
	}
	t.vals = r
	return r
}

// Truth gives the set of values of t's single variable that make t true.
func (ts *Terms) Truth(t *Term) *Set256 {
	if t.truth != nil {
		return t.truth
	}
	s := new(Set256)
	switch t.op {
	case OBNot:
		*s = fullSet.andNot(*ts.Truth(t.a))
	case OBAnd:
		if t.a.isConst() || t.b.isConst() {
			panic("unsimplified and")
		}
		*s = ts.Truth(t.a).and(*ts.Truth(t.b))
	case OBOr:
		x, y := ts.Truth(t.a), ts.Truth(t.b)
		for i := range s {
			s[i] = x[i] | y[i]
		}
	default:
		tab := ts.table(t)
		for i := 0; i < 256; i++ {
			if tab[i] != 0 {
				s.add(byte(i))
			}
		}
	}
	t.truth = s
	return s
}

// canonical form of a single-variable boolean
func (ts *Terms) normBool(t *Term) *Term {
	if t.v >= 0 && t.w == 0 {
		s := ts.Truth(t)
		if s.empty() {
			return ts.False
		}
		if *s == fullSet {
			return ts.True
		}
	}
	return t
}

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.k == 0)
	case OBNot:
		return a.a
	}
	return ts.mk(OBNot, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return ts.False
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if ts.Not(a) == b {
		return ts.False
	}
	return ts.normBool(ts.mk(OBAnd, 0, 0, a, b, nil))
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return ts.True
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if ts.Not(a) == b {
		return ts.True
	}
	return ts.normBool(ts.mk(OBOr, 0, 0, a, b, nil))
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	return ts.mk(OIte, a.w, 0, c, a, b)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return ts.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return ts.False
			}
			return ts.Eq(a.a, ts.Const(b.k, a.a.w))
		case OSext:
			lo := b.k & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.k {
				return ts.False
			}
			return ts.Eq(a.a, ts.Const(lo, a.a.w))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return ts.Or(ts.And(a.a, ts.Eq(a.b, b)), ts.And(ts.Not(a.a), ts.Eq(a.c, b)))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	}
	return ts.normBool(ts.mk(OEq, 0, 0, a, b, nil))
}

// Bin builds a bit-vector operation (result width = operand width) or a comparison.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if op == OEq {
		return ts.Eq(a, b)
	}
	w := a.w
	if op >= OUlt {
		w = 0
	}
	if a.isConst() && b.isConst() {
		return ts.Const(evalOp(op, w, 0, a.w, a.k, b.k), w)
	}
	if a == b {
		switch op {
		case OUlt, OSlt:
			return ts.False
		case OUle, OSle:
			return ts.True
		case OSub, OXor:
			return ts.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	switch op {
	case OAdd, OOr, OXor, OShl, OLShr, OAShr, OSub:
		if b.isConst() && b.k == 0 {
			return a
		}
		if a.isConst() && a.k == 0 && (op == OAdd || op == OOr || op == OXor) {
			return b
		}
	case OMul:
		if b.isConst() && b.k == 1 {
			return a
		}
	case OAnd:
		if b.isConst() && b.k == mask(w) {
			return a
		}
		if b.isConst() && b.k == 0 || a.isConst() && a.k == 0 {
			return ts.Const(0, w)
		}
		if a.op == OZext && b.isConst() && b.k&mask(a.a.w) == mask(a.a.w) {
			return a
		}
	}
	// push operations with a constant through ite of constants
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return ts.Ite(a.a, ts.Bin(op, a.b, b), ts.Bin(op, a.c, b))
	}
	if a.isConst() && b.op == OIte && (b.b.isConst() || b.c.isConst()) {
		return ts.Ite(b.a, ts.Bin(op, a, b.b), ts.Bin(op, a, b.c))
	}
	if w == 0 {
		// comparisons of zero-extended values with constants
		if a.op == OZext && b.isConst() {
			m := mask(a.a.w)
			signedNeg := (op == OSlt || op == OSle) && sx(b.k, b.w) < 0
			if signedNeg {
				return ts.False
			}
			if b.k > m {
				return ts.True
			}
			u := op
			if op == OSlt {
				u = OUlt
			} else if op == OSle {
				u = OUle
			}
			return ts.Bin(u, a.a, ts.Const(b.k, a.a.w))
		}
		if b.op == OZext && a.isConst() {
			m := mask(b.a.w)
			if (op == OSlt || op == OSle) && sx(a.k, a.w) < 0 {
				return ts.True
			}
			if a.k > m {
				return ts.False
			}
			u := op
			if op == OSlt {
				u = OUlt
			} else if op == OSle {
				u = OUle
			}
			return ts.Bin(u, ts.Const(a.k, b.a.w), b.a)
		}
		return ts.normBool(ts.mk(op, 0, 0, a, b, nil))
	}
	return ts.mk(op, w, 0, a, b, nil)
}

func (ts *Terms) BVNot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(^a.k, a.w)
	}
	return ts.mk(ONot, a.w, 0, a, nil, nil)
}

// Conv converts a bit vector to width w, extending by sign if signed.
func (ts *Terms) Conv(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		if a.isConst() {
			return ts.Const(a.k, w)
		}
		switch a.op {
		case OZext, OSext:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return ts.Conv(a.a, w, false)
			}
			return ts.Conv(a.a, w, a.op == OSext)
		case OIte:
			return ts.Ite(a.a, ts.Conv(a.b, w, false), ts.Conv(a.c, w, false))
		}
		return ts.mk(OExtract, w, 0, a, nil, nil)
	}
	if a.isConst() {
		if signed {
			return ts.Const(uint64(sx(a.k, a.w)), w)
		}
		return ts.Const(a.k, w)
	}
	if a.op == OZext {
		return ts.mk(OZext, w, 0, a.a, nil, nil)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return ts.Ite(a.a, ts.Conv(a.b, w, signed), ts.Conv(a.c, w, signed))
	}
	if signed {
		return ts.mk(OSext, w, 0, a, nil, nil)
	}
	return ts.mk(OZext, w, 0, a, nil, nil)
}

// InSet is the membership of byte term t in s.
func (ts *Terms) InSet(t *Term, s Set256) *Term {
	if t.isConst() {
		return ts.Bool(s.has(byte(t.k)))
	}
	r := ts.False
	for i := 0; i < 256; {
		if !s.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j < 255 && s.has(byte(j+1)) {
			j++
		}
		var c *Term
		if i == j {
			c = ts.Eq(t, ts.bytes[i])
		} else {
			c = ts.And(ts.Bin(OUle, ts.bytes[i], t), ts.Bin(OUle, t, ts.bytes[j]))
		}
		r = ts.Or(r, c)
		i = j + 1
	}
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OVar:
		fmt.Fprintf(sb, "v%d", t.k)
		return
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k == 1)
		} else {
			fmt.Fprintf(sb, "%d:%d", t.k, t.w)
		}
		return
	}
	if d > 12 {
		sb.WriteString("...")
		return
	}
	fmt.Fprintf(sb, "(%s", opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d+1)
		}
	}
	sb.WriteByte(')')
}
