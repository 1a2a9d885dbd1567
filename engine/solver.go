package main

/*
#cgo LDFLAGS: -lz3
#include <z3.h>
#include <stdlib.h>
static void errh(Z3_context c, Z3_error_code e) { (void)c; (void)e; }
static Z3_context newctx(void) {
  Z3_config cfg = Z3_mk_config();
  Z3_context c = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(c, errh);
  return c;
}
static Z3_solver newsolver(Z3_context c, unsigned timeout_ms) {
  Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c);
  Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms);
  Z3_solver_set_params(c, s, p);
  Z3_params_dec_ref(c, p);
  return s;
}
static Z3_ast and2(Z3_context c, Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); }
static Z3_ast or2(Z3_context c, Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(c, 2, x); }
static int val(Z3_context c, Z3_model m, Z3_ast a) {
  Z3_ast v = 0; unsigned u = 0;
  if (!Z3_model_eval(c, m, a, 1, &v)) return -1;
  if (!Z3_get_numeral_uint(c, v, &u)) return -1;
  return (int)u;
}
*/
import "C"

import (
	"fmt"
	"time"
	"unsafe"
)

// Solver wraps one z3 context.
type Solver struct {
	ts       *Terms
	ctx      C.Z3_context
	s        C.Z3_solver
	bv       map[uint8]C.Z3_sort
	pushed   int // constraints of the current path already asserted
	queries  int
	sat      int
	unsat    int
	unknown  int
	certs    int
	claims   int
	time     time.Duration
	uses     int
	ctxTerms []*Term
}

const (
	Unsat   = -1
	Unknown = 0
	Sat     = 1
)

func newSolver(ts *Terms) *Solver {
	s := &Solver{ts: ts}
	s.reset()
	return s
}

func (s *Solver) reset() {
	if s.ctx != nil {
		C.Z3_solver_dec_ref(s.ctx, s.s)
		C.Z3_del_context(s.ctx)
		for _, t := range s.ctxTerms {
			t.z3 = 0
		}
		s.ctxTerms = s.ctxTerms[:0]
	}
	s.ctx = C.newctx()
	s.s = C.newsolver(s.ctx, 20000)
	s.bv = map[uint8]C.Z3_sort{}
	C.Z3_solver_push(s.ctx, s.s)
	s.uses = 0
}

func (s *Solver) sort(w uint8) C.Z3_sort {
	if x, ok := s.bv[w]; ok {
		return x
	}
	x := C.Z3_mk_bv_sort(s.ctx, C.uint(w))
	s.bv[w] = x
	return x
}

func (s *Solver) ast(t *Term) C.Z3_ast {
	if t.z3 != 0 {
		return C.Z3_ast(unsafe.Pointer(t.z3))
	}
	var r C.Z3_ast
	c := s.ctx
	switch t.op {
	case OVar:
		r = C.Z3_mk_const(c, C.Z3_mk_int_symbol(c, C.int(t.k)), s.sort(8))
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				r = C.Z3_mk_true(c)
			} else {
				r = C.Z3_mk_false(c)
			}
		} else {
			r = C.Z3_mk_unsigned_int64(c, C.uint64_t(t.k), s.sort(t.w))
		}
	default:
		var a, b, d C.Z3_ast
		a = s.ast(t.a)
		if t.b != nil {
			b = s.ast(t.b)
		}
		if t.c != nil {
			d = s.ast(t.c)
		}
		switch t.op {
		case OAdd:
			r = C.Z3_mk_bvadd(c, a, b)
		case OSub:
			r = C.Z3_mk_bvsub(c, a, b)
		case OMul:
			r = C.Z3_mk_bvmul(c, a, b)
		case OUDiv:
			r = C.Z3_mk_bvudiv(c, a, b)
		case OSDiv:
			r = C.Z3_mk_bvsdiv(c, a, b)
		case OURem:
			r = C.Z3_mk_bvurem(c, a, b)
		case OSRem:
			r = C.Z3_mk_bvsrem(c, a, b)
		case OAnd:
			r = C.Z3_mk_bvand(c, a, b)
		case OOr:
			r = C.Z3_mk_bvor(c, a, b)
		case OXor:
			r = C.Z3_mk_bvxor(c, a, b)
		case OShl:
			r = C.Z3_mk_bvshl(c, a, b)
		case OLShr:
			r = C.Z3_mk_bvlshr(c, a, b)
		case OAShr:
			r = C.Z3_mk_bvashr(c, a, b)
		case ONot:
			r = C.Z3_mk_bvnot(c, a)
		case OZext:
			r = C.Z3_mk_zero_ext(c, C.uint(t.w-t.a.w), a)
		case OSext:
			r = C.Z3_mk_sign_ext(c, C.uint(t.w-t.a.w), a)
		case OExtract:
			r = C.Z3_mk_extract(c, C.uint(uint(t.k)+uint(t.w)-1), C.uint(t.k), a)
		case OIte:
			r = C.Z3_mk_ite(c, a, b, d)
		case OUlt:
			r = C.Z3_mk_bvult(c, a, b)
		case OUle:
			r = C.Z3_mk_bvule(c, a, b)
		case OSlt:
			r = C.Z3_mk_bvslt(c, a, b)
		case OSle:
			r = C.Z3_mk_bvsle(c, a, b)
		case OEq:
			r = C.Z3_mk_eq(c, a, b)
		case OBNot:
			r = C.Z3_mk_not(c, a)
		case OBAnd:
			r = C.and2(c, a, b)
		case OBOr:
			r = C.or2(c, a, b)
		}
	}
	if r == nil {
		panic("z3: cannot build " + t.String())
	}
	t.z3 = uintptr(unsafe.Pointer(r))
	s.ctxTerms = append(s.ctxTerms, t)
	return r
}

// NewPath drops the constraints of the previous path.
func (s *Solver) NewPath() {
	if s.pushed > 0 {
		C.Z3_solver_pop(s.ctx, s.s, 1)
		C.Z3_solver_push(s.ctx, s.s)
		s.pushed = 0
	}
	if s.uses > 20000 {
		s.reset()
	}
}

// Check decides pc /\ extra.  If satisfiable the values of vars are returned.
func (s *Solver) Check(pc []*Term, extra *Term, nvars int, def []byte) (int, []byte) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.uses++
	for ; s.pushed < len(pc); s.pushed++ {
		C.Z3_solver_assert(s.ctx, s.s, s.ast(pc[s.pushed]))
	}
	s.queries++
	C.Z3_solver_push(s.ctx, s.s)
	C.Z3_solver_assert(s.ctx, s.s, s.ast(extra))
	r := C.Z3_solver_check(s.ctx, s.s)
	var out []byte
	switch r {
	case C.Z3_L_TRUE:
		s.sat++
		m := C.Z3_solver_get_model(s.ctx, s.s)
		C.Z3_model_inc_ref(s.ctx, m)
		out = make([]byte, nvars)
		copy(out, def)
		relevant := map[int32]bool{}
		for _, t := range pc {
			for _, v := range t.varList() {
				relevant[v] = true
			}
		}
		for _, v := range extra.varList() {
			relevant[v] = true
		}
		for v := range relevant {
			x := C.val(s.ctx, m, s.ast(s.ts.Var(int(v))))
			if x < 0 {
				panic("z3: no value")
			}
			out[v] = byte(x)
		}
		C.Z3_model_dec_ref(s.ctx, m)
	case C.Z3_L_FALSE:
		s.unsat++
	default:
		s.unknown++
	}
	C.Z3_solver_pop(s.ctx, s.s, 1)
	return int(r), out
}

// certItem claims that dom (constraints of a path on one variable) and t
// exclude each other.
type certItem struct{ dom, t *Term }

// Certify confirms claims made from truth tables: no disjunct dom_i /\ t_i has
// a model.
func (s *Solver) Certify(items []certItem) (int, string) {
	if len(items) == 0 {
		return Unsat, ""
	}
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.NewPath()
	s.uses++
	args := make([]C.Z3_ast, len(items))
	for i, it := range items {
		args[i] = C.and2(s.ctx, s.ast(it.dom), s.ast(it.t))
	}
	C.Z3_solver_push(s.ctx, s.s)
	C.Z3_solver_assert(s.ctx, s.s, C.Z3_mk_or(s.ctx, C.uint(len(args)), &args[0]))
	r := int(C.Z3_solver_check(s.ctx, s.s))
	C.Z3_solver_pop(s.ctx, s.s, 1)
	s.certs++
	s.claims += len(items)
	if r == Sat {
		msg := ""
		for _, it := range items {
			msg += fmt.Sprintf("claim: %v excludes %v\n", it.dom, it.t)
		}
		return r, msg
	}
	return r, ""
}
