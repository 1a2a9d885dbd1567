package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode"
	"unsafe"
)

const repoModule = "github.com/vim-jp/go-vimlparser"
const symPkg = repoModule + "/zz_verif/sym."

var intrinsics map[string]Native

func isNilV(v Value) bool { return isNilP(v.P) }

func (m *Machine) tuple(vs ...Value) Value { return m.mkAgg(vs) }

// indexByte gives the index of the first cell equal to c, or -1, as a term.
func (m *Machine) indexByteT(b []*Term, c *Term, last bool) Value {
	ts := m.ts
	res := ts.Const(^uint64(0), 64)
	if last {
		for i := 0; i < len(b); i++ {
			res = ts.Ite(ts.Eq(b[i], c), ts.Const(uint64(i), 64), res)
		}
	} else {
		for i := len(b) - 1; i >= 0; i-- {
			res = ts.Ite(ts.Eq(b[i], c), ts.Const(uint64(i), 64), res)
		}
	}
	return m.termVal(res, true)
}

func (m *Machine) cellTerms(v Value) []*Term {
	cs := sliceVals(v)
	r := make([]*Term, len(cs))
	for i, c := range cs {
		r[i] = m.toTerm(c, 8)
	}
	return r
}

func (m *Machine) indexT(a, b []*Term) Value {
	ts := m.ts
	if len(b) == 0 {
		return Value{}
	}
	res := ts.Const(^uint64(0), 64)
	for i := len(a) - len(b); i >= 0; i-- {
		c := ts.True
		for j := range b {
			c = ts.And(c, ts.Eq(a[i+j], b[j]))
			if c.isFalse() {
				break
			}
		}
		res = ts.Ite(c, ts.Const(uint64(i), 64), res)
	}
	return m.termVal(res, true)
}

// bytesConc returns the concrete contents of a []byte or string value.
func concBytes(cs []Value) ([]byte, bool) {
	b := make([]byte, len(cs))
	for i, c := range cs {
		if c.P != nil {
			return nil, false
		}
		b[i] = byte(c.N)
	}
	return b, true
}

func (m *Machine) lowerTerm(t *Term) *Term {
	ts := m.ts
	up := ts.And(ts.Bin(OUle, ts.bytes['A'], t), ts.Bin(OUle, t, ts.bytes['Z']))
	return ts.Ite(up, ts.Bin(OAdd, t, ts.bytes[32]), t)
}
func (m *Machine) upperTerm(t *Term) *Term {
	ts := m.ts
	lo := ts.And(ts.Bin(OUle, ts.bytes['a'], t), ts.Bin(OUle, t, ts.bytes['z']))
	return ts.Ite(lo, ts.Bin(OSub, t, ts.bytes[32]), t)
}

// asciiOnly decides that every byte is ASCII.
func (m *Machine) asciiOnly(t []*Term) bool {
	c := m.ts.True
	for _, x := range t {
		c = m.ts.And(c, m.ts.Bin(OUlt, x, m.ts.bytes[0x80]))
	}
	return m.decide(c)
}

func nop(m *Machine, a []Value) Value { return Value{} }

func atomicLoad(m *Machine, a []Value) Value { return *m.ptr(a[0]) }
func atomicStore(m *Machine, a []Value) Value {
	m.store(m.ptr(a[0]), a[1])
	return Value{}
}

func init() {
	intrinsics = map[string]Native{
		"internal/abi.NoEscape":            func(m *Machine, a []Value) Value { return a[0] },
		"internal/race.Acquire":            nop,
		"internal/race.Release":            nop,
		"internal/race.ReleaseMerge":       nop,
		"internal/race.Disable":            nop,
		"internal/race.Enable":             nop,
		"internal/stringslite.Index":       strIndexN,
		"strings.Index":                    strIndexN,
		"bytes.Index":                      func(m *Machine, a []Value) Value { return m.indexT(m.cellTerms(a[0]), m.cellTerms(a[1])) },
		"internal/bytealg.IndexByte":       func(m *Machine, a []Value) Value { return m.indexByteV(a[0], a[1]) },
		"internal/bytealg.LastIndexByte":   func(m *Machine, a []Value) Value { return m.indexByteT(m.cellTerms(a[0]), m.toTerm(a[1], 8), true) },
		"internal/bytealg.IndexByteString": func(m *Machine, a []Value) Value { return m.indexByteT(m.strTerms(a[0]), m.toTerm(a[1], 8), false) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, a []Value) Value {
			return m.indexByteT(m.strTerms(a[0]), m.toTerm(a[1], 8), true)
		},
		"internal/bytealg.IndexString": strIndexN,
		"internal/bytealg.Index":       func(m *Machine, a []Value) Value { return m.indexT(m.cellTerms(a[0]), m.cellTerms(a[1])) },
		"internal/bytealg.Count":       func(m *Machine, a []Value) Value { return m.countT(m.cellTerms(a[0]), m.toTerm(a[1], 8)) },
		"internal/bytealg.CountString": func(m *Machine, a []Value) Value { return m.countT(m.strTerms(a[0]), m.toTerm(a[1], 8)) },
		"internal/bytealg.Equal": func(m *Machine, a []Value) Value {
			return m.termVal(m.strEq(m.bytesToStr(sliceVals(a[0])), m.bytesToStr(sliceVals(a[1]))), false)
		},
		"bytes.Equal": func(m *Machine, a []Value) Value {
			return m.termVal(m.strEq(m.bytesToStr(sliceVals(a[0])), m.bytesToStr(sliceVals(a[1]))), false)
		},
		"internal/bytealg.Compare": func(m *Machine, a []Value) Value {
			return m.cmp3(m.bytesToStr(sliceVals(a[0])), m.bytesToStr(sliceVals(a[1])))
		},
		"internal/bytealg.CompareString": func(m *Machine, a []Value) Value { return m.cmp3(a[0], a[1]) },
		"strings.Compare":                func(m *Machine, a []Value) Value { return m.cmp3(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(m *Machine, a []Value) Value {
			n := m.concInt(a[0])
			if n == 0 {
				return mkSlice(&m.cells(1)[0], 0, 0)
			}
			return mkSlice(&m.cells(n)[0], n, n)
		},
		"strings.ToLower": func(m *Machine, a []Value) Value { return m.caseConv(a[0], strings.ToLower, m.lowerTerm) },
		"strings.ToUpper": func(m *Machine, a []Value) Value { return m.caseConv(a[0], strings.ToUpper, m.upperTerm) },
		"strings.EqualFold": func(m *Machine, a []Value) Value {
			x, ok1 := a[0].P.(string)
			y, ok2 := a[1].P.(string)
			if ok1 && ok2 {
				return mkBool(strings.EqualFold(x, y))
			}
			tx, ty := m.strTerms(a[0]), m.strTerms(a[1])
			if len(tx) == len(ty) && (ok1 && isASCII(x) || ok2 && isASCII(y)) {
				// A non-ASCII letter that folds to an ASCII one is longer, so
				// that only ASCII of the same length is equal to ASCII.
				r := m.ts.Bool(true)
				for i := range tx {
					r = m.ts.And(r, m.ts.Eq(m.lowerTerm(tx[i]), m.lowerTerm(ty[i])))
				}
				return m.termVal(r, false)
			}
			if !m.asciiOnly(tx) || !m.asciiOnly(ty) {
				m.unsupported("EqualFold on non-ASCII")
			}
			return m.termVal(m.strEq(m.caseConv(a[0], strings.ToLower, m.lowerTerm), m.caseConv(a[1], strings.ToLower, m.lowerTerm)), false)
		},

		"unicode/utf8.DecodeRuneInString": func(m *Machine, a []Value) Value {
			if strLen(a[0]) == 0 {
				return m.tuple(Value{N: 0xfffd}, Value{})
			}
			r, n := m.decodeRune(a[0], 0)
			return m.tuple(r, mkInt(int64(n)))
		},
		"unicode/utf8.DecodeRune": func(m *Machine, a []Value) Value {
			cs := sliceVals(a[0])
			if len(cs) == 0 {
				return m.tuple(Value{N: 0xfffd}, Value{})
			}
			if len(cs) > 4 {
				cs = cs[:4]
			}
			r, n := m.decodeRune(m.bytesToStr(cs), 0)
			return m.tuple(r, mkInt(int64(n)))
		},
		"unicode/utf8.AppendRune": func(m *Machine, a []Value) Value {
			t := m.runeToTerms(a[1], 32)
			cs := make([]Value, len(t))
			for i, x := range t {
				cs[i] = m.termVal(x, false)
			}
			bs := types.NewSlice(types.Typ[types.Uint8])
			return m.appendB(&callInfo{argT: []types.Type{bs, bs}}, []Value{a[0], mkSliceOf(cs)})
		},
		"unicode/utf8.EncodeRune": func(m *Machine, a []Value) Value {
			t := m.runeToTerms(a[1], 32)
			cs := sliceVals(a[0])
			if len(cs) < len(t) {
				m.rtPanic("index out of range [%d] with length %d", len(t)-1, len(cs))
			}
			for i, x := range t {
				m.store(&cs[i], m.termVal(x, false))
			}
			return mkInt(int64(len(t)))
		},
		"unicode/utf8.RuneLen": func(m *Machine, a []Value) Value {
			if a[0].P != nil {
				return mkInt(int64(len(m.runeToTerms(a[0], 32))))
			}
			r := int64(a[0].N)
			switch {
			case r < 0:
				return mkInt(-1)
			case r < 0x80:
				return mkInt(1)
			case r < 0x800:
				return mkInt(2)
			case r >= 0xd800 && r <= 0xdfff:
				return mkInt(-1)
			case r < 0x10000:
				return mkInt(3)
			case r <= 0x10ffff:
				return mkInt(4)
			}
			return mkInt(-1)
		},
		"unicode/utf8.RuneCountInString": func(m *Machine, a []Value) Value { return m.runeCount(a[0]) },
		"unicode/utf8.RuneCount":         func(m *Machine, a []Value) Value { return m.runeCount(m.bytesToStr(sliceVals(a[0]))) },

		"(*sync.Pool).Get": func(m *Machine, a []Value) Value {
			// field New is the last one
			p := m.ptr(a[0])
			cells := unsafe.Slice(p.P.(*Value), int(p.N))
			nf := cells[len(cells)-1]
			if nf.P == nil {
				return Value{}
			}
			return m.callValue(nf, nil)
		},
		"(*sync.Pool).Put":              nop,
		"(*sync.Mutex).Lock":            nop,
		"(*sync.Mutex).Unlock":          nop,
		"(*sync.Mutex).TryLock":         func(m *Machine, a []Value) Value { return mkBool(true) },
		"(*sync.RWMutex).Lock":          nop,
		"(*sync.RWMutex).Unlock":        nop,
		"(*sync.RWMutex).RLock":         nop,
		"(*sync.RWMutex).RUnlock":       nop,
		"(*internal/sync.Mutex).Lock":   nop,
		"(*internal/sync.Mutex).Unlock": nop,
		"runtime.Gosched":               nop,
		"runtime.KeepAlive":             nop,
		"runtime.SetFinalizer":          nop,
		"runtime.GC":                    nop,
		"math.Float64bits":              func(m *Machine, a []Value) Value { return a[0] },
		"math.Float64frombits":          func(m *Machine, a []Value) Value { return a[0] },
		"math.Float32bits": func(m *Machine, a []Value) Value {
			return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(a[0].N))))}
		},

		"errors.As": errorsAs,
		"errors.Is": errorsIs,

		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		"regexp.MustCompile": reCompile,
		"regexp.Compile":     func(m *Machine, a []Value) Value { return m.tuple(reCompile(m, a), Value{}) },
		"regexp.QuoteMeta":   nil,
		"regexp.MatchString": func(m *Machine, a []Value) Value {
			return m.tuple(m.reMatch(m.mustStr(a[0], "pattern"), a[1]), Value{})
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, a []Value) Value { return m.reMatch(m.rePat(a[0]), a[1]) },
		"(*regexp.Regexp).Match": func(m *Machine, a []Value) Value {
			return m.reMatch(m.rePat(a[0]), m.bytesToStr(sliceVals(a[1])))
		},
		"(*regexp.Regexp).String": func(m *Machine, a []Value) Value { return mkStr(m.rePat(a[0])) },
		"(*regexp.Regexp).FindString": func(m *Machine, a []Value) Value {
			return mkStr(hostRe(m.rePat(a[0])).FindString(m.mustStr(a[1], "regexp input")))
		},
		"(*regexp.Regexp).FindStringIndex": func(m *Machine, a []Value) Value {
			r := hostRe(m.rePat(a[0])).FindStringIndex(m.mustStr(a[1], "regexp input"))
			if r == nil {
				return Value{}
			}
			return mkSliceOf([]Value{mkInt(int64(r[0])), mkInt(int64(r[1]))})
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, a []Value) Value {
			r := hostRe(m.rePat(a[0])).FindStringSubmatch(m.mustStr(a[1], "regexp input"))
			if r == nil {
				return Value{}
			}
			var vs []Value
			for _, s := range r {
				vs = append(vs, mkStr(s))
			}
			return mkSliceOf(vs)
		},
		"(*regexp.Regexp).ReplaceAllString": func(m *Machine, a []Value) Value {
			return mkStr(hostRe(m.rePat(a[0])).ReplaceAllString(m.mustStr(a[1], "regexp input"), m.mustStr(a[2], "repl")))
		},

		"reflect.ValueOf": func(m *Machine, a []Value) Value {
			i, _ := a[0].P.(*Iface)
			if i == nil {
				return m.mkAgg([]Value{{}, {}, {}})
			}
			return m.rvalue(i.t, i.v)
		},
		"reflect.TypeOf": func(m *Machine, a []Value) Value {
			i, _ := a[0].P.(*Iface)
			if i == nil {
				return Value{}
			}
			rt := m.stdType("reflect", "rtype")
			return Value{P: &Iface{t: m.rtype(types.NewPointer(rt)), v: Value{P: i.t}}}
		},
		"(*reflect.rtype).String": func(m *Machine, a []Value) Value {
			return mkStr(types.TypeString(a[0].P.(*RType).t, (*types.Package).Name))
		},
		"(*reflect.rtype).Kind": func(m *Machine, a []Value) Value {
			return rvKind(m, []Value{m.mkAgg([]Value{{P: a[0].P}, {}, {}})})
		},
		"(reflect.Value).Kind":         rvKind,
		"(reflect.Value).IsValid":      func(m *Machine, a []Value) Value { return mkBool(agg(a[0])[0].P != nil) },
		"(reflect.Value).CanInterface": func(m *Machine, a []Value) Value { return mkBool(true) },
		"(reflect.Value).CanAddr":      func(m *Machine, a []Value) Value { return mkBool(false) },
		"(reflect.Value).Len":          rvLen,
		"(reflect.Value).Index": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			i := m.concInt(a[1])
			switch u := t.t.Underlying().(type) {
			case *types.Slice:
				if i < 0 || i >= sliceLen(v) {
					m.rtPanic("reflect: slice index out of range")
				}
				return m.rvalue(m.rtype(u.Elem()), sliceVals(v)[i])
			case *types.Array:
				return m.rvalue(m.rtype(u.Elem()), agg(v)[i])
			case *types.Basic:
				return m.rvalue(m.rtype(types.Typ[types.Uint8]), m.strByte(v, i))
			}
			m.unsupported("reflect Index of %s", t.t)
			return Value{}
		},
		"(reflect.Value).Elem": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			switch u := t.t.Underlying().(type) {
			case *types.Interface:
				i, _ := v.P.(*Iface)
				if i == nil {
					return m.mkAgg([]Value{{}, {}, {}})
				}
				return m.rvalue(i.t, i.v)
			case *types.Pointer:
				if isNilV(v) {
					return m.mkAgg([]Value{{}, {}, {}})
				}
				return m.rvalue(m.rtype(u.Elem()), *m.ptr(v))
			}
			m.unsupported("reflect Elem of %s", t.t)
			return Value{}
		},
		"(reflect.Value).NumField": func(m *Machine, a []Value) Value {
			t, _ := rvOf(m, a[0])
			return mkInt(int64(t.t.Underlying().(*types.Struct).NumFields()))
		},
		"(reflect.Value).Field": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			i := m.concInt(a[1])
			return m.rvalue(m.rtype(t.t.Underlying().(*types.Struct).Field(i).Type()), agg(v)[i])
		},
		"(reflect.Value).Interface": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			if _, ok := t.t.Underlying().(*types.Interface); ok {
				return v
			}
			return Value{P: &Iface{t, v}}
		},
		"(reflect.Value).IsNil": func(m *Machine, a []Value) Value {
			_, v := rvOf(m, a[0])
			return mkBool(isNilV(v))
		},
		"(reflect.Value).String": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			if isString(t.t) {
				return v
			}
			return mkStr("<" + types.TypeString(t.t, func(p *types.Package) string { return p.Name() }) + " Value>")
		},
		"(reflect.Value).Int":   rvRaw,
		"(reflect.Value).Uint":  rvRaw,
		"(reflect.Value).Bool":  rvRaw,
		"(reflect.Value).Float": rvRaw,
		"(reflect.Value).MapIndex": func(m *Machine, a []Value) Value {
			t, v := rvOf(m, a[0])
			_, k := rvOf(m, a[1])
			mp, _ := v.P.(*Map)
			if mp != nil {
				if i := m.mapFind(mp, k); i >= 0 {
					return m.rvalue(m.rtype(t.t.Underlying().(*types.Map).Elem()), mp.ents[i].v)
				}
			}
			return m.mkAgg([]Value{{}, {}, {}})
		},

		"os.Exit": func(m *Machine, a []Value) Value {
			m.abort("exit", "%d", m.concInt(a[0]))
			return Value{}
		},
	}
	delete(intrinsics, "regexp.QuoteMeta")
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+t] = atomicLoad
		intrinsics["sync/atomic.Store"+t] = atomicStore
		w, sg := uint8(64), strings.HasPrefix(t, "Int")
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Add"+t] = func(m *Machine, a []Value) Value {
			p := m.ptr(a[0])
			v := Value{N: norm(p.N+a[1].N, w, sg)}
			m.store(p, v)
			return v
		}
		intrinsics["sync/atomic.Swap"+t] = func(m *Machine, a []Value) Value {
			p := m.ptr(a[0])
			old := *p
			m.store(p, a[1])
			return old
		}
		intrinsics["sync/atomic.CompareAndSwap"+t] = func(m *Machine, a []Value) Value {
			p := m.ptr(a[0])
			if p.N == a[1].N && (p.P == a[1].P || isNilP(p.P) && isNilP(a[1].P)) {
				m.store(p, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		}
	}
	for k, v := range symIntrinsics {
		intrinsics[symPkg+k] = v
	}
}

func strIndexN(m *Machine, a []Value) Value {
	x, ok1 := a[0].P.(string)
	y, ok2 := a[1].P.(string)
	if ok1 && ok2 {
		return mkInt(int64(strings.Index(x, y)))
	}
	if strLen(a[1]) > strLen(a[0]) {
		return mkInt(-1)
	}
	return m.indexT(m.strTerms(a[0]), m.strTerms(a[1]))
}

func (m *Machine) indexByteV(s, c Value) Value {
	if c.P == nil {
		cs := sliceVals(s)
		for i, x := range cs {
			if x.P != nil {
				break
			}
			if byte(x.N) == byte(c.N) {
				return mkInt(int64(i))
			}
			if i == len(cs)-1 {
				return mkInt(-1)
			}
		}
	}
	return m.indexByteT(m.cellTerms(s), m.toTerm(c, 8), false)
}

func (m *Machine) countT(b []*Term, c *Term) Value {
	ts := m.ts
	n := uint64(0)
	var sum *Term
	for _, x := range b {
		e := ts.Eq(x, c)
		if e.op == OConst {
			n += e.k
			continue
		}
		one := ts.Ite(e, ts.Const(1, 64), ts.Const(0, 64))
		if sum == nil {
			sum = one
		} else {
			sum = ts.Bin(OAdd, sum, one)
		}
	}
	if sum == nil {
		return mkInt(int64(n))
	}
	return m.termVal(ts.Bin(OAdd, sum, ts.Const(n, 64)), true)
}

func (m *Machine) cmp3(a, b Value) Value {
	ts := m.ts
	return m.termVal(ts.Ite(m.strLess(a, b), ts.Const(^uint64(0), 64), ts.Ite(m.strEq(a, b), ts.Const(0, 64), ts.Const(1, 64))), true)
}

func (m *Machine) caseConv(v Value, f func(string) string, g func(*Term) *Term) Value {
	if s, ok := v.P.(string); ok {
		return mkStr(f(s))
	}
	t := m.strTerms(v)
	var r []*Term
	for i := 0; i < len(t); {
		if t[i].op == OConst && t[i].k < 0x80 {
			r = append(r, g(t[i]))
			i++
			continue
		}
		if m.decide(m.ts.Bin(OUlt, t[i], m.ts.bytes[0x80])) {
			r = append(r, g(t[i]))
			i++
			continue
		}
		x, n := m.decodeTerms(t[i:])
		if x.P != nil {
			r = append(r, m.runeToTerms(m.termVal(m.caseRune(x.P.(*Term), f("a") == "a"), true), 32)...)
		} else {
			r = append(r, m.strTerms(mkStr(f(string(rune(x.N)))))...)
		}
		i += n
	}
	return m.mkSymStr(r)
}

// caseRune is unicode.ToLower or ToUpper of a rune term (32 bits).
func (m *Machine) caseRune(t *Term, lower bool) *Term {
	ts := m.ts
	k := unicode.UpperCase
	if lower {
		k = unicode.LowerCase
	}
	K := func(x rune) *Term { return ts.Const(uint64(uint32(x)), 32) }
	r := t
	for _, cr := range unicode.CaseRanges {
		lo, hi, d := rune(cr.Lo), rune(cr.Hi), cr.Delta[k]
		if d == 0 {
			continue
		}
		v := ts.Bin(OAdd, t, K(d))
		if d > unicode.MaxRune {
			v = ts.Bin(OAdd, K(lo), ts.Bin(OOr, ts.Bin(OAnd, ts.Bin(OSub, t, K(lo)), K(^1)), K(rune(k&1))))
		}
		r = ts.Ite(ts.And(ts.Bin(OUle, K(lo), t), ts.Bin(OUle, t, K(hi))), v, r)
	}
	return r
}

func (m *Machine) runeCount(s Value) Value {
	n := 0
	for i := 0; i < strLen(s); {
		_, sz := m.decodeRune(s, i)
		i += sz
		n++
	}
	return mkInt(int64(n))
}

// reflection

func (m *Machine) rvalue(t *RType, v Value) Value {
	c := new(Value)
	*c = v
	return m.mkAgg([]Value{{P: t}, {P: c}, {}})
}

func rvOf(m *Machine, v Value) (*RType, Value) {
	a := agg(v)
	t, _ := a[0].P.(*RType)
	if t == nil {
		m.rtPanic("reflect: call of method on zero Value")
	}
	return t, *a[1].P.(*Value)
}

func rvRaw(m *Machine, a []Value) Value {
	t, v := rvOf(m, a[0])
	if v.P != nil {
		if x, ok := v.P.(*Term); ok {
			w, sg, _ := kindOf(t.t)
			if w != 0 && w < 64 {
				return m.termVal(m.ts.Conv(x, 64, sg), sg)
			}
		}
	}
	return v
}

var basicKind = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
	types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8,
	types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64,
	types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func rvKind(m *Machine, a []Value) Value {
	t, _ := agg(a[0])[0].P.(*RType)
	if t == nil {
		return Value{}
	}
	var k reflect.Kind
	switch u := t.t.Underlying().(type) {
	case *types.Basic:
		k = basicKind[u.Kind()]
	case *types.Array:
		k = reflect.Array
	case *types.Chan:
		k = reflect.Chan
	case *types.Signature:
		k = reflect.Func
	case *types.Interface:
		k = reflect.Interface
	case *types.Map:
		k = reflect.Map
	case *types.Pointer:
		k = reflect.Pointer
	case *types.Slice:
		k = reflect.Slice
	case *types.Struct:
		k = reflect.Struct
	}
	return Value{N: uint64(k)}
}

func rvLen(m *Machine, a []Value) Value {
	t, _ := agg(a[0])[0].P.(*RType)
	if t == nil {
		m.rtPanic("reflect: call of reflect.Value.Len on zero Value")
	}
	_, v := rvOf(m, a[0])
	switch u := t.t.Underlying().(type) {
	case *types.Slice:
		return mkInt(int64(sliceLen(v)))
	case *types.Array:
		return mkInt(u.Len())
	case *types.Map:
		mp, _ := v.P.(*Map)
		if mp == nil {
			return Value{}
		}
		return mkInt(int64(mp.n))
	case *types.Basic:
		if isString(t.t) {
			return mkInt(int64(strLen(v)))
		}
	}
	m.rtPanic("reflect: call of reflect.Value.Len on %s Value", t.t)
	return Value{}
}

// errors

func (m *Machine) unwrap(e *Iface) []*Iface {
	ms := types.NewMethodSet(e.t.t)
	sel := ms.Lookup(nil, "Unwrap")
	if sel == nil {
		return nil
	}
	fn := sel.Obj().(*types.Func)
	r := m.call(m.method(e.t, fn), []Value{e.v}, nil)
	if _, ok := fn.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice); ok {
		var out []*Iface
		for _, x := range sliceVals(r) {
			if i, ok := x.P.(*Iface); ok && i != nil {
				out = append(out, i)
			}
		}
		return out
	}
	if i, ok := r.P.(*Iface); ok && i != nil {
		return []*Iface{i}
	}
	return nil
}

func errorsAs(m *Machine, a []Value) Value {
	e, _ := a[0].P.(*Iface)
	tgt, _ := a[1].P.(*Iface)
	if tgt == nil {
		m.rtPanic("errors: target cannot be nil")
	}
	if e == nil {
		return mkBool(false)
	}
	et := tgt.t.t.Underlying().(*types.Pointer).Elem()
	var walk func(e *Iface) bool
	walk = func(e *Iface) bool {
		if types.AssignableTo(e.t.t, et) {
			if types.IsInterface(et) {
				m.store(m.ptr(tgt.v), Value{P: e})
			} else {
				m.store(m.ptr(tgt.v), e.v)
			}
			return true
		}
		for _, u := range m.unwrap(e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return mkBool(walk(e))
}

func errorsIs(m *Machine, a []Value) Value {
	e, _ := a[0].P.(*Iface)
	t, _ := a[1].P.(*Iface)
	if e == nil || t == nil {
		return mkBool(e == nil && t == nil)
	}
	var walk func(e *Iface) bool
	walk = func(e *Iface) bool {
		if e.t.cmp && t.t.cmp && m.decide(m.eqIface(Value{P: e}, Value{P: t})) {
			return true
		}
		for _, u := range m.unwrap(e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return mkBool(walk(e))
}

func sortSlice(m *Machine, a []Value) Value {
	i, _ := a[0].P.(*Iface)
	s := sliceVals(i.v)
	// insertion sort on the slice itself: less takes indices
	for x := 1; x < len(s); x++ {
		for y := x; y > 0; y-- {
			if !m.decideV(m.callValue(a[1], []Value{mkInt(int64(y)), mkInt(int64(y - 1))})) {
				break
			}
			t := s[y]
			m.store(&s[y], s[y-1])
			m.store(&s[y-1], t)
		}
	}
	return Value{}
}

// sym API

var symIntrinsics = map[string]Native{
	"Byte": func(m *Machine, a []Value) Value {
		return m.termVal(m.newVar(m.mustStr(a[0], "label"), 0, 'a'), false)
	},
	"Choose": func(m *Machine, a []Value) Value {
		n := m.concInt(a[1])
		if n <= 0 || n > 256 {
			m.abort("unsupported", "Choose(%d)", n)
		}
		if n == 1 {
			return Value{}
		}
		t := m.newVar(m.mustStr(a[0], "label"), n, 0)
		m.assume(m.ts.Bin(OUlt, t, m.ts.Const(uint64(n), 8)))
		return m.termVal(m.ts.Conv(t, 64, false), true)
	},
	"Pick": func(m *Machine, a []Value) Value {
		opts := sliceVals(a[1])
		n := len(opts)
		if n == 1 {
			return opts[0]
		}
		if n > 256 {
			m.abort("unsupported", "Pick of %d", n)
		}
		t := m.newVar(m.mustStr(a[0], "label"), n, 0)
		m.assume(m.ts.Bin(OUlt, t, m.ts.Const(uint64(n), 8)))
		return opts[int(m.concretize(t))]
	},
	// PickSym chooses between strings of the same length without forking
	"PickSym": func(m *Machine, a []Value) Value {
		opts := sliceVals(a[1])
		n := len(opts)
		if n == 1 {
			return opts[0]
		}
		if n > 256 {
			m.abort("unsupported", "Pick of %d", n)
		}
		t := m.newVar(m.mustStr(a[0], "label"), n, 0)
		m.assume(m.ts.Bin(OUlt, t, m.ts.Const(uint64(n), 8)))
		l := strLen(opts[0])
		r := append([]*Term(nil), m.strTerms(opts[n-1])...)
		for i := n - 2; i >= 0; i-- {
			o := m.strTerms(opts[i])
			if len(o) != l {
				m.abort("unsupported", "PickSym of different lengths")
			}
			c := m.ts.Eq(t, m.ts.Const(uint64(i), 8))
			for j := range r {
				r[j] = m.ts.Ite(c, o[j], r[j])
			}
		}
		return m.mkSymStr(r)
	},
	"Bytes": func(m *Machine, a []Value) Value {
		n := m.concInt(a[1])
		label := m.mustStr(a[0], "label")
		r := make([]*Term, n)
		for i := range r {
			r[i] = m.newVar(fmt.Sprintf("%s[%d]", label, i), 0, 'a')
		}
		return m.mkSymStr(r)
	},
	// BytesIn is a string of n bytes drawn from a set
	"BytesIn": func(m *Machine, a []Value) Value {
		n := m.concInt(a[1])
		set := setOf(m.mustStr(a[2], "set"))
		label := m.mustStr(a[0], "label")
		def := byte('a')
		if !set.has(def) {
			for _, b := range prefOrder {
				if set.has(b) {
					def = b
					break
				}
			}
		}
		r := make([]*Term, n)
		for i := range r {
			r[i] = m.newVar(fmt.Sprintf("%s[%d]", label, i), 0, def)
			m.assume(m.ts.InSet(r[i], set))
		}
		return m.mkSymStr(r)
	},
	"In": func(m *Machine, a []Value) Value {
		set := setOf(m.mustStr(a[1], "set"))
		return m.termVal(m.ts.InSet(m.toTerm(a[0], 8), set), false)
	},
	"And": func(m *Machine, a []Value) Value {
		return m.termVal(m.ts.And(m.toTerm(a[0], 0), m.toTerm(a[1], 0)), false)
	},
	"Or": func(m *Machine, a []Value) Value {
		return m.termVal(m.ts.Or(m.toTerm(a[0], 0), m.toTerm(a[1], 0)), false)
	},
	"Not": func(m *Machine, a []Value) Value {
		return m.termVal(m.ts.Not(m.toTerm(a[0], 0)), false)
	},
	"Assume": func(m *Machine, a []Value) Value {
		m.assume(m.toTerm(a[0], 0))
		return Value{}
	},
	"Fail": func(m *Machine, a []Value) Value {
		m.p.failed = &failure{msg: m.evalStr(a[0]), args: []Value{a[0]}}
		m.abort("fail", "%s", m.evalStr(a[0]))
		return Value{}
	},
	"Reach": func(m *Machine, a []Value) Value {
		m.p.reach = append(m.p.reach, m.mustStr(a[0], "label"))
		return Value{}
	},
	"Observe": func(m *Machine, a []Value) Value {
		m.p.obs = append(m.p.obs, obsItem{m.mustStr(a[0], "label"), a[1]})
		return Value{}
	},
	"GlobalWrites": func(m *Machine, a []Value) Value {
		return mkStr(strings.Join(m.p.gwrites, "; "))
	},
	"Share": func(m *Machine, a []Value) Value {
		m.sharing = a[0].N != 0
		if m.sharing && m.shSlabs == nil {
			m.shSlabs = [][]Value{}
		}
		return Value{}
	},
	"SharedWrites": func(m *Machine, a []Value) Value {
		return mkStr(strings.Join(m.p.swrites, "; "))
	},
	"Concrete": func(m *Machine, a []Value) Value {
		return mkStr(m.mustStr(a[0], "Concrete"))
	},
	"Symbolic": func(m *Machine, a []Value) Value { return mkBool(true) },
	"Truncate": func(m *Machine, a []Value) Value {
		m.abort("assume", "")
		return Value{}
	},
}

func setOf(s string) Set256 {
	var set Set256
	for i := 0; i < len(s); i++ {
		set.add(s[i])
	}
	return set
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
