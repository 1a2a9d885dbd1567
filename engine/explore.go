package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func shapeMap() map[types.Type]*aggShape { return map[types.Type]*aggShape{} }

type stats struct {
	paths, decisions, claims, unknown int
	ends                              map[string]int
	incomplete                        map[string]int
	unsupported                       map[string]int
	steps                             int64
	badCerts                          []string
	reach                             map[string]int
}

func newStats() *stats {
	return &stats{ends: map[string]int{}, incomplete: map[string]int{}, unsupported: map[string]int{}, reach: map[string]int{}}
}

// Result of one path, for native replay.
type pathResult struct {
	Model  []int      `json:"model"`
	Labels []varLabel `json:"-"`
	End    string     `json:"end"`
	Msg    string     `json:"msg"`
	Obs    []obsOut   `json:"obs"`
	Panic  string     `json:"panic,omitempty"`
	size   int
	dbg    []string
}

type obsOut struct {
	Label string `json:"l"`
	Text  string `json:"t"`
}

type explorer struct {
	prog     *ssa.Program
	fn       *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	todo     []work
	busy     int
	stop     bool
	deadline time.Time
	timedOut bool
	fails    []*pathResult
	samples  []*pathResult
	special  []*pathResult // unsupported or step-limited
	npaths   int
	maxFail  int
	sampleN  int
	rng      *rand.Rand
	onFail   func(*pathResult) bool
	maxSteps int64
	maxPaths int
}

func (m *Machine) panicText(tp *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	i, _ := tp.v.P.(*Iface)
	if i == nil {
		return "nil"
	}
	if isString(i.t.t) && m.p != nil {
		return m.evalStr(i.v)
	}
	if isString(i.t.t) {
		if x, ok := i.v.P.(string); ok {
			return x
		}
	}
	return i.t.t.String()
}

// runPath executes one path.
func (m *Machine) runPath(fn *Func, w work) (res *pathResult, forks []work) {
	m.p = &path{prefix: w.prefix, model: append([]byte(nil), w.model...)}
	m.ts.SetModel(m.p.model)
	m.sol.NewPath()
	clear(m.runeSrc)
	m.depth, m.sp, m.curFn, m.panicking = 0, 0, m.curFn[:0], nil
	m.sum = nil
	stack := m.stack
	res = &pathResult{}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				res.End = "ok"
				return
			}
			switch x := r.(type) {
			case *pathEnd:
				res.End, res.Msg = x.kind, x.msg
			case *targetPanic:
				res.End, res.Msg = "panic", m.panicText(x)+" ("+x.msg+")"
			default:
				if os.Getenv("VP_DEBUG") != "" {
					panic(r)
				}
				res.End, res.Msg = "unsupported", fmt.Sprintf("engine: %v in %s", r, m.where())
			}
		}()
		m.call(fn, nil, nil)
	}()
	m.stack = stack
	m.sum = nil
	p := m.p
	m.stat.paths++
	m.stat.steps += p.steps
	m.stat.ends[res.End]++
	if res.End == "unsupported" {
		m.stat.unsupported[res.Msg]++
	}
	for _, r := range p.reach {
		m.stat.reach[r]++
	}
	res.dbg = p.dbg
	m.ts.SetModel(p.model)
	for i, t := range p.pc {
		if m.ts.Eval(t) == 0 {
			m.stat.badCerts = append(m.stat.badCerts, fmt.Sprintf("model %v violates constraint %d of %d: %v", p.model, i, len(p.pc), t))
			break
		}
	}
	for i := 0; i < p.nvars; i++ {
		res.Model = append(res.Model, int(p.model[i]))
	}
	res.Labels = p.labels
	for _, o := range p.obs {
		res.Obs = append(res.Obs, obsOut{o.label, m.obsText(o.v)})
	}
	for _, c := range p.claims {
		k := [2]int32{c.dom.id, c.t.id}
		if !m.claimSeen[k] {
			m.claimSeen[k] = true
			m.pending = append(m.pending, c)
		}
	}
	if len(m.pending) >= 100 {
		m.certify()
	}
	forks = p.forks
	clear(m.stack[:min(len(m.stack), 4096)])
	m.restore()
	m.p = nil
	if len(m.ts.tab) > 3000000 {
		m.resetTerms()
	}
	return res, forks
}

// certify has the solver confirm the pending claims.
func (m *Machine) certify() {
	if r, msg := m.sol.Certify(m.pending); r != Unsat {
		if r == Sat {
			m.stat.badCerts = append(m.stat.badCerts, msg)
		} else {
			m.stat.incomplete["certificate query unknown"]++
		}
	}
	m.pending = m.pending[:0]
}

func (m *Machine) resetTerms() {
	m.certify()
	m.claimSeen = map[[2]int32]bool{}
	// drop the term table; nothing survives a path except caches keyed by ids
	old := m.sol
	m.ts = newTerms()
	m.sol = newSolver(m.ts)
	m.sol.queries, m.sol.sat, m.sol.unsat, m.sol.unknown, m.sol.certs, m.sol.claims, m.sol.time = old.queries, old.sat, old.unsat, old.unknown, old.certs, old.claims, old.time
	m.sumCache = map[string]Value{}
}

func (m *Machine) obsText(v Value) string {
	i, _ := v.P.(*Iface)
	if i == nil {
		if v.P == nil {
			return "<nil>"
		}
		return m.evalStr(v)
	}
	if isString(i.t.t) {
		return m.evalStr(i.v)
	}
	if w, sg, ok := kindOf(i.t.t); ok {
		t := m.toTerm(i.v, w)
		x := m.ts.Eval(t)
		if w == 0 {
			return fmt.Sprint(x != 0)
		}
		if sg {
			return fmt.Sprint(sx(x, w))
		}
		return fmt.Sprint(x)
	}
	return "<" + i.t.t.String() + ">"
}

func (e *explorer) take() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return work{}, false
		}
		if time.Now().After(e.deadline) {
			if len(e.todo) > 0 || e.busy > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		if n := len(e.todo); n > 0 {
			i := n - 1
			if e.rng.Intn(4) == 0 {
				i = e.rng.Intn(n)
			}
			w := e.todo[i]
			e.todo[i] = e.todo[n-1]
			e.todo[n-1] = work{}
			e.todo = e.todo[:n-1]
			e.busy++
			return w, true
		}
		if e.busy == 0 {
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
	}
}

func (e *explorer) done(res *pathResult, forks []work) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.busy--
	e.npaths++
	e.todo = append(e.todo, forks...)
	switch res.End {
	case "fail", "panic", "exit":
		if len(e.fails) < e.maxFail {
			e.fails = append(e.fails, res)
			if e.onFail != nil && e.onFail(res) {
				e.stop = true
			}
		}
	case "unsupported", "steps":
		if len(e.special) < 400 {
			e.special = append(e.special, res)
		}
	}
	if res.End == "ok" {
		// reservoir sample
		if len(e.samples) < e.sampleN {
			e.samples = append(e.samples, res)
		} else if i := e.rng.Intn(e.npaths); i < e.sampleN {
			e.samples[i] = res
		}
	}
	if e.maxPaths > 0 && e.npaths >= e.maxPaths {
		if len(e.todo) > 0 {
			e.timedOut = true
		}
		e.stop = true
	}
	e.cond.Broadcast()
}

func (e *explorer) run(machines []*Machine) {
	e.cond = sync.NewCond(&e.mu)
	e.todo = []work{{}}
	var wg sync.WaitGroup
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTick:
				return
			case <-t.C:
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}
	}()
	for _, m := range machines {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			m.maxSteps = e.maxSteps
			fn := m.fnOf(e.fn)
			for {
				w, ok := e.take()
				if !ok {
					m.certify()
					return
				}
				res, forks := m.runPath(fn, w)
				e.done(res, forks)
			}
		}(m)
	}
	wg.Wait()
	close(stopTick)
	sort.Slice(e.fails, func(i, j int) bool { return len(e.fails[i].Model) < len(e.fails[j].Model) })
}
