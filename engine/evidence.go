package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func funcDecl(d ast.Decl) (*ast.FuncDecl, bool) {
	f, ok := d.(*ast.FuncDecl)
	return f, ok
}

type harnessEv struct {
	Name        string         `json:"harness"`
	Bound       string         `json:"bound"`
	Complete    bool           `json:"complete_within_bound"`
	Paths       int            `json:"paths"`
	Ends        map[string]int `json:"path_ends"`
	Decisions   int            `json:"branch_decisions_on_symbolic_conditions"`
	Queries     int            `json:"z3_branch_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	Certs       int            `json:"z3_path_certificates"`
	Claims      int            `json:"infeasibility_claims_certified"`
	SolverS     float64        `json:"solver_s"`
	Steps       int64          `json:"ssa_instructions_executed"`
	WallS       float64        `json:"wall_s"`
	Reach       map[string]int `json:"reachability_witnesses,omitempty"`
	Incomplete  map[string]int `json:"incomplete_reasons,omitempty"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Left        int            `json:"unexplored_prefixes,omitempty"`
}

type evidence struct {
	prop, tier string
	seed       int
	hs         []*harnessEv
	replayed   int
	mismatches []string
	notes      []string
	samples    []any
	funcs      []string
	wall       float64
	viol       int
	badCerts   int
	vacuous    []string
}

func newEvidence(prop, tier string, seed int) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed}
}

func (ev *evidence) mismatch(h string, r *pathResult, rep nativeReply) {
	for _, l := range r.dbg {
		fmt.Fprintln(os.Stderr, "DBG", l)
	}
	s := fmt.Sprintf("%s: model %v: executor %s %s obs %q, native %s %s obs %q", h, r.Model, r.End, r.Msg, r.Obs, rep.End, rep.Msg, rep.Obs)
	if len(s) > 3000 {
		s = s[:3000]
	}
	ev.mismatches = append(ev.mismatches, s)
}

func (ev *evidence) note(h, s string) { ev.notes = append(ev.notes, h+": "+s) }

func (ev *evidence) add(h *harness, e *explorer, ms []*Machine, d time.Duration) {
	x := &harnessEv{Name: h.name, Bound: strings.TrimSpace(h.doc), Ends: map[string]int{}, Reach: map[string]int{}, Incomplete: map[string]int{}, Unsupported: map[string]int{}}
	for _, m := range ms {
		x.Paths += m.stat.paths
		x.Decisions += m.stat.decisions
		x.Steps += m.stat.steps
		for k, v := range m.stat.ends {
			x.Ends[k] += v
		}
		for k, v := range m.stat.reach {
			x.Reach[k] += v
		}
		for k, v := range m.stat.incomplete {
			x.Incomplete[k] += v
		}
		for k, v := range m.stat.unsupported {
			x.Unsupported[k] += v
		}
		for _, c := range m.stat.badCerts {
			ev.badCerts++
			if ev.badCerts <= 3 {
				ev.note(h.name, "certificate refuted: "+c)
			}
		}
		x.Queries += m.sol.queries
		x.Sat += m.sol.sat
		x.Unsat += m.sol.unsat
		x.Unknown += m.sol.unknown
		x.Certs += m.sol.certs
		x.Claims += m.sol.claims
		x.SolverS += m.sol.time.Seconds()
	}
	x.WallS = d.Seconds()
	x.Left = len(e.todo)
	x.Complete = !e.timedOut && len(x.Incomplete) == 0 && x.Ends["unsupported"] == 0 && x.Ends["steps"] == 0 && len(e.todo) == 0
	for _, r := range strings.Split(h.opts["reach"], ",") {
		if r != "" && x.Reach[r] == 0 {
			ev.vacuous = append(ev.vacuous, h.name+" never reaches "+r)
		}
	}
	for i, s := range e.samples {
		if i >= 3 {
			break
		}
		ev.samples = append(ev.samples, map[string]any{"harness": h.name, "variables": s.Model, "observed": s.Obs})
	}
	ev.hs = append(ev.hs, x)
}

func (ev *evidence) printLast() {
	x := ev.hs[len(ev.hs)-1]
	fmt.Printf("%-28s complete=%v paths=%d ends=%v dec=%d q=%d(unk %d) certs=%d claims=%d solver=%.1fs steps=%dM wall=%.1fs left=%d\n", x.Name, x.Complete, x.Paths, x.Ends, x.Decisions, x.Queries, x.Unknown, x.Certs, x.Claims, x.SolverS, x.Steps/1e6, x.WallS, x.Left)
	if len(x.Incomplete) > 0 {
		fmt.Println("   incomplete:", x.Incomplete)
	}
	for k, v := range x.Unsupported {
		fmt.Println("   unsupported:", v, k)
	}
	if len(x.Reach) > 0 {
		fmt.Println("   reach:", x.Reach)
	}
}

func (ev *evidence) finish(ms []*Machine, d time.Duration, viol []violation) {
	ev.wall = d.Seconds()
	ev.viol = len(viol)
	set := map[string]bool{}
	for _, m := range ms {
		for _, f := range m.funcs {
			if !f.repo || f.fn.Synthetic != "" {
				continue
			}
			for _, c := range f.cov {
				if c {
					set[f.name] = true
					break
				}
			}
		}
	}
	for f := range set {
		ev.funcs = append(ev.funcs, strings.ReplaceAll(f, repoModule, "."))
	}
	sort.Strings(ev.funcs)
	for _, s := range ev.mismatches {
		fmt.Fprintln(os.Stderr, "WARNING: executor and native run differ:", s)
	}
	for _, s := range ev.vacuous {
		fmt.Fprintln(os.Stderr, "WARNING: vacuity:", s)
	}
	for _, s := range ev.notes {
		fmt.Fprintln(os.Stderr, "WARNING:", s)
	}
}

func (ev *evidence) summary() string {
	p, q, c := 0, 0, 0
	complete := true
	for _, h := range ev.hs {
		p += h.Paths
		q += h.Queries
		c += h.Certs
		complete = complete && h.Complete
	}
	return fmt.Sprintf("harnesses=%d paths=%d z3_queries=%d z3_certificates=%d complete=%v replayed=%d mismatches=%d wall=%.1fs", len(ev.hs), p, q, c, complete, ev.replayed, len(ev.mismatches), ev.wall)
}

func (ev *evidence) write() error {
	complete := true
	states, trans, certs, queries, claims := 0, 0, 0, 0, 0
	solver := 0.0
	for _, h := range ev.hs {
		complete = complete && h.Complete
		states += h.Paths
		trans += h.Decisions
		certs += h.Certs
		queries += h.Queries
		claims += h.Claims
		solver += h.SolverS
	}
	if len(ev.mismatches) > 0 || ev.badCerts > 0 {
		complete = false
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": ev.replayed,
		"samples":                       ev.samples,
		"exhaustive":                    complete,
		"explanation": "states = symbolic paths, each standing for every input that satisfies its path condition; transitions = branch decisions on symbolic conditions, both sides of which the solver decided. " +
			"exhaustive means the paths cover every input within the bounds listed per harness.",
		"harnesses":                  ev.hs,
		"functions_encoded":          ev.funcs,
		"z3_branch_queries":          queries,
		"z3_path_certificates":       certs,
		"infeasibility_claims":       claims,
		"certificates_refuted":       ev.badCerts,
		"solver_seconds_all_workers": solver,
		"executor_native_mismatches": len(ev.mismatches),
		"vacuity_failures":           ev.vacuous,
	}
	o := map[string]any{
		"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": ev.wall, "violations": ev.viol,
	}
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, ev.prop+".json"), b, 0o644)
}

var assumptions = []string{
	"holds only within the bounds given for each harness",
	"go/ssa translates the source faithfully; the executor's SSA semantics (checked by replaying sampled paths natively) and z3 4.8.12 are trusted",
	"regexp is modelled by a symbolic simulation of the program compiled by regexp/syntax; byte and string search, UTF-8 decoding, case mapping, reflect and sync are modelled by intrinsics",
	"map iteration follows insertion order; goroutines, unsafe pointer arithmetic and allocation failure are not modelled",
}

func writeCover(path string, ms []*Machine) {
	type fc struct {
		name    string
		n, hit  int
		missing []string
	}
	cov := map[string]*fc{}
	for _, m := range ms {
		for _, f := range m.funcs {
			if !f.repo || len(f.cov) == 0 {
				continue
			}
			x := cov[f.name]
			if x == nil {
				x = &fc{name: f.name, n: len(f.cov)}
				cov[f.name] = x
			}
		}
	}
	for name, x := range cov {
		hit := make([]bool, x.n)
		for _, m := range ms {
			for _, f := range m.funcs {
				if f.name == name && len(f.cov) == x.n {
					for i, c := range f.cov {
						hit[i] = hit[i] || c
					}
				}
			}
		}
		for i, c := range hit {
			if c {
				x.hit++
				continue
			}
			for _, m := range ms[:1] {
				for fn, f := range m.funcs {
					if f.name == name && i < len(fn.Blocks) {
						for _, in := range fn.Blocks[i].Instrs {
							if p := in.Pos(); p.IsValid() {
								x.missing = append(x.missing, fmt.Sprint(m.prog.Fset.Position(p).Line))
								break
							}
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range cov {
		names = append(names, n)
	}
	sort.Strings(names)
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	for _, n := range names {
		x := cov[n]
		fmt.Fprintf(f, "%s %d/%d missing lines %s\n", n, x.hit, x.n, strings.Join(x.missing, ","))
	}
}
