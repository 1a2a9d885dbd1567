package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harness struct {
	name string
	prop string
	doc  string
	opts map[string]string
	fn   *ssa.Function
}

var harnessRe = regexp.MustCompile(`^(C\d\d)_\w+$`)

func findHarnesses() ([]*harness, error) {
	var hs []*harness
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness/h/*.go"))
	fs2, _ := filepath.Glob(filepath.Join(verifDir, "harness/"+extra+"/h/*.go"))
	fs = append(fs, fs2...)
	for _, f := range fs {
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			fd, ok := funcDecl(d)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if t := strings.TrimPrefix(c.Text, "//vp:model="); t != c.Text {
						models[strings.TrimSpace(t)] = fd.Name.Name
					}
				}
			}
			mm := harnessRe.FindStringSubmatch(fd.Name.Name)
			if mm == nil {
				continue
			}
			h := &harness{name: fd.Name.Name, prop: mm[1], opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if strings.HasPrefix(t, "vp:") {
						for _, kv := range strings.Fields(t[3:]) {
							k, v, _ := strings.Cut(kv, "=")
							h.opts[k] = v
						}
						continue
					}
					h.doc += strings.TrimSpace(t) + " "
				}
			}
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs, nil
}

var registryFile string

func writeRegistry(dir string, hs []*harness) error {
	var sb strings.Builder
	sb.WriteString("package h\n\nvar Registry = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.name, h.name)
	}
	sb.WriteString("}\n")
	registryFile = filepath.Join(dir, "zz_registry.go")
	return os.WriteFile(registryFile, []byte(sb.String()), 0o644)
}

type nativeProc struct {
	bin string
}

// run replays models; the reply list is as long as the models.
type nativeReply struct {
	End   string   `json:"end"`
	Msg   string   `json:"msg"`
	Obs   []obsOut `json:"obs"`
	Stack string   `json:"stack"`
}

func (n *nativeProc) run(h string, models [][]int, env ...string) ([]nativeReply, error) {
	var out []nativeReply
	for len(out) < len(models) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, md := range models[len(out):] {
			if md == nil {
				md = []int{}
			}
			enc.Encode(map[string]any{"harness": h, "model": md})
		}
		cmd := exec.Command(n.bin)
		cmd.Env = append(append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=0"), env...)
		cmd.Stdin = &in
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		sc := bufio.NewScanner(&so)
		sc.Buffer(nil, 64<<20)
		got := 0
		for sc.Scan() {
			var r nativeReply
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				break
			}
			out = append(out, r)
			got++
		}
		if err != nil && len(out) < len(models) {
			if got > 0 && out[len(out)-1].End == "timeout" {
				continue
			}
			// the process died on the next model
			msg := se.String()
			if len(msg) > 2000 {
				msg = msg[:2000]
			}
			out = append(out, nativeReply{End: "crash", Msg: err.Error() + ": " + msg})
			continue
		}
		if got == 0 {
			return out, fmt.Errorf("native replay: %v %s", err, se.String())
		}
	}
	return out, nil
}

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // regular expression on the failure message
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	re       *regexp.Regexp
}

func loadKnown() ([]*known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil, nil
	}
	var ks []*known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> match=/<regexp>/ <what fails>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(rest, " ")
		rest = strings.TrimPrefix(strings.TrimSpace(rest), "match=/")
		i := strings.Index(rest, "/ ")
		if i < 0 {
			return nil, fmt.Errorf("known_findings.txt: bad line %q", l)
		}
		k := &known{Property: id, Match: rest[:i], What: rest[i+2:]}
		k.re, err = regexp.Compile(k.Match)
		if err != nil {
			return nil, err
		}
		ks = append(ks, k)
	}
	return ks, nil
}

type violation struct {
	h   string
	res *pathResult
	rep nativeReply
}

func main() {
	prop := flag.String("prop", "", "property")
	only := flag.String("harness", "", "run only this harness")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	nw := flag.Int("workers", runtime.NumCPU(), "")
	replay := flag.String("replay", "", "replay a violation file natively")
	cover := flag.String("cover", "", "write block coverage of repository functions")
	verbose := flag.Bool("v", false, "")
	budget := flag.Float64("budget", 0, "override seconds per harness")
	keep := flag.Bool("keep-going", false, "do not stop at the first violation")
	noEvidence := flag.Bool("no-evidence", false, "")
	prof := flag.String("cpuprofile", "", "")
	nolist := flag.Int("maxfail", 200, "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(2 << 30)
	rc := realMain(*prop, *only, *tier, *nw, *replay, *cover, *verbose, *budget, *keep, *noEvidence, *nolist)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func die(format string, args ...any) int {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	return 2
}

func realMain(prop, only, tier string, nw int, replayFile, cover string, verbose bool, budget float64, keep, noEvidence bool, maxFail int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "vp")
	if err != nil {
		return die("%v", err)
	}
	defer os.RemoveAll(tmp)
	if replayFile != "" {
		b, _ := os.ReadFile(replayFile)
		var r struct{ Harness string }
		json.Unmarshal(b, &r)
		extra, _, _ = strings.Cut(r.Harness, "_")
	} else if only != "" {
		extra, _, _ = strings.Cut(only, "_")
	} else {
		extra = prop
	}
	if extra == "C19" {
		if err := writeCLI(tmp); err != nil {
			return die("%v", err)
		}
	}
	all, err := findHarnesses()
	if err != nil {
		return die("%v", err)
	}
	if err := writeRegistry(tmp, all); err != nil {
		return die("%v", err)
	}
	// native build in the background
	native := &nativeProc{bin: filepath.Join(tmp, "native")}
	race := false
	var hs []*harness
	for _, h := range all {
		if only != "" && h.name != only || only == "" && h.prop != prop {
			continue
		}
		if h.opts["tier"] == "thorough" && tier != "thorough" && only == "" {
			continue
		}
		if h.opts["tier"] == "quick" && tier == "thorough" && only == "" {
			continue
		}
		if h.opts["race"] != "" {
			race = true
		}
		hs = append(hs, h)
	}
	if prop == "" && len(hs) > 0 {
		prop = hs[0].prop
	}
	buildErr := make(chan error, 1)
	go func() { buildErr <- buildNative(native.bin, tmp, race) }()
	if replayFile != "" {
		if err := <-buildErr; err != nil {
			return die("%v", err)
		}
		return doReplay(native, replayFile)
	}
	if len(hs) == 0 {
		return die("no harness for %s", prop)
	}
	prog, spkgs, err := load()
	if err != nil {
		return die("%v", err)
	}
	tLoad := time.Since(t0)
	for _, h := range hs {
		for _, p := range spkgs {
			if p != nil && p.Pkg.Path() == repoModule+"/zz_verif/h" {
				h.fn = p.Func(h.name)
			}
		}
		if h.fn == nil {
			return die("harness %s not found", h.name)
		}
	}
	machines := make([]*Machine, nw)
	errs := make([]error, nw)
	{
		// the first alone: it forces the lazily built parts of the program
		machines[0], errs[0] = newMachine(prog)
		var wg sync.WaitGroup
		for i := 1; i < nw; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				machines[i], errs[i] = newMachine(prog)
			}(i)
		}
		wg.Wait()
	}
	for _, e := range errs {
		if e != nil {
			return die("%v", e)
		}
	}
	tInit := time.Since(t0) - tLoad
	if err := <-buildErr; err != nil {
		return die("%v", err)
	}
	if verbose {
		fmt.Printf("load %.1fs init %.1fs total %.1fs\n", tLoad.Seconds(), tInit.Seconds(), time.Since(t0).Seconds())
	}
	ks, err := loadKnown()
	if err != nil {
		return die("%v", err)
	}
	ev := newEvidence(prop, tier, seed)
	var viol []violation
	knownHit := map[*known]string{}
	for _, h := range hs {
		for _, m := range machines {
			m.stat = newStats()
			q := m.sol
			q.queries, q.sat, q.unsat, q.unknown, q.certs, q.claims, q.time = 0, 0, 0, 0, 0, 0, 0
			m.replayCheck = os.Getenv("VP_REPLAYCHECK") != ""
		}
		lim := optFloat(h.opts, tier, 60)
		if budget > 0 {
			lim = budget
		}
		h0 := time.Now()
		e := &explorer{
			prog: prog, fn: h.fn, deadline: time.Now().Add(time.Duration(lim * float64(time.Second))),
			maxFail: maxFail, sampleN: int(optFloat(h.opts, "samples", 200)), rng: rand.New(rand.NewSource(int64(seed))),
			maxSteps: int64(optFloat(h.opts, "steps", 30e6)),
		}
		var nmu sync.Mutex
		var conf []violation
		e.onFail = func(r *pathResult) bool {
			// confirm natively as soon as it is found
			nmu.Lock()
			defer nmu.Unlock()
			rep, err := native.run(h.name, [][]int{r.Model})
			if err != nil || len(rep) == 0 {
				return false
			}
			if !isViolation(rep[0]) {
				ev.mismatch(h.name, r, rep[0])
				return false
			}
			for _, k := range ks {
				if k.Property == h.prop && k.re.MatchString(rep[0].Msg) {
					knownHit[k] = rep[0].Msg
					return false
				}
			}
			conf = append(conf, violation{h.name, r, rep[0]})
			return !keep
		}
		e.run(machines)
		viol = append(viol, conf...)
		// replay samples and special paths
		ck := func(rs []*pathResult, special bool) {
			if len(rs) == 0 {
				return
			}
			var models [][]int
			for _, r := range rs {
				models = append(models, r.Model)
			}
			reps, err := native.run(h.name, models)
			if err != nil {
				ev.note(h.name, err.Error())
				return
			}
			for i, rep := range reps {
				ev.replayed++
				if isViolation(rep) {
					kn := false
					for _, k := range ks {
						if k.Property == h.prop && k.re.MatchString(rep.Msg) {
							knownHit[k] = rep.Msg
							kn = true
						}
					}
					if !kn {
						viol = append(viol, violation{h.name, rs[i], rep})
					}
					if !special {
						ev.mismatch(h.name, rs[i], rep)
					}
					continue
				}
				if !special && !sameObs(rs[i], rep) {
					ev.mismatch(h.name, rs[i], rep)
				}
			}
		}
		if len(viol) == 0 || keep {
			ck(e.samples, false)
			sp := e.special
			if len(sp) > 24 {
				sp = sp[:24]
			}
			ck(sp, true)
		}
		ev.add(h, e, machines, time.Since(h0))
		if verbose {
			ev.printLast()
		}
		if len(viol) > 0 && !keep {
			break
		}
	}
	ev.finish(machines, time.Since(t0), viol)
	if cover != "" {
		writeCover(cover, machines)
	}
	if !noEvidence {
		if err := ev.write(); err != nil {
			return die("%v", err)
		}
	}
	var kk []string
	for k := range knownHit {
		kk = append(kk, fmt.Sprintf("KNOWN-FINDING: property=%s %s", k.Property, k.What))
	}
	sort.Strings(kk)
	for _, s := range kk {
		fmt.Println(s)
	}
	if len(viol) > 0 {
		for i, v := range viol {
			p := writeReplay(prop, i, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s %s\n", v.h, v.rep.End, v.rep.Msg)
			if i >= 20 {
				break
			}
		}
		return 1
	}
	fmt.Printf("OK property=%s %s\n", prop, ev.summary())
	return 0
}

func isViolation(r nativeReply) bool {
	switch r.End {
	case "fail", "panic", "timeout", "crash":
		return true
	}
	return false
}

func sameObs(r *pathResult, rep nativeReply) bool {
	if rep.End != "ok" || len(rep.Obs) != len(r.Obs) {
		return false
	}
	for i := range r.Obs {
		if strings.HasPrefix(r.Obs[i].Text, "<") && strings.HasSuffix(r.Obs[i].Text, ">") {
			continue
		}
		// JSON replaces invalid UTF-8
		if r.Obs[i].Label != rep.Obs[i].Label || strings.ToValidUTF8(r.Obs[i].Text, "\uFFFD") != strings.ToValidUTF8(rep.Obs[i].Text, "\uFFFD") {
			if fixUTF8(r.Obs[i].Text) != rep.Obs[i].Text {
				return false
			}
		}
	}
	return true
}

func fixUTF8(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

func optFloat(o map[string]string, k string, def float64) float64 {
	if v, ok := o[k]; ok {
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			return f
		}
	}
	return def
}

func buildNative(bin, tmp string, race bool) error {
	ov := overlay()
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	p := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return err
	}
	args := []string{"build", "-overlay", p, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zz_verif/native")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	if extra == "C19" {
		cli := filepath.Join(tmp, "vimlparser")
		cmd := exec.Command("go", "build", "-o", cli, "./cmd/vimlparser")
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("native build: %v\n%s", err, out)
		}
		os.Setenv("VP_CLI", cli)
	}
	return nil
}

func writeReplay(prop string, i int, v violation) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
	type lv struct {
		Label string
		Value int
		Char  string
	}
	var vars []lv
	for j, x := range v.res.Model {
		l := ""
		if j < len(v.res.Labels) {
			l = v.res.Labels[j].Label
		}
		vars = append(vars, lv{l, x, string(rune(x))})
	}
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.h, "model": v.res.Model, "vars": vars,
		"native_end": v.rep.End, "native_msg": v.rep.Msg, "native_stack": v.rep.Stack,
		"how": "run `bash /verif/check.sh replay " + p + "`"}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func doReplay(n *nativeProc, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return die("%v", err)
	}
	var r struct {
		Harness string
		Model   []int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return die("%v", err)
	}
	rep, err := n.run(r.Harness, [][]int{r.Model})
	if err != nil {
		return die("%v", err)
	}
	fmt.Printf("%s: %s %s\n%s\n", r.Harness, rep[0].End, rep[0].Msg, rep[0].Stack)
	for _, o := range rep[0].Obs {
		fmt.Printf("  %s = %q\n", o.Label, o.Text)
	}
	if isViolation(rep[0]) {
		return 1
	}
	return 0
}
