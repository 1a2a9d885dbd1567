package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var progMu sync.Mutex

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func init() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
}

// overlay maps the virtual packages of the checks into the repository.
func overlay() map[string]string {
	r := map[string]string{}
	add := func(dir, glob, target string) {
		fs, _ := filepath.Glob(filepath.Join(verifDir, dir, glob))
		for _, f := range fs {
			r[filepath.Join(repoDir, target, filepath.Base(f))] = f
		}
	}
	add("harness/sym", "*.go", "zz_verif/sym")
	add("harness/h", "*.go", "zz_verif/h")
	add("harness/main", "*.go", "zz_verif/native")
	add("harness/internal", "*.go", "go")
	// what only one property needs
	add("harness/"+extra+"/h", "*.go", "zz_verif/h")
	add("harness/"+extra+"/internal", "*.go", "go")
	for dst, src := range cliFiles {
		r[dst] = src
	}
	if registryFile != "" {
		r[filepath.Join(repoDir, "zz_verif/h/zz_registry.go")] = registryFile
	}
	return r
}

// extra is the property whose own harness directory is included. For C19 the
// command line tool becomes an importable package.
var (
	extra    string
	cliFiles map[string]string
)

// writeCLI copies the tool's sources with their package clause changed, so
// that the harness can call main.
func writeCLI(dir string) error {
	cliFiles = map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(repoDir, "cmd/vimlparser/*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, b, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		i := int(a.Name.Pos()) - 1
		b = append(append(append([]byte{}, b[:i]...), "cli"...), b[i+len(a.Name.Name):]...)
		dst := filepath.Join(dir, "cli_"+filepath.Base(f))
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		cliFiles[filepath.Join(repoDir, "zz_verif/cli", filepath.Base(f))] = dst
	}
	dst := filepath.Join(dir, "cli_zz_export.go")
	cliFiles[filepath.Join(repoDir, "zz_verif/cli/zz_export.go")] = dst
	return os.WriteFile(dst, []byte("package cli\n\n// Main is main.\nfunc Main() { main() }\n"), 0o644)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=1")
}

func writeOverlayJSON(dir string) (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": overlay()})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

func load() (*ssa.Program, []*ssa.Package, error) {
	ov := map[string][]byte{}
	for dst, src := range overlay() {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, repoModule+"/zz_verif/h")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, spkgs, nil
}

var initPkgs = map[string]bool{
	"errors": false, "io": true, "bufio": true, "bytes": true, "strings": true, "strconv": true,
	"unicode": true, "unicode/utf8": true, "fmt": true, "sort": true, "internal/fmtsort": true,
	"math/bits": true, "math": true, "slices": true, "cmp": true, "iter": true, "unicode/utf16": true,
	"internal/stringslite": true, "internal/bytealg": false, "internal/oserror": true, "internal/byteorder": true,
	"internal/itoa": true, "maps": true, "path": true, "text/tabwriter": true, "container/list": true, "container/heap": true,
	"internal/strconv": true, "flag": true,
}

type poison struct{}

// newMachine creates a machine with the package initialisers run.
func newMachine(prog *ssa.Program) (m *Machine, err error) {
	ts := newTerms()
	m = &Machine{
		prog: prog, ts: ts, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Value{},
		globName: map[*Value]string{}, msets: map[methKey]*Func{}, implC: map[implKey]bool{},
		stack: make([]Value, 1<<16), sumCache: map[string]Value{}, claimSeen: map[[2]int32]bool{}, runeSrc: map[*Term][]*Term{},
		reCache: map[string]*reProg{}, stat: newStats(), maxSteps: 1 << 40,
	}
	m.shapes = shapeMap()
	m.sol = newSolver(ts)
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				err = fmt.Errorf("package initialisation panics: %s %s", tp.msg, m.panicText(tp))
				return
			}
			if pe, ok := r.(*pathEnd); ok {
				err = fmt.Errorf("package initialisation: %s %s", pe.kind, pe.msg)
				return
			}
			buf := make([]byte, 4096)
			err = fmt.Errorf("package initialisation: %v\n%s", r, buf[:runtime.Stack(buf, false)])
		}
	}()
	m.inInit = true
	seen := map[*ssa.Package]bool{}
	// initialisers run in dependency order through the init functions; calls
	// to initialisers of packages that are not interpreted are skipped.
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, imp := range p.Pkg.Imports() {
			if ip := prog.Package(imp); ip != nil {
				visit(ip)
			}
		}
		path := p.Pkg.Path()
		if initPkgs[path] || strings.HasPrefix(path, repoModule) {
			if strings.HasPrefix(path, repoModule+"/cmd/") {
				return
			}
			m.initPkg(p)
		}
	}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), repoModule) {
			visit(p)
		}
	}
	m.inInit = false
	for _, f := range m.funcs {
		for i := range f.cov {
			f.cov[i] = false
		}
	}
	return m, nil
}

func (m *Machine) initPkg(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	f := m.fnOf(fn)
	m.call(f, nil, nil)
}
