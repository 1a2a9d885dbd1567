package h

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/zz_verif/cli"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

// ---- the operating system as the tool sees it (executor only) ----

type handle struct {
	name   string
	text   string
	dir    bool
	closed bool
}

type exitMark struct{}

var (
	osFiles map[string]string
	osOpen  map[*os.File]*handle
	osOut   string
	osErr   string
	osFull  bool
	osDead  bool // exited: nothing has an effect any more
	osCode  int
)

func osReset(files map[string]string, stdin string, full bool) {
	osFiles, osOut, osErr, osFull, osDead, osCode = files, "", "", full, false, 0
	os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
	osOpen = map[*os.File]*handle{
		os.Stdin:  {name: "/dev/stdin", text: stdin},
		os.Stdout: {name: "/dev/stdout"},
		os.Stderr: {name: "/dev/stderr"},
	}
}

func pathErr(op, name, msg string) error {
	return &os.PathError{Op: op, Path: name, Err: errors.New(msg)}
}

//vp:model=os.Open
func modelOpen(name string) (*os.File, error) {
	t, ok := osFiles[name]
	if !ok {
		return nil, pathErr("open", name, "no such file or directory")
	}
	f := new(os.File)
	osOpen[f] = &handle{name: name, text: t, dir: t == "/"}
	return f, nil
}

//vp:model=os.OpenFile
func modelOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		panic("the tool opens a file for writing: " + name)
	}
	return modelOpen(name)
}

//vp:model=os.ReadFile
func modelReadFile(name string) ([]byte, error) {
	f, err := modelOpen(name)
	if err != nil {
		return nil, err
	}
	h := osOpen[f]
	if h.dir {
		return nil, pathErr("read", name, "is a directory")
	}
	return []byte(h.text), nil
}

//vp:model=(*os.File).Read
func modelRead(f *os.File, p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := osOpen[f]
	if h.closed {
		return 0, pathErr("read", h.name, "file already closed")
	}
	if h.dir {
		return 0, pathErr("read", h.name, "is a directory")
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := copy(p, h.text)
	h.text = h.text[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

//vp:model=(*os.File).Write
func modelWrite(f *os.File, p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := osOpen[f]
	switch {
	case h.closed:
		return 0, pathErr("write", h.name, "file already closed")
	case osDead || len(p) == 0:
	case f == os.Stdout:
		if osFull {
			return 0, pathErr("write", h.name, "no space left on device")
		}
		osOut += string(p)
	case f == os.Stderr:
		osErr += string(p)
	default:
		return 0, pathErr("write", h.name, "bad file descriptor")
	}
	return len(p), nil
}

//vp:model=(*os.File).WriteString
func modelWriteString(f *os.File, s string) (int, error) { return modelWrite(f, []byte(s)) }

//vp:model=(*os.File).ReadFrom
func modelReadFrom(f *os.File, r io.Reader) (int64, error) {
	b := make([]byte, 4096)
	var sum int64
	for {
		n, err := r.Read(b)
		if n > 0 {
			if _, err := modelWrite(f, b[:n]); err != nil {
				return sum, err
			}
			sum += int64(n)
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

//vp:model=(*os.File).Close
func modelClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	h := osOpen[f]
	if h.closed {
		return pathErr("close", h.name, "file already closed")
	}
	h.closed = true
	return nil
}

//vp:model=(*os.File).Sync
func modelSync(f *os.File) error { return nil }

//vp:model=(*os.File).Name
func modelName(f *os.File) string { return osOpen[f].name }

//vp:model=os.Exit
func modelExit(code int) {
	if !osDead {
		osDead, osCode = true, code
	}
	panic(exitMark{})
}

// Whether the default of a flag is worth mentioning in the usage text.
//
//vp:model=flag.isZeroValue
func modelZero(f interface{}, value string) (bool, error) {
	return value == "" || value == "0" || value == "false", nil
}

// JSON encoding stands for itself: what counts is what is encoded and where
// the result goes.
var jsonTo map[*json.Encoder]io.Writer

//vp:model=encoding/json.NewEncoder
func modelNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	if jsonTo == nil {
		jsonTo = map[*json.Encoder]io.Writer{}
	}
	jsonTo[e] = w
	return e
}

//vp:model=(*encoding/json.Encoder).SetIndent
func modelSetIndent(e *json.Encoder, prefix, indent string) {}

//vp:model=(*encoding/json.Encoder).SetEscapeHTML
func modelSetEscapeHTML(e *json.Encoder, on bool) {}

//vp:model=(*encoding/json.Encoder).Encode
func modelEncode(e *json.Encoder, v interface{}) error {
	_, err := jsonTo[e].Write([]byte(jsonText(v) + "\n"))
	return err
}

//vp:model=encoding/json.Marshal
func modelMarshal(v interface{}) ([]byte, error) { return []byte(jsonText(v)), nil }

//vp:model=encoding/json.MarshalIndent
func modelMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	return []byte(jsonText(v)), nil
}

// jsonText is the encoding without the white space between tokens.
func jsonText(v interface{}) string {
	if sym.Symbolic() {
		if n, ok := v.(ast.Node); ok {
			return "json " + dumpAll(n)
		}
		return "json of something else"
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---- running the tool ----

func runTool(args []string, files map[string]string, stdin string, full bool) (r sym.CLI) {
	if !sym.Symbolic() {
		r = sym.RunCLI(args, files, stdin, full)
		return
	}
	osReset(files, stdin, full)
	os.Args = append([]string{"vimlparser"}, args...)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(exitMark); !ok && !osDead {
					panic(x)
				}
			}
		}()
		cli.Main()
	}()
	return sym.CLI{Stdout: osOut, Stderr: osErr, Status: osCode & 0xff}
}

// compact removes the white space between the tokens of JSON documents, which
// then stand on a line each.
func compact(s string) string {
	if sym.Symbolic() {
		return s
	}
	out := ""
	d := json.NewDecoder(strings.NewReader(s))
	for {
		var m json.RawMessage
		err := d.Decode(&m)
		if err == io.EOF {
			return out
		}
		if err != nil {
			return s
		}
		var b bytes.Buffer
		if json.Compact(&b, m) != nil {
			return s
		}
		out += b.String() + "\n"
	}
}

// withoutUsage drops usage texts.
func withoutUsage(s string) string {
	out := ""
	in := false
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "Usage of ") {
			in = true
			continue
		}
		if in && (strings.HasPrefix(l, "  -") || strings.HasPrefix(l, "    \t")) {
			continue
		}
		in = false
		out += l
	}
	return out
}

type script struct {
	text     string
	compiled string // in Vim's command set
	err      string // after the file name, "" if it parses
	nvim     string // the compiled form with -neovim, if err is set for Vim only
}

var scripts = []script{
	{text: "X$\n", compiled: "(excmd \"X$\")\n"},
	{text: "let a = [1, 2]\nif a\n  call F()\nendif", compiled: "(let = a (list 1 2))\n(if a\n  (call (F)))\n"},
	{text: "", compiled: ""},
	{text: "rshada $\n", err: ":1:1: vimlparser: E492: Not an editor command: rshada $", nvim: "(excmd \"rshada $\")\n"},
	{text: "X$\n\nlet a = [\n", err: ":3:10: vimlparser: unexpected token: <EOL>"},
	{text: "/"},
	{},
}

const missing = 6

func pickScript(c string) (int, script) {
	k := forkOn("kind", len(scripts))
	s := scripts[k]
	s.text = strings.Replace(s.text, "$", c, -1)
	s.compiled = strings.Replace(s.compiled, "$", c, -1)
	s.err = strings.Replace(s.err, "$", c, -1)
	s.nvim = strings.Replace(s.nvim, "$", c, -1)
	return k, s
}

var flagForms = []struct {
	args       []string
	nvim, json bool
}{
	{},
	{args: []string{"-neovim"}, nvim: true},
	{args: []string{"-json"}, json: true},
	{args: []string{"-json", "--neovim"}, nvim: true, json: true},
	{args: []string{"-neovim=true", "-json=false", "--"}, nvim: true},
	{args: []string{"-neovim=false", "--json"}, json: true},
}

// expect gives what the tool has to say about one script.
func expect(name string, k int, s script, nvim, js bool) (out, err string) {
	switch {
	case k == missing:
		return "", "open " + name + ": no such file or directory\n"
	case s.text == "/":
		return "", "read " + name + ": is a directory\n"
	case s.err != "" && !(nvim && s.nvim != ""):
		if name == "" {
			// without a file name
			p := strings.SplitN(s.err, ":", 5)
			return "", "vimlparser:" + p[4] + ": line " + p[1] + " col " + p[2] + "\n"
		}
		return "", name + s.err + "\n"
	case js:
		f, e := vimlparser.ParseFile(strings.NewReader(s.text), name, &vimlparser.ParseOption{Neovim: nvim})
		if e != nil {
			sym.Fail("rejected: " + strconv.Quote(s.text))
		}
		return jsonText(f) + "\n", ""
	case nvim && s.nvim != "":
		return s.nvim, ""
	}
	return s.compiled, ""
}

func judge(what string, r sym.CLI, out, errs string, full bool) {
	failed := errs != ""
	if full && out != "" {
		// the output cannot be written
		if r.Status == 0 {
			sym.Fail("status 0 though the output of " + what + " could not be written")
		}
		if !strings.Contains(r.Stderr, "no space left on device") {
			sym.Fail("write error not reported for " + what + ": " + strconv.Quote(r.Stderr))
		}
		rest := r.Stderr
		for _, l := range strings.SplitAfter(errs, "\n") {
			i := strings.Index(rest, l)
			if i < 0 {
				sym.Fail("standard error of " + what + ": got " + strconv.Quote(r.Stderr) + ", want " + strconv.Quote(l) + " in it")
			}
			rest = rest[i+len(l):]
		}
		sym.Reach("full")
		return
	}
	if compactOut := r.Stdout; compactOut != out && compact(compactOut) != out {
		sym.Fail("standard output of " + what + ": got " + strconv.Quote(r.Stdout) + ", want " + strconv.Quote(out))
	}
	if got := withoutUsage(r.Stderr); got != errs {
		sym.Fail("standard error of " + what + ": got " + strconv.Quote(r.Stderr) + ", want " + strconv.Quote(errs))
	}
	if (r.Status != 0) != failed {
		sym.Fail("status " + strconv.Itoa(r.Status) + " for " + what + " with standard error " + strconv.Quote(errs))
	}
	if failed {
		sym.Reach("failed")
	} else {
		sym.Reach("succeeded")
	}
}

// Up to three files, each readable, missing, a directory, empty or malformed.
//
//vp:quick=120 thorough=300 reach=full,failed,succeeded samples=400
func C19_files() { toolFiles(3) }

// The same with four files.
//
//vp:thorough=600 tier=thorough reach=full,failed,succeeded samples=400
func C19_files4() { toolFiles(4) }

func toolFiles(max int) {
	fl := flagForms[forkOn("flags", len(flagForms))]
	args := append([]string{}, fl.args...)
	files := map[string]string{}
	out, errs := "", ""
	c := sym.BytesIn("c", 1, "abc")
	for i, n := 0, 1+forkOn("files", max); i < n; i++ {
		name := []string{"f1", "f%d 2", "-f3", "f4\\"}[i]
		if i > 0 && i == n-1 && forkOn("again", 2) == 1 {
			name = "f1"
		}
		k, s := 0, script{}
		if t, ok := files[name]; ok || name == "f1" && i > 0 {
			for j := range scripts {
				if w := strings.Replace(scripts[j].text, "$", c, -1); ok && w == t && j != missing || !ok && j == missing {
					k, s = j, scripts[j]
					s.text = w
					s.compiled = strings.Replace(s.compiled, "$", c, -1)
					s.err = strings.Replace(s.err, "$", c, -1)
					s.nvim = strings.Replace(s.nvim, "$", c, -1)
					break
				}
			}
		} else {
			k, s = pickScript(c)
		}
		if k != missing {
			files[name] = s.text
		}
		args = append(args, name)
		o, e := expect(name, k, s, fl.nvim, fl.json)
		out += o
		errs += e
	}
	full := forkOn("full", 2) == 1
	judge(strings.Join(args, " "), runTool(args, files, "let wrong = 1\n", full), out, errs, full)
}

// Up to 512 files, some of which fail: the exit status has 8 bits only.
//
//vp:quick=60 thorough=60 reach=failed,succeeded samples=40
func C19_count() {
	n := []int{0, 1, 255, 256, 257, 512}[forkOn("failing", 6)]
	files := map[string]string{"good": "echo 1\n", "bad": "X" + sym.BytesIn("c", 1, "abc") + "\nif 1\n"}
	args, out, errs := []string{}, "", ""
	first := forkOn("good first", 2) == 1
	if first {
		args = append(args, "good")
		out = "(echo 1)\n"
	}
	for i := 0; i < n; i++ {
		args = append(args, "bad")
		errs += "bad:3:0: vimlparser: E171: Missing :endif:    TOPLEVEL\n"
	}
	if !first || n == 0 {
		args = append(args, "good")
		out += "(echo 1)\n"
	}
	judge(strconv.Itoa(n)+" bad files", runTool(args, files, "", false), out, errs, false)
}

// Standard input.
//
//vp:quick=60 thorough=100 reach=full,failed,succeeded samples=400
func C19_stdin() {
	fl := flagForms[forkOn("flags", len(flagForms))]
	k, s := pickScript(sym.BytesIn("c", 1, "abc"))
	if k == missing || s.text == "/" {
		sym.Truncate()
	}
	out, errs := expect("", k, s, fl.nvim, fl.json)
	full := forkOn("full", 2) == 1
	judge("standard input with "+strings.Join(fl.args, " "), runTool(fl.args, nil, s.text, full), out, errs, full)
}

// Flags that do not exist are refused.
//
//vp:quick=60 thorough=60 reach=refused
func C19_flags() {
	args := [][]string{{"-x"}, {"--vim"}, {"-json=2"}, {"-neovim", "-nvim", "f1"}, {"-jsonx", "f1"}}[forkOn("flags", 5)]
	r := runTool(args, map[string]string{"f1": "X\n", "-nvim": "X\n", "-jsonx": "X\n"}, "X\n", false)
	sym.Reach("refused")
	if r.Status == 0 || r.Stdout != "" || r.Stderr == "" {
		sym.Fail("flags " + strings.Join(args, " ") + " not refused")
	}
}
