// Command native replays assignments on the compiled code.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"github.com/vim-jp/go-vimlparser/zz_verif/h"
	"github.com/vim-jp/go-vimlparser/zz_verif/sym"
)

type request struct {
	Harness string `json:"harness"`
	Model   []int  `json:"model"`
}

type reply struct {
	End   string    `json:"end"`
	Msg   string    `json:"msg"`
	Obs   []sym.Obs `json:"obs"`
	Stack string    `json:"stack,omitempty"`
}

func run(r request) (rep reply) {
	defer func() {
		rep.Obs = sym.Obs_
		switch x := recover().(type) {
		case nil:
			rep.End = "ok"
		case sym.AssumeFailed:
			rep.End = "assume"
		case sym.Failure:
			rep.End, rep.Msg = "fail", x.Msg
		default:
			rep.End, rep.Msg, rep.Stack = "panic", fmt.Sprint(x), string(debug.Stack())
		}
	}()
	sym.Reset(r.Model)
	h.Registry[r.Harness]()
	return
}

// runCLI runs the tool in a scratch directory.
func runCLI(args []string, files map[string]string, stdin string, full bool) (r sym.CLI) {
	dir, err := ioutil.TempDir("", "vpcli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n, t := range files {
		if t == "/" {
			err = os.Mkdir(filepath.Join(dir, n), 0o755)
		} else {
			err = ioutil.WriteFile(filepath.Join(dir, n), []byte(t), 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(os.Getenv("VP_CLI"), args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(stdin), &so, &se
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err = cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return sym.CLI{Stdout: so.String(), Stderr: se.String(), Status: cmd.ProcessState.ExitCode()}
}

func main() {
	debug.SetMaxStack(256 << 20)
	sym.RunCLI = runCLI
	timeout := 20 * time.Second
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 64<<20)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for sc.Scan() {
		var r request
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		ch := make(chan reply, 1)
		go func() { ch <- run(r) }()
		select {
		case rep := <-ch:
			enc.Encode(rep)
			w.Flush()
		case <-time.After(timeout):
			enc.Encode(reply{End: "timeout", Msg: fmt.Sprintf("no result within %v", timeout)})
			w.Flush()
			os.Exit(4)
		}
	}
}
