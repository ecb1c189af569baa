// Package run builds the tool from the working tree, runs it on generated models, and runs the
// monitors on what it produces.
package run

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/spec"
)

// Repo is the directory of the repository under test. The variable is only used to try the checks with
// planted bugs, the registered commands use the default.
var Repo = repo()

func repo() string {
	if dir := os.Getenv("VERIF_REPO"); dir != "" {
		return dir
	}
	return "/repo"
}

// Cover is the directory where the coverage of the tool and of the generated code is collected. It is only used to
// find what the workloads don't exercise, the registered commands don't use it.
var Cover = os.Getenv("VERIF_COVER")

func cover(args []string, pkgs string) []string {
	if Cover == "" {
		return args
	}
	return append(args, "-cover", "-covermode=atomic", "-coverpkg="+pkgs)
}

// Module is the path of the scratch module.
const Module = "verif.example.com/x"

// Base is the import path of the generated packages.
const Base = Module + "/gen"

const goMod = `module verif.example.com/x

go 1.17

require (
	github.com/golang/glog v1.0.0
	github.com/json-iterator/go v1.1.12
	verif.local/harness v0.0.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/testify v1.5.1 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace verif.local/harness => %s
`

// Work is the scratch area of a check.
type Work struct {
	Dir     string
	Harness string
	Tool    string
	sum     []byte
	serial  int
	lock    sync.Mutex
	sem     chan struct{}

	probeOnce sync.Once
	probe     string
	probeErr  error
}

// Infra is a failure of the infrastructure, not of the code under test.
type Infra struct{ Err error }

// Error returns the message.
func (i Infra) Error() string { return i.Err.Error() }

func infra(format string, args ...interface{}) error {
	return Infra{Err: fmt.Errorf(format, args...)}
}

// New creates the scratch area and builds the tool.
func New(dir, harness string) (*Work, error) {
	w := &Work{Dir: dir, Harness: harness, Tool: filepath.Join(dir, "bin", "metamodel"), sem: make(chan struct{}, 8)}
	lines := map[string]bool{}
	for _, f := range []string{"go.sum", "tests/go/go.sum"} {
		text, err := os.ReadFile(filepath.Join(Repo, f))
		if err != nil {
			return nil, infra("%v", err)
		}
		for _, l := range strings.Split(string(text), "\n") {
			if l != "" {
				lines[l] = true
			}
		}
	}
	var sorted []string
	for l := range lines {
		sorted = append(sorted, l)
	}
	sort.Strings(sorted)
	w.sum = []byte(strings.Join(sorted, "\n") + "\n")
	res := w.Exec(Repo, 10*time.Minute, nil, "go", append(cover([]string{"build", "-o", w.Tool}, "./..."), "./cmd/metamodel")...)
	if res.Code != 0 {
		return nil, infra("can't build the tool: %s", res.Out)
	}
	return w, nil
}

// Res is the result of a command.
type Res struct {
	Code    int
	Signal  string
	Timeout bool
	Out     string
	Wall    time.Duration
}

// Crashed returns true if the output of a Go program shows that it crashed.
func (r Res) Crashed() bool {
	return r.Signal != "" || strings.Contains(r.Out, "\ngoroutine ") || strings.HasPrefix(r.Out, "panic:") ||
		strings.Contains(r.Out, "\npanic:") || strings.Contains(r.Out, "fatal error:")
}

// Env is the environment of the commands.
func Env() []string {
	var env []string
	for _, e := range os.Environ() {
		name := strings.SplitN(e, "=", 2)[0]
		switch name {
		case "HOME", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "CGO_ENABLED", "GORACE":
			continue
		}
		env = append(env, e)
	}
	if Cover != "" {
		env = append(env, "GOCOVERDIR="+Cover)
	}
	return append(env, "HOME=/root", "PATH=/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "CGO_ENABLED=0")
}

type limited struct {
	bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if room := 4<<20 - l.Len(); room < len(p) {
		if room < 0 {
			room = 0
		}
		p = p[:room]
	}
	l.Buffer.Write(p)
	return n, nil
}

// Exec runs a command; at most eight run at the same time.
func (w *Work) Exec(dir string, limit time.Duration, extra []string, name string, args ...string) Res {
	w.sem <- struct{}{}
	defer func() { <-w.sem }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	path := name
	if !strings.Contains(name, "/") {
		for _, d := range []string{"/opt/vp/bin", "/usr/local/sbin", "/usr/local/bin", "/usr/sbin", "/usr/bin", "/sbin", "/bin"} {
			if _, err := os.Stat(filepath.Join(d, name)); err == nil {
				path = filepath.Join(d, name)
				break
			}
		}
	}
	cmd := exec.Command(path, args...)
	cmd.Dir = dir
	cmd.Env = append(Env(), extra...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out limited
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	res := Res{}
	if err := cmd.Start(); err != nil {
		return Res{Code: -1, Out: err.Error()}
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-ctx.Done():
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		case <-done:
		}
	}()
	err := cmd.Wait()
	close(done)
	res.Wall = time.Since(start)
	res.Out = out.String()
	if err != nil {
		res.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			res.Code = x.ExitCode()
			if st, ok := x.Sys().(syscall.WaitStatus); ok && st.Signaled() {
				res.Signal = st.Signal().String()
			}
		}
		if ctx.Err() != nil {
			res.Timeout = true
		}
	}
	return res
}

// Project is a scratch module with a model.
type Project struct {
	W     *Work
	Dir   string
	Model *spec.Model
}

// Empty creates a scratch module without a model.
func (w *Work) Empty() (*Project, error) {
	w.lock.Lock()
	w.serial++
	dir := filepath.Join(w.Dir, fmt.Sprintf("p%04d", w.serial))
	w.lock.Unlock()
	p := &Project{W: w, Dir: dir}
	for _, d := range []string{"model", "drv"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			return nil, infra("%v", err)
		}
	}
	if err := p.Put("go.mod", fmt.Sprintf(goMod, w.Harness)); err != nil {
		return nil, err
	}
	return p, p.Put("go.sum", string(w.sum))
}

// Project creates a scratch module with a model.
func (w *Work) Project(m *spec.Model, st spec.Style) (*Project, error) {
	p, err := w.Empty()
	if err != nil {
		return nil, err
	}
	p.Model = m
	if err := m.Write(filepath.Join(p.Dir, "model"), st); err != nil {
		return nil, infra("%v", err)
	}
	data, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return nil, infra("%v", err)
	}
	return p, p.Put("model.json", string(data))
}

// Put writes a file of the project.
func (p *Project) Put(name, text string) error {
	path := filepath.Join(p.Dir, name)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		return infra("%v", err)
	}
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		return infra("%v", err)
	}
	return nil
}

// Remove removes the project.
func (p *Project) Remove() { _ = os.RemoveAll(p.Dir) }

// Limit is the watchdog of the commands: it is generous because when it expires the result is
// inconclusive.
const Limit = 4 * time.Minute

// Go generates the Go code.
func (p *Project) Go() Res {
	return p.W.Exec(p.Dir, Limit, nil, p.W.Tool, "generate", "go", "--model=model", "--base="+Base, "--output=gen")
}

// OpenAPI generates the OpenAPI documents.
func (p *Project) OpenAPI() Res {
	return p.W.Exec(p.Dir, Limit, nil, p.W.Tool, "generate", "openapi", "--model=model", "--output=openapi")
}

// Docs generates the documentation.
func (p *Project) Docs() Res {
	return p.W.Exec(p.Dir, Limit, nil, p.W.Tool, "generate", "docs", "--model=model", "--output=docs")
}

// Check checks the model.
func (p *Project) Check() Res {
	return p.W.Exec(p.Dir, Limit, nil, p.W.Tool, "check", "--model=model")
}

// Vet compiles the generated packages.
func (p *Project) Compile() Res {
	return p.W.Exec(p.Dir, Limit, nil, "go", "build", "-trimpath", "./gen/...")
}

// Hash calculates the hashes of the files of a directory.
func Hash(dir string) (map[string]string, error) {
	r := map[string]string{}
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		if info.IsDir() {
			r[rel+"/"] = "dir"
			return nil
		}
		if !info.Mode().IsRegular() {
			r[rel] = info.Mode().String()
			return nil
		}
		text, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		sum := sha256.Sum256(text)
		r[rel] = hex.EncodeToString(sum[:8])
		return nil
	})
	return r, err
}

// DiffHash compares two directories.
func DiffHash(a, b map[string]string) string {
	var diffs []string
	for k, v := range a {
		if x, ok := b[k]; !ok {
			diffs = append(diffs, k+" is missing in the second")
		} else if x != v {
			diffs = append(diffs, k+" is different")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			diffs = append(diffs, k+" is missing in the first")
		}
	}
	sort.Strings(diffs)
	if len(diffs) > 5 {
		diffs = append(diffs[:5], fmt.Sprintf("and %d more", len(diffs)-5))
	}
	return strings.Join(diffs, "; ")
}

// Tail returns the last lines of a text.
func Tail(text string, n int) string {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if len(lines) > n {
		lines = lines[len(lines)-n:]
	}
	return strings.Join(lines, "\n")
}

// Errors returns the error lines of the output of the tool.
func (r Res) Errors() []string {
	var l []string
	for _, x := range strings.Split(r.Out, "\n") {
		if strings.Contains(x, "E:") || strings.Contains(x, "ERROR") || strings.Contains(strings.ToLower(x), "error") {
			l = append(l, x)
		}
	}
	return l
}
