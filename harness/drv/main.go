package drv

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"verif.local/harness/spec"
)

// Violation is an observed violation.
type Violation struct {
	Case   string
	What   string
	Detail string `json:",omitempty"`
}

// Result is the result of a run.
type Result struct {
	Evaluations int
	Distinct    map[string]bool
	Counters    map[string]int
	Samples     []string
	Violations  []Violation
	Harness     []string // Failures of the harness itself.
	Events      []json.RawMessage
}

// Env is the environment of the monitors.
type Env struct {
	Model  *spec.Model
	Worlds []*World
	Reg    map[string]interface{}
	Seed   int64
	N      int
	Only   string
	R      *Result
	Strict bool // Use only values that are valid according to the specification.
	cur    string
}

// Find finds a version.
func (e *Env) Find(key string) *World {
	for _, w := range e.Worlds {
		if w.S.Name.ID+"/"+w.V.Name.ID == key {
			return w
		}
	}
	panic("harness: unknown version " + key)
}

// Count increments a counter.
func (e *Env) Count(name string, n int) { e.R.Counters[name] += n }

// Fail reports a violation for the current case.
func (e *Env) Fail(format string, args ...interface{}) {
	if len(e.R.Violations) >= 20 {
		return
	}
	e.R.Violations = append(e.R.Violations, Violation{Case: e.cur, What: fmt.Sprintf(format, args...)})
}

// Seen records something distinct that was observed.
func (e *Env) Seen(key string) {
	e.R.Evaluations++
	e.R.Distinct[key] = true
	if len(e.R.Samples) < 8 {
		e.R.Samples = append(e.R.Samples, key)
	}
}

// Case runs one case, with its own source of randomness.
func (e *Env) Case(label string, f func(r *rand.Rand)) {
	if e.Only != "" && e.Only != label {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", e.Seed, e.Model.Label, label)
	e.cur = label
	defer func() {
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			if s, ok := p.(string); ok && strings.HasPrefix(s, "harness:") {
				e.R.Harness = append(e.R.Harness, s+" in "+label)
				return
			}
			if m, ok := p.(Missing); ok {
				e.Fail("%s", string(m))
				return
			}
			e.Fail("panic: %v", p)
			if n := len(e.R.Violations); n > 0 && e.R.Violations[n-1].Detail == "" {
				e.R.Violations[n-1].Detail = stack
			}
		}
	}()
	e.R.Evaluations++
	f(rand.New(rand.NewSource(int64(h.Sum64()))))
}

var (
	check = flag.String("drv.check", "", "")
	model = flag.String("drv.model", "", "")
	seed  = flag.Int64("drv.seed", 1, "")
	n     = flag.Int("drv.n", 10, "")
	only  = flag.String("drv.only", "", "")
	out   = flag.String("drv.out", "", "")
)

// Test is the entry point of the generated drivers that need a test.
func Test(t *testing.T, reg map[string]interface{}) {
	T = t
	Main(reg)
}

// Main is the entry point of the generated drivers.
func Main(reg map[string]interface{}) {
	flag.Parse()
	text, err := os.ReadFile(*model)
	if err != nil {
		panic(err)
	}
	e := &Env{Model: &spec.Model{}, Reg: reg, Seed: *seed, N: *n, Only: *only, R: &Result{
		Distinct: map[string]bool{}, Counters: map[string]int{}}}
	if err := json.Unmarshal(text, e.Model); err != nil {
		panic(err)
	}
	e.Model.Each(func(s *spec.Service, v *spec.Version) {
		e.Worlds = append(e.Worlds, &World{S: s, V: v, Reg: reg, All: e})
	})
	f, ok := checks[*check]
	if !ok {
		panic("unknown check " + *check)
	}
	f(e)
	data, err := json.Marshal(e.R)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(*out, data, 0644); err != nil {
		panic(err)
	}
	for _, v := range e.R.Violations {
		fmt.Fprintf(os.Stderr, "violation: %s: %s\n", v.Case, v.What)
	}
}

var checks = map[string]func(*Env){}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
