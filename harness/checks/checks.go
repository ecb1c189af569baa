// Package checks decides the properties: it prepares the workloads, runs the real code under the
// monitors and collects what they observed.
package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/harness/run"
	"verif.local/harness/spec"
)

// Violation is an observed violation, with what is needed to reproduce it.
type Violation struct {
	What   string
	Where  string // Model and case.
	Detail string
	dir    string // Directory whose content is saved with the violation.
	files  []string
}

// Ctx is the context of the execution of a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	W        *run.Work
	Deadline time.Time // After this no new work is started.

	lock        sync.Mutex
	Evaluations int
	Distinct    map[string]bool
	Counters    map[string]int
	Samples     []string
	Violations  []Violation
	Known       []string
	Infra       []string
	Skipped     int
}

// Check is the implementation of a check.
type Check struct {
	Rule string // How the cases are made, and what makes one non trivial.
	Run  func(c *Ctx)
}

// All contains all the checks.
var All = map[string]Check{}

// Thorough returns true for the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns the value for the tier.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rand creates a source of randomness for something.
func (c *Ctx) Rand(what string, i int) *rand.Rand {
	h := int64(1469598103934665603)
	for _, b := range []byte(what) {
		h = (h ^ int64(b)) * 1099511628211
	}
	return rand.New(rand.NewSource(h ^ c.Seed*7919 ^ int64(i)*104729))
}

// Eval records evaluations of the oracle.
func (c *Ctx) Eval(n int) {
	c.lock.Lock()
	c.Evaluations += n
	c.lock.Unlock()
}

// Count adds to a counter.
func (c *Ctx) Count(name string, n int) {
	c.lock.Lock()
	c.Counters[name] += n
	c.lock.Unlock()
}

// Seen records something distinct and not trivial that was observed.
func (c *Ctx) Seen(key string) {
	c.lock.Lock()
	c.Distinct[key] = true
	c.lock.Unlock()
}

// Sample saves a sample.
func (c *Ctx) Sample(text string) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if len(c.Samples) < 10 {
		if len(text) > 600 {
			text = text[:600] + "..."
		}
		c.Samples = append(c.Samples, text)
	}
}

// Fail records a violation. The directory, if any, is saved with it.
func (c *Ctx) Fail(where, dir, detail, format string, args ...interface{}) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if len(c.Violations) >= 30 {
		return
	}
	v := Violation{What: fmt.Sprintf(format, args...), Where: where, Detail: detail}
	if dir != "" && len(c.Violations) < 3 {
		// Scratch directories are removed when the workload ends, so save what matters right now:
		v.dir = filepath.Join(c.W.Dir, fmt.Sprintf("saved%d", len(c.Violations)))
		_ = copyTree(dir, v.dir, 8<<20)
	}
	c.Violations = append(c.Violations, v)
}

// Problem records a failure of the infrastructure, or a violation if it isn't that.
func (c *Ctx) Problem(where, dir string, err error) {
	if _, ok := err.(run.Infra); ok {
		c.lock.Lock()
		c.Infra = append(c.Infra, where+": "+err.Error())
		c.lock.Unlock()
		return
	}
	c.Fail(where, dir, "", "%v", err)
}

// KnownFinding records that a known finding is still there.
func (c *Ctx) KnownFinding(text string) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.Known = append(c.Known, text)
}

// Broken returns true if enough violations have been found.
func (c *Ctx) Broken() bool {
	c.lock.Lock()
	defer c.lock.Unlock()
	return len(c.Violations) >= 3
}

// Late returns true when no more work should be started.
func (c *Ctx) Late() bool { return time.Now().After(c.Deadline) }

// Parallel runs the function for the numbers from zero to n.
func (c *Ctx) Parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if c.Broken() {
					continue
				}
				if c.Late() {
					c.lock.Lock()
					c.Skipped++
					c.lock.Unlock()
					continue
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							c.lock.Lock()
							c.Infra = append(c.Infra, fmt.Sprintf("harness panic: %v", p))
							c.lock.Unlock()
							if os.Getenv("VERIF_DEBUG") != "" {
								panic(p)
							}
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func copyTree(from, to string, budget int64) error {
	return filepath.Walk(from, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, path)
		target := filepath.Join(to, rel)
		if info.IsDir() {
			return os.MkdirAll(target, 0755)
		}
		if !info.Mode().IsRegular() || info.Size() > 1<<20 {
			return nil
		}
		budget -= info.Size()
		if budget < 0 {
			return filepath.SkipDir
		}
		text, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		return os.WriteFile(target, text, 0644)
	})
}

// models generates the code of each model and calls the function with the resulting project.
func (c *Ctx) models(models []*spec.Model, style func(i int) spec.Style, f func(i int, p *run.Project)) {
	c.Parallel(len(models), func(i int) {
		m := models[i]
		p, err := c.W.Project(m, style(i))
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		defer p.Remove()
		f(i, p)
	})
}

// generate generates the Go code, which should work.
func (c *Ctx) generate(p *run.Project) bool {
	res := p.Go()
	if res.Timeout {
		c.Problem(p.Model.Label, p.Dir, fmt.Errorf("generation of Go doesn't finish in %s", run.Limit))
		return false
	}
	if res.Code != 0 || res.Crashed() {
		c.Fail(p.Model.Label, p.Dir, res.Out, "generation of Go from a valid model fails with code %d: %s", res.Code, run.Tail(res.Out, 5))
		return false
	}
	c.Count("models generated", 1)
	return true
}

// driver runs a driver based check for the project.
func (c *Ctx) drive(p *run.Project, bin, check string, n int, env ...string) *run.DriverResult {
	x, res, err := p.Run(bin, check, c.Seed, n, "", env...)
	if err != nil {
		if res.Timeout {
			err = fmt.Errorf("the execution of the generated code doesn't finish in %s: %s", run.Limit, run.Tail(res.Out, 20))
		}
		c.Problem(p.Model.Label, p.Dir, err)
		return nil
	}
	c.lock.Lock()
	c.Evaluations += x.Evaluations
	for k, v := range x.Counters {
		c.Counters[k] += v
	}
	for k := range x.Distinct {
		c.Distinct[p.Model.Label+":"+k] = true
	}
	for _, s := range x.Samples {
		if len(c.Samples) < 10 && len(c.Samples) < 2*len(c.Distinct) {
			c.Samples = append(c.Samples, p.Model.Label+":"+s)
		}
	}
	for _, h := range x.Harness {
		c.Infra = append(c.Infra, p.Model.Label+": "+h)
	}
	c.lock.Unlock()
	for _, v := range x.Violations {
		c.Fail(p.Model.Label+" "+v.Case, p.Dir, v.Detail, "%s", v.What)
	}
	return &run.DriverResult{Result: x, Res: res}
}

// Report writes the evidence and the replays, and returns the exit code.
func (c *Ctx) Report(verif string, start time.Time) int {
	check := All[c.ID]
	replays := filepath.Join(verif, "evidence", "replay", c.ID)
	_ = os.RemoveAll(replays)
	cov := map[string]interface{}{
		"evaluations":         c.Evaluations,
		"distinct_nontrivial": len(c.Distinct),
		"rule":                check.Rule,
		"samples":             c.Samples,
	}
	var names []string
	for k := range c.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	observed := map[string]int{}
	for _, k := range names {
		observed[k] = c.Counters[k]
	}
	if len(observed) > 0 {
		cov["observed"] = observed
	}
	if c.Skipped > 0 {
		cov["workloads_skipped_by_time_budget"] = c.Skipped
	}
	if len(c.Known) > 0 {
		cov["known_findings"] = c.Known
	}
	evidence := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(c.Violations),
		"assumptions": []string{"the models are valid according to the rules of DESIGN.md", "the Go tool chain and the libraries in the module cache are correct"},
	}
	data, err := json.MarshalIndent(evidence, "", "  ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		err = os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(data, '\n'), 0644)
	}
	if err != nil {
		c.Infra = append(c.Infra, err.Error())
	}
	for _, k := range c.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	for _, k := range c.Infra {
		fmt.Printf("infrastructure: %s\n", k)
	}
	if len(c.Violations) > 0 {
		for i, v := range c.Violations {
			dir := filepath.Join(replays, fmt.Sprintf("%02d", i))
			_ = os.MkdirAll(dir, 0755)
			if v.dir != "" {
				_ = copyTree(v.dir, dir, 16<<20)
			}
			text := fmt.Sprintf("property: %s\ntier: %s\nseed: %d\ncase: %s\n\n%s\n\n%s\n\nto reproduce: VERIF_SEED=%d bash /verif/check.sh %s %s\n",
				c.ID, c.Tier, c.Seed, v.Where, v.What, v.Detail, c.Seed, c.ID, c.Tier)
			_ = os.WriteFile(filepath.Join(dir, "violation.txt"), []byte(text), 0644)
			if i < 10 {
				fmt.Printf("violation: %s: %s\n", v.Where, clip(v.What, 1500))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, filepath.Join(replays, "00"))
		return 1
	}
	if len(c.Infra) > 0 {
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct, no violations, %.1f s\n", c.ID, c.Evaluations, len(c.Distinct), time.Since(start).Seconds())
	for _, k := range names {
		fmt.Printf("  %s: %d\n", k, c.Counters[k])
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// sorted returns the sorted lines.
func sorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, "\n")
}
