package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C01"] = Check{
		Rule: modelRule + "A case is a model whose generated packages are compiled; distinct ones are the generated packages.",
		Run:  checkCompiles,
	}
	All["C02"] = Check{
		Rule: modelRule + "A case is an execution of one generator for one layout of the source of one model, compared byte by byte with " +
			"the first execution; layouts differ in order of declarations and members, number and names of files, optional keywords, comments " +
			"and white space, and in whether the output directory is inside of a Go module, and the files of some versions are compared with those generated when they are alone; distinct ones are the pairs of generated file and layout.",
		Run: checkDeterminism,
	}
}

func checkCompiles(c *Ctx) {
	models := append(gen.Suite(c.Seed, c.Pick(24, 300)), c.refModels(c.Pick(10, 100))...)
	for n := 0; n < 64; n += 4 {
		if !c.Thorough() && n%16 != 0 {
			continue
		}
		models = append(models, gen.Wide(c.Seed, n, n+1, n+2, n+3))
	}
	models = append(models, gen.Wide(c.Seed, 61, 62, 63, 64))
	c.models(models, c.style, func(i int, p *run.Project) {
		c.Eval(1)
		if !c.generate(p) {
			return
		}
		res := p.Compile()
		if res.Timeout {
			c.Problem(p.Model.Label, p.Dir, run.Infra{Err: fmt.Errorf("compilation doesn't finish")})
			return
		}
		if res.Code != 0 {
			c.Fail(p.Model.Label, p.Dir, res.Out, "the generated code doesn't compile: %s", run.Tail(res.Out, 10))
			return
		}
		_ = filepath.Walk(filepath.Join(p.Dir, "gen"), func(path string, info os.FileInfo, err error) error {
			if err == nil {
				if info.IsDir() {
					c.Eval(1)
					c.Count("packages compiled", 1)
					c.Seen(p.Model.Label + ":" + info.Name())
				} else {
					c.Count("files compiled", 1)
				}
			}
			return nil
		})
		p.Model.Each(func(s *spec.Service, v *spec.Version) {
			c.Count("types", len(v.Types))
			c.Count("resources", len(v.Resources))
			for _, r := range v.Resources {
				c.Count("methods", len(r.Methods))
			}
		})
		c.Sample(p.Model.Label + ": " + describe(p.Model))
	})
}

// describe summarises a model.
func describe(m *spec.Model) string {
	text := ""
	m.Each(func(s *spec.Service, v *spec.Version) {
		text += fmt.Sprintf("%s/%s with %d types, %d resources, %d errors; ", s.Name.ID, v.Name.ID, len(v.Types), len(v.Resources), len(v.Errors))
	})
	return text
}

// layout is one way to write the source of a model.
type layout struct {
	name  string
	style spec.Style
	names bool // Change the names of the files.
	bare  bool // Generate outside of any Go module.
}

func layouts(r *rand.Rand, n int) []layout {
	result := []layout{{name: "canonical"}, {name: "outside of a Go module", bare: true}}
	for i := 0; i < n; i++ {
		x := rand.New(rand.NewSource(r.Int63()))
		switch i % 7 {
		case 0:
			result = append(result, layout{"one file, shuffled", spec.Style{Rand: x, Files: 1, Shuffle: true}, false, false})
		case 1:
			result = append(result, layout{"three files, shuffled, noise, renamed", spec.Style{Rand: x, Files: 3, Shuffle: true, Noise: true}, true, false})
		case 2:
			result = append(result, layout{"noise, spaced", spec.Style{Rand: x, Noise: true, Spaced: true}, false, false})
		case 4:
			result = append(result, layout{"dense, noise, spaced", spec.Style{Rand: x, Files: 2, Dense: true, Noise: true, Spaced: i > 7 || x.Intn(2) == 0}, false, false})
		case 5:
			result = append(result, layout{"dense, shuffled, line ends of DOS", spec.Style{Rand: x, Files: 1, Dense: true, Shuffle: true, CRLF: true}, true, false})
		case 3:
			result = append(result, layout{"many files, shuffled, renamed", spec.Style{Rand: x, Shuffle: true}, true, false})
		default:
			st := spec.Style{Rand: x, Shuffle: i > 7, Bare: true}
			if i > 7 {
				st.Files = 2
			}
			result = append(result, layout{"bare", st, false, false})
		}
	}
	return result
}

// rename changes the names of the files of the model.
func rename(r *rand.Rand, dir string) error {
	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		name := fmt.Sprintf("%c%06x%s", "azAZ09_"[r.Intn(7)], r.Intn(1<<24), []string{".model", ".txt", "", ".MODEL", " x.model"}[r.Intn(5)])
		return os.Rename(path, filepath.Join(filepath.Dir(path), name))
	})
}

func checkDeterminism(c *Ctx) {
	models := append(gen.Suite(c.Seed, c.Pick(5, 50)), c.refModels(c.Pick(6, 40))...)
	generators := []struct {
		name string
		run  func(p *run.Project) run.Res
		dir  string
	}{{"go", (*run.Project).Go, "gen"}, {"openapi", (*run.Project).OpenAPI, "openapi"}, {"docs", (*run.Project).Docs, "docs"}}
	// generate runs one generator and returns the hashes of the files that it writes:
	generate := func(label string, p *run.Project, i int) map[string]string {
		g := generators[i]
		res := g.run(p)
		c.Eval(1)
		c.Count("executions of the "+g.name+" generator", 1)
		if res.Code != 0 || res.Crashed() {
			c.Fail(label, p.Dir, res.Out, "generation of %s fails: %s", g.name, run.Tail(res.Out, 5))
			return nil
		}
		h, err := run.Hash(filepath.Join(p.Dir, g.dir))
		if err != nil {
			c.Problem(label, p.Dir, fmt.Errorf("output of %s can't be read: %v", g.name, err))
			return nil
		}
		return h
	}
	type base struct {
		project *run.Project
		layouts []layout
		hashes  [3]map[string]string
	}
	type work struct{ model, layout, generator, service, version int }
	bases := make([]*base, len(models))
	defer func() {
		for _, x := range bases {
			if x != nil {
				x.project.Remove()
			}
		}
	}()
	c.Parallel(len(models), func(i int) {
		m := models[i]
		x := &base{layouts: layouts(c.Rand("layouts", i), c.Pick(7, 14))}
		p, err := c.W.Project(m, x.layouts[0].style)
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		x.project = p
		bases[i] = x
	})
	var works []work
	for i, x := range bases {
		if x == nil {
			return
		}
		for g := range generators {
			works = append(works, work{model: i, generator: g})
		}
	}
	c.Parallel(len(works), func(j int) {
		x := works[j]
		bases[x.model].hashes[x.generator] = generate(models[x.model].Label+", layout canonical", bases[x.model].project, x.generator)
	})
	works = nil
	for i, x := range bases {
		for _, h := range x.hashes {
			if h == nil {
				return
			}
		}
		for k := 1; k < len(x.layouts); k++ {
			works = append(works, work{model: i, layout: k})
		}
	}
	c.Parallel(len(works), func(j int) {
		i, k := works[j].model, works[j].layout
		m, keep, l := models[i], bases[i].project, bases[i].layouts[k]
		p, err := c.W.Project(m, l.style)
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		defer p.Remove()
		if l.names {
			if err := rename(c.Rand("names", j), filepath.Join(p.Dir, "model")); err != nil {
				c.Problem(m.Label, "", run.Infra{Err: err})
				return
			}
		}
		if l.bare {
			for _, name := range []string{"go.mod", "go.sum"} {
				if err := os.Remove(filepath.Join(p.Dir, name)); err != nil && !os.IsNotExist(err) {
					c.Problem(m.Label, "", run.Infra{Err: err})
					return
				}
			}
		}
		label := m.Label + ", layout " + l.name
		for g := range generators {
			name, dir := generators[g].name, generators[g].dir
			if name == "go" && m.Label == "deep" && k > c.Pick(2, 14) {
				continue
			}
			h := generate(label, p, g)
			if h == nil {
				return
			}
			for f := range h {
				c.Eval(1)
				c.Seen(m.Label + ":" + l.name + ":" + name + ":" + f)
			}
			c.Count("files compared", len(h))
			if d := run.DiffHash(bases[i].hashes[g], h); d != "" {
				first := ""
				for f, x := range h {
					if bases[i].hashes[g][f] != x && f[len(f)-1] != '/' {
						first = firstDiff(filepath.Join(keep.Dir, dir, f), filepath.Join(p.Dir, dir, f))
						break
					}
				}
				c.Fail(label, p.Dir, first, "output of %s changes: %s: %s", name, d, first)
				return
			}
			c.Sample(fmt.Sprintf("%s, layout %s, generator %s: %d files identical", m.Label, l.name, name, len(h)))
		}
	})
	works = nil
	for i, m := range models {
		var candidates []work
		for a, s := range m.Services {
			for b, v := range s.Versions {
				if (len(m.Services) > 1 || len(s.Versions) > 1) && !references(v) {
					candidates = append(candidates, work{model: i, service: a, version: b})
				}
			}
		}
		r := c.Rand("alone", i)
		r.Shuffle(len(candidates), func(a, b int) { candidates[a], candidates[b] = candidates[b], candidates[a] })
		if n := c.Pick(2, 20); len(candidates) > n {
			candidates = candidates[:n]
		}
		works = append(works, candidates...)
	}
	c.Parallel(len(works), func(j int) {
		m, x := models[works[j].model], bases[works[j].model]
		s := m.Services[works[j].service]
		v := s.Versions[works[j].version]
		alone := &spec.Model{
			Label:    fmt.Sprintf("%s, only %s/%s", m.Label, s.Name.ID, v.Name.ID),
			Services: []*spec.Service{{Name: s.Name, Versions: []*spec.Version{v}}},
		}
		p, err := c.W.Project(alone, x.layouts[0].style)
		if err != nil {
			c.Problem(alone.Label, "", err)
			return
		}
		defer p.Remove()
		for g, dir := range []string{s.Name.GoPackage() + "/" + v.Name.GoPackage() + "/", s.Name.Snake() + "/" + v.Name.Snake() + "/"} {
			h := generate(alone.Label, p, g)
			if h == nil {
				return
			}
			own := func(all map[string]string) map[string]string {
				result := map[string]string{}
				for f, sum := range all {
					if strings.HasPrefix(f, dir) {
						result[f] = sum
					}
				}
				return result
			}
			before, after := own(x.hashes[g]), own(h)
			if len(before) == 0 {
				c.Problem(alone.Label, p.Dir, run.Infra{Err: fmt.Errorf("there are no files in %s", dir)})
				return
			}
			for f := range after {
				c.Eval(1)
				c.Seen(alone.Label + ":" + f)
			}
			c.Count("files compared with those of the version alone", len(after))
			if d := run.DiffHash(before, after); d != "" {
				first := ""
				for f, sum := range after {
					if before[f] != sum && f[len(f)-1] != '/' {
						first = firstDiff(filepath.Join(x.project.Dir, generators[g].dir, f), filepath.Join(p.Dir, generators[g].dir, f))
						break
					}
				}
				c.Fail(alone.Label, p.Dir, first, "output of %s for a version changes when it is alone: %s: %s", generators[g].name, d, first)
				return
			}
		}
	})
}

// references checks if a version contains references to other ones.
func references(v *spec.Version) bool {
	for _, t := range v.Types {
		if t.Ann.Ref != "" {
			return true
		}
	}
	return false
}

// firstDiff shows the first difference between two files.
func firstDiff(a, b string) string {
	x, _ := os.ReadFile(a)
	y, _ := os.ReadFile(b)
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	cut := func(t []byte) string {
		from, to := i-80, i+120
		if from < 0 {
			from = 0
		}
		if to > len(t) {
			to = len(t)
		}
		if from > to {
			return ""
		}
		return string(t[from:to])
	}
	return fmt.Sprintf("%q instead of %q", cut(y), cut(x))
}
