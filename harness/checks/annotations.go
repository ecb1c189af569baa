package checks

import (
	"fmt"
	"path/filepath"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C22"] = Check{
		Rule: "Models are random ones where most of the concepts have annotations. A case is one concept observed by the monitors of constants, " +
			"objects, JSON, requests, responses, OpenAPI documents and metrics tree, that calculate the expected names from the annotations; or one " +
			"generated file compared before and after adding annotations that should have no effect. Distinct ones are the observations reported by " +
			"those monitors plus those files.",
		Run: checkAnnotations,
	}
}

func (c *Ctx) annotated(n int) []*spec.Model {
	var models []*spec.Model
	for i := 0; i < n; i++ {
		o := gen.Opts{Services: 1 + i%2, Versions: 1 + i%2, Types: 6, Attrs: 8, Resources: 5, Errors: 3, Docs: 0.2, Annotate: []float64{0.9, 0.5, 0.2}[i%3]}
		o.Odd = i%2 == 1
		if i%4 == 3 {
			o.Names = "hostile"
		}
		m := gen.Random(c.Seed*1000+500+int64(i), o)
		m.Label = "annotated-" + m.Label
		models = append(models, m)
	}
	return models
}

func checkAnnotations(c *Ctx) {
	c.models(c.annotated(c.Pick(10, 100)), c.style, func(i int, p *run.Project) {
		count := map[string]int{}
		p.Model.EachAnn(func(kind string, a *spec.Ann, action bool) {
			if a.Go != "" {
				count["Go names of "+kind+"s"]++
			}
			if a.JSON != "" {
				count["JSON names of "+kind+"s"]++
			}
			if a.HTTP != "" {
				count["HTTP names of "+kind+"s"]++
			}
		})
		for k, n := range count {
			c.Count(k, n)
		}
		if !c.generate(p) {
			return
		}
		bin, err := p.Driver(run.Normal)
		if err != nil {
			c.Problem(p.Model.Label, p.Dir, err)
			return
		}
		c.drive(p, bin, "C22", c.Pick(3, 12))
		if !c.openAPI(p) || c.checkTree(p) == nil {
			return
		}
		c.irrelevant(i, p)
	})
}

// irrelevant checks that annotations that have no meaning have no effect.
func (c *Ctx) irrelevant(i int, p *run.Project) {
	res := p.Docs()
	if res.Code != 0 {
		c.Fail(p.Model.Label, p.Dir, res.Out, "generation of documentation fails: %s", run.Tail(res.Out, 5))
		return
	}
	m := p.Model.Clone()
	r := c.Rand("irrelevant", i)
	name := func(s string) spec.OtherAnn {
		return spec.OtherAnn{Name: s, Params: []spec.AnnParam{{Name: "name", Value: fmt.Sprintf("Irrelevant%d", r.Intn(1000))}}}
	}
	added := 0
	m.EachAnn(func(kind string, a *spec.Ann, action bool) {
		if r.Intn(3) == 0 {
			return
		}
		candidates := []spec.OtherAnn{name("other"), name("Go"), name("golang"), {Name: "name"}, name("refs"), name("httpx"), name("xml")}
		// Annotations whose name is known, but that don't apply to the concept or don't have a name:
		switch kind {
		case "type", "resource", "error":
			candidates = append(candidates, name("json"), name("http"))
		case "attribute", "value":
			candidates = append(candidates, name("http"))
		case "locator":
			candidates = append(candidates, name("json"))
		case "method":
			candidates = append(candidates, name("json"))
			if !action {
				candidates = append(candidates, name("http"))
			}
		case "parameter":
			if action {
				candidates = append(candidates, name("http"))
			}
		}
		label := func(s string) spec.OtherAnn {
			return spec.OtherAnn{Name: s, Params: []spec.AnnParam{{Name: "label", Value: "irrelevant"}}}
		}
		if a.Go == "" {
			candidates = append(candidates, label("go"))
		}
		if a.JSON == "" {
			candidates = append(candidates, label("json"))
		}
		if a.HTTP == "" {
			candidates = append(candidates, label("http"))
		}
		x := candidates[r.Intn(len(candidates))]
		if x.Name == "http" && a.HTTP != "" || x.Name == "json" && a.JSON != "" || x.Name == "go" && a.Go != "" {
			return
		}
		for _, o := range a.Other {
			if o.Name == x.Name {
				return
			}
		}
		a.Other = append(a.Other, x)
		added++
	})
	q, err := c.W.Project(m, c.style(i))
	if err != nil {
		c.Problem(m.Label, "", err)
		return
	}
	defer q.Remove()
	c.Count("irrelevant annotations", added)
	for _, g := range []struct {
		name string
		run  func() run.Res
		dir  string
	}{{"go", q.Go, "gen"}, {"openapi", q.OpenAPI, "openapi"}, {"docs", q.Docs, "docs"}} {
		res := g.run()
		if res.Code != 0 || res.Crashed() {
			c.Fail(m.Label, q.Dir, res.Out, "generation of %s fails with annotations that should have no effect: %s", g.name, run.Tail(res.Out, 5))
			return
		}
		a, err := run.Hash(filepath.Join(p.Dir, g.dir))
		if err != nil {
			c.Problem(m.Label, q.Dir, run.Infra{Err: err})
			return
		}
		b, err := run.Hash(filepath.Join(q.Dir, g.dir))
		if err != nil {
			c.Problem(m.Label, q.Dir, fmt.Errorf("output of %s can't be read: %v", g.name, err))
			return
		}
		for k := range b {
			c.Eval(1)
			c.Seen(m.Label + ":" + g.name + ":" + k)
		}
		if d := run.DiffHash(a, b); d != "" {
			c.Fail(m.Label, q.Dir, d, "annotations that should have no effect change the output of %s: %s", g.name, d)
			return
		}
		c.Count("files compared", len(b))
	}
}
