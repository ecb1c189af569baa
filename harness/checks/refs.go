package checks

import (
	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C17"] = Check{
		Rule: "Models have a service whose classes are references to classes of another service, loaded before or after it, with different " +
			"layouts of the source. A case is a fact of the model in memory, an object, list, request or response handled by the generated code, or an " +
			"operation or schema of the OpenAPI document; distinct ones are the observations of those monitors.",
		Run: checkRefs,
	}
}

func (c *Ctx) refModels(n int) []*spec.Model {
	var models []*spec.Model
	for i := 0; i < n; i++ {
		models = append(models, gen.Refs(c.Seed*1000+int64(i)))
	}
	return models
}

func checkRefs(c *Ctx) {
	if _, err := c.W.Probe(); err != nil {
		c.Problem("probe", "", err)
		return
	}
	models := c.refModels(c.Pick(16, 160))
	c.models(models, c.style, func(i int, p *run.Project) {
		var actual []string
		if _, err := c.W.RunProbe(p.Dir, &actual, "dump", "model"); err != nil {
			c.Problem(p.Model.Label, p.Dir, err)
			return
		}
		expected := p.Model.Facts()
		c.Eval(len(expected))
		c.Count("facts compared", len(expected))
		if d := compareFacts(expected, actual); d != "" {
			c.Fail(p.Model.Label, p.Dir, d, "the model in memory isn't the declared one: %s", d)
		}
		if !c.generate(p) {
			return
		}
		bin, err := p.Driver(run.Normal)
		if err != nil {
			c.Problem(p.Model.Label, p.Dir, err)
			return
		}
		c.drive(p, bin, "C17", c.Pick(4, 20))
		c.openAPI(p)
	})
}
