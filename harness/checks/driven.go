package checks

import (
	"fmt"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

const modelRule = "Models are the hand written 'kitchen' model, a model with very wide types and random models " +
	"(one or two services, one to three versions, hostile names and annotations in half of them), all generated by the tool " +
	"built from the working tree, compiled, and driven through their public API. "

// suite are the models used by the checks that execute generated code.
func (c *Ctx) suite(quick, thorough int) []*spec.Model {
	models := gen.Suite(c.Seed, c.Pick(quick, thorough))
	return append(models, gen.Wide(c.Seed, 1, 30, 31, 32, 33, 60, 61, 63, 64))
}

// style is the layout of the source used by the checks that don't care about it.
func (c *Ctx) style(i int) spec.Style {
	return spec.Style{Rand: c.Rand("style", i), Files: i % 3, Shuffle: i%2 == 1, Noise: i%3 == 2}
}

// driven runs the check inside of the driver for all the models.
func driven(id, kind, rule string, quick, thorough, n, tn int) {
	All[id] = Check{Rule: modelRule + rule, Run: func(c *Ctx) {
		c.driveAll(c.suite(quick, thorough), kind, c.Pick(n, tn))
	}}
}

// driveAll generates the code of the models and runs the check on it.
func (c *Ctx) driveAll(models []*spec.Model, kind string, n int) {
	c.models(models, c.style, func(i int, p *run.Project) {
		if !c.generate(p) {
			return
		}
		bin, err := p.Driver(kind)
		if err != nil {
			c.Problem(p.Model.Label, p.Dir, err)
			return
		}
		c.drive(p, bin, c.ID, n)
	})
}

func init() {
	All["C19"] = Check{
		Rule: modelRule + "The driver is built with the race detector. A case is a group of seven or less goroutines that start at the same time and use shared objects, lists, " +
			"texts, clients, requests, errors and embedded data, with random delays; each goroutine checks its own results with the same oracles as when it is alone, " +
			"without any synchronisation added by the monitors. Distinct ones are the different groups, and the different orders of starts and ends of operations that were " +
			"observed where at least two operations overlap.",
		Run: checkRaces,
	}
	driven("C07", run.Normal, "A case is a sequence of calls to the setters of the builder of one type; distinct ones are those with a different type and set of present attributes.", 12, 120, 6, 40)
	driven("C08", run.Normal, "A case is a history of set, copy, build and mutation operations over several builders and objects of one type; each one counts as distinct by type and operations performed.", 12, 120, 6, 40)
	driven("C09", run.Normal, "A case is a value of one type, written, compared with the expected document, and read back with permuted fields, white space and escapes; distinct ones are those with a different type and set of present attributes.", 12, 120, 6, 40)
	driven("C10", run.Normal, "A case is a text for the reader of one type: valid documents with junk fields, truncations, wrong types, invalid dates and failing sources; distinct ones are those with a different type and text.", 12, 120, 4, 20)
	driven("C11", run.Normal, "A case is a request built with a random set of parameters, query values and headers, and sent through a recording transport; distinct ones are those with a different method and set of parameters.", 12, 120, 6, 30)
	driven("C12", run.Normal, "A case is a response of the server (success, error, empty, malformed, transport and body failures) for one method; distinct ones are those with a different method, set of parameters and status.", 12, 120, 6, 30)
	driven("C13", run.Virtual, "A case is a configuration of statuses, predicates, interval and deadline plus a sequence of responses, delays and failures, executed with a virtual clock; distinct ones are those with a different resource, outcome, number of requests, statuses and predicates.", 12, 120, 12, 80)
	driven("C14", run.Normal, "A case is an error object built, copied, written, read and sent with the helpers, or a constant of a category; distinct ones are those with a different set of attributes or category.", 8, 60, 40, 200)
	driven("C21", run.Normal, "A case is a list of one type compared with the sequence of its items; distinct ones are those with a different type and number of items.", 12, 120, 6, 40)
	driven("C23", run.Normal, "A case is a set of query values or headers given to the helpers; distinct ones are those with a different helper and text.", 4, 20, 40, 300)
}

// checkRaces runs the concurrent driver.
func checkRaces(c *Ctx) {
	c.models(c.suite(5, 40), c.style, func(i int, p *run.Project) {
		if !c.generate(p) {
			return
		}
		bin, err := p.Driver(run.Race)
		if err != nil {
			c.Problem(p.Model.Label, p.Dir, err)
			return
		}
		x := c.drive(p, bin, c.ID, c.Pick(6, 40), "GORACE=halt_on_error=0 exitcode=66 history_size=5")
		if x == nil {
			return
		}
		reports := strings.Split(x.Res.Out, "WARNING: DATA RACE")
		for _, report := range reports[1:] {
			if end := strings.Index(report, "=================="); end > 0 {
				report = report[:end]
			}
			if !strings.Contains(report, run.Module+"/gen/") {
				c.Problem(p.Model.Label, "", run.Infra{Err: fmt.Errorf("race in the harness: %s", clip(report, 2000))})
				continue
			}
			c.Fail(p.Model.Label, p.Dir, report, "data race: %s", clip(report, 700))
		}
		if x.Res.Code != 0 && len(reports) == 1 {
			c.Problem(p.Model.Label, p.Dir, fmt.Errorf("the driver finishes with code %d: %s", x.Res.Code, run.Tail(x.Res.Out, 10)))
		}
		c.Count("executions with the race detector", 1)
	})
}
