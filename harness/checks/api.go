package checks

import (
	"fmt"
	"strings"
)

func init() {
	All["C24"] = Check{
		Rule: "Models, names and messages are made through the programming interface of the packages of the tool, with random sequences of " +
			"operations, inside a probe linked with the real packages. A case is one answer of that interface compared with plain records of what " +
			"was done; distinct ones are the pairs of collection and size, predicate and kind, and concepts used in messages.",
		Run: checkAPI,
	}
}

func checkAPI(c *Ctx) {
	if _, err := c.W.Probe(); err != nil {
		c.Problem("probe", "", err)
		return
	}
	c.Parallel(c.Pick(32, 400), func(i int) {
		p, err := c.W.Empty()
		if err != nil {
			c.Problem("api", "", err)
			return
		}
		defer p.Remove()
		var result struct {
			Errors   []string
			Checks   map[string]int
			Distinct []string
		}
		seed := c.Seed*100000 + int64(i)
		if _, err := c.W.RunProbe(p.Dir, &result, "api", fmt.Sprint(seed), "40"); err != nil {
			c.Problem(fmt.Sprintf("seed %d", seed), p.Dir, err)
			return
		}
		for k, n := range result.Checks {
			c.Eval(n)
			c.Count("answers about "+k, n)
		}
		for _, k := range result.Distinct {
			c.Seen(k)
		}
		for _, e := range result.Errors {
			c.Fail(fmt.Sprintf("seed %d", seed), "", e, "%s", e)
		}
		if len(result.Distinct) > 3 {
			c.Sample(strings.Join(result.Distinct[:3], "; "))
		}
	})
}
