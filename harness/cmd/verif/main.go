// Command verif decides a property.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"verif.local/harness/checks"
	"verif.local/harness/run"
)

func main() {
	id := flag.String("property", "", "identifier of the property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "directory for the evidence")
	scratch := flag.String("scratch", "", "scratch directory")
	harness := flag.String("harness", "/verif/harness", "directory of the harness")
	flag.Parse()
	start := time.Now()
	_, ok := checks.All[*id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	w, err := run.New(*scratch, *harness)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := &checks.Ctx{ID: *id, Tier: *tier, Seed: *seed, W: w, Distinct: map[string]bool{}, Counters: map[string]int{}}
	c.Deadline = start.Add(time.Duration(c.Pick(300, 600)) * time.Second)
	c.RunWith(*verif)
	os.Exit(c.Report(*verif, start))
}
