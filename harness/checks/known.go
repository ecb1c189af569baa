package checks

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"

	"verif.local/harness/run"
)

// finding is a defect of the code under test that is known and hasn't been repaired. The probe runs the exact
// input that fails, and returns what is wrong, or an empty text if nothing is.
type finding struct {
	property string
	files    map[string]string
	probe    func(c *Ctx, p *run.Project) string
}

var findings = map[string]finding{
	"linked-and-brought": {
		property: "C17",
		files: map[string]string{
			"model/target/v1/all.model": "class Car {\n\tlink Owner Person\n\tSeat Seat\n}\n\nstruct Seat {\n\tUser Person\n}\n\n" +
				"class Person {\n\tAge Integer\n}\n\nresource Root {\n}\n",
			"model/hub/v1/all.model": "@ref(path = \"/target/v1/car\")\nclass Car {\n}\n\nresource Root {\n}\n",
		},
		probe: func(c *Ctx, p *run.Project) string {
			if res := p.Go(); res.Code != 0 {
				return ""
			}
			if res := p.Compile(); res.Code != 0 && !res.Timeout {
				return "the code generated for a reference to a class with a link to a class that is also brought along doesn't compile"
			}
			return ""
		},
	},
	"same-page": {
		property: "C18",
		files: map[string]string{
			"model/first/v1/all.model":  "// Text of the first.\nstruct Thing {\n\tOne String\n}\n\nresource Root {\n}\n",
			"model/second/v1/all.model": "// Text of the second.\nstruct Thing {\n\tTwo String\n}\n\nresource Root {\n}\n",
		},
		probe: func(c *Ctx, p *run.Project) string {
			if res := p.Docs(); res.Code != 0 {
				return ""
			}
			first, second := false, false
			_ = filepath.Walk(filepath.Join(p.Dir, "docs"), func(path string, info os.FileInfo, err error) error {
				if err == nil && !info.IsDir() {
					text, _ := os.ReadFile(path)
					first = first || strings.Contains(string(text), "Text of the first.")
					second = second || strings.Contains(string(text), "Text of the second.")
				}
				return nil
			})
			if first && second {
				return ""
			}
			return "the documentation pages of the types with the same name of two services overwrite each other"
		},
	},
}

// knownFindings tries the known findings of the property that are listed in the file. The ones that aren't listed are
// reported as violations.
func (c *Ctx) knownFindings(file string) {
	listed := map[string]string{}
	f, err := os.Open(file)
	if err == nil {
		defer f.Close()
		scanner := bufio.NewScanner(f)
		for scanner.Scan() {
			fields := strings.Fields(scanner.Text())
			if len(fields) > 2 && fields[0] == "known:" && fields[1] == "property="+c.ID {
				listed[fields[2]] = strings.Join(fields[2:], " ")
			}
		}
	}
	for name, x := range findings {
		if x.property != c.ID {
			continue
		}
		p, err := c.W.Empty()
		if err != nil {
			c.Problem(name, "", err)
			continue
		}
		for path, text := range x.files {
			if err := p.Put(path, text); err != nil {
				c.Problem(name, "", err)
			}
		}
		what := x.probe(c, p)
		c.Eval(1)
		if what != "" {
			if listed[name] != "" {
				c.KnownFinding(name + ": " + what)
			} else {
				c.Fail(name, p.Dir, "", "%s", what)
			}
		}
		p.Remove()
	}
}

// RunWith runs the check and the probes of the known findings.
func (c *Ctx) RunWith(verif string) {
	c.knownFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	All[c.ID].Run(c)
}
