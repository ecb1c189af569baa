package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C05"] = Check{
		Rule: "A case is a model directory where one file has been truncated, had tokens or characters deleted, duplicated, replaced, inserted or swapped, " +
			"or been replaced by garbage; or where references, definitions or the directories themselves aren't correct. The text is judged by an " +
			"independent parser of the language: what it rejects has to be rejected, and when the tool accepts the text all its facts have to be in " +
			"the model. Distinct ones are the different texts.",
		Run: checkMalformed,
	}
}

var junk = []string{"@", "{", "}", "[", "]", "(", ")", "=", "\"", "`", "//", "/*", "*/", "'", ";", ",", ":", ".", "$", "#", "\\", "-", "+", "?", "\x00", "\xff\xfe", "ñ", "日",
	"class", "struct", "enum", "resource", "error", "method", "locator", "link", "attribute", "parameter", "value", "variable", "target", "code", "in", "out", "true", "false",
	"0", "1", "99999999999999999999999999", "\"text\"", "`raw`", "\"bad \\q escape\"", "\"two\nlines\"", "Foo", "_", "x1", "\ufeff", "// comment", "/* block */", "= 5", "= \"\"", "\r", "\n", "\t", " "}

// mutate changes a text.
func mutate(r *rand.Rand, text string) string {
	toks, _ := spec.Lex(text)
	words := make([]string, len(toks))
	for i, t := range toks {
		words[i] = t.Text
	}
	join := func(l []string) string {
		seps := []string{" ", "\n", " ", "\t"}
		var b strings.Builder
		for _, w := range l {
			b.WriteString(w + seps[r.Intn(len(seps))])
		}
		return b.String()
	}
	any := func() int { return r.Intn(len(words)) }
	switch r.Intn(12) {
	case 0: // Truncate at a token.
		return join(words[:any()])
	case 1: // Truncate anywhere.
		return text[:r.Intn(len(text))]
	case 2: // Delete a token.
		i := any()
		return join(append(append([]string{}, words[:i]...), words[i+1:]...))
	case 3: // Duplicate a token.
		i := any()
		return join(append(append(append([]string{}, words[:i]...), words[i]), words[i:]...))
	case 4: // Swap two tokens.
		l := append([]string{}, words...)
		i, j := any(), any()
		if r.Intn(2) == 0 && i+1 < len(l) {
			j = i + 1
		}
		l[i], l[j] = l[j], l[i]
		return join(l)
	case 5: // Replace a token by another of the text.
		l := append([]string{}, words...)
		l[any()] = words[any()]
		return join(l)
	case 6: // Replace a token by junk.
		l := append([]string{}, words...)
		l[any()] = junk[r.Intn(len(junk))]
		return join(l)
	case 7: // Insert junk between tokens.
		i := any()
		return join(append(append(append([]string{}, words[:i]...), junk[r.Intn(len(junk))]), words[i:]...))
	case 8: // Insert junk anywhere.
		i := r.Intn(len(text) + 1)
		return text[:i] + junk[r.Intn(len(junk))] + text[i:]
	case 9: // Change a character.
		b := []byte(text)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		return string(b)
	case 10: // Add something at the end, or at the beginning.
		x := junk[r.Intn(len(junk))]
		if r.Intn(2) == 0 {
			x = words[any()] + " " + words[any()]
		}
		if r.Intn(4) == 0 {
			return x + "\n" + text
		}
		return text + x
	default: // Delete a range of tokens.
		i, j := any(), any()
		if i > j {
			i, j = j, i
		}
		return join(append(append([]string{}, words[:i]...), words[j:]...))
	}
}

// garbage creates a text that has nothing to do with the language.
func garbage(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(4) {
	case 0:
		for i := 0; i < r.Intn(200); i++ {
			b.WriteByte(byte(r.Intn(256)))
		}
	case 1:
		for i := 0; i < r.Intn(60); i++ {
			b.WriteString(junk[r.Intn(len(junk))])
		}
	case 2:
		for i := 0; i < r.Intn(60); i++ {
			b.WriteString(junk[r.Intn(len(junk))] + " ")
		}
	default:
		b.WriteString(strings.Repeat(junk[r.Intn(len(junk))], 1+r.Intn(3000)))
	}
	return b.String()
}

// names returns a function that finds the names used by a model by their identifier.
func lookup(m *spec.Model) func(id string) (spec.Name, bool) {
	all := map[string]spec.Name{}
	put := func(n spec.Name) { all[n.ID] = n }
	for _, s := range spec.Scalars {
		put(spec.MakeName(strings.ToLower(s)))
	}
	put(spec.MakeName("ID"))
	m.Each(func(s *spec.Service, v *spec.Version) {
		for _, t := range v.Types {
			put(t.Name)
			for _, a := range t.Attrs {
				put(a.Name)
			}
			for _, x := range t.Values {
				put(x.Name)
			}
		}
		for _, r := range v.Resources {
			put(r.Name)
			for _, l := range r.Locators {
				put(l.Name)
			}
			for _, x := range r.Methods {
				put(x.Name)
				for _, p := range x.Params {
					put(p.Name)
				}
			}
		}
		for _, e := range v.Errors {
			put(e.Name)
		}
	})
	return func(id string) (spec.Name, bool) {
		n, ok := all[id]
		return n, ok
	}
}

// structural selects the facts that don't depend on documentation.
func structural(facts []string) []string {
	var l []string
	for _, f := range facts {
		switch strings.SplitN(f, " ", 2)[0] {
		case "type", "attribute", "value", "resource", "locator", "method", "parameter", "error", "ann":
			l = append(l, f)
		}
	}
	return l
}

// verdict runs the commands on a model directory that may not be correct.
func (c *Ctx) verdict(p *run.Project, label string, mustFail bool, commands ...string) (accepted, ok bool) {
	all := c.commands(p)
	for i, name := range commands {
		res := all[name]()
		c.Eval(1)
		c.Count("executions of "+name, 1)
		if res.Timeout {
			c.Fail(label, p.Dir, res.Out, "%s doesn't finish in %s", name, run.Limit)
			return false, false
		}
		if res.Crashed() {
			c.Fail(label, p.Dir, res.Out, "%s crashes: %s", name, run.Tail(res.Out, 15))
			return false, false
		}
		lines := errorLines(res.Out)
		if mustFail && res.Code == 0 {
			c.Fail(label, p.Dir, res.Out, "%s accepts input that isn't correct", name)
			return false, false
		}
		if res.Code != 0 && len(lines) == 0 {
			c.Fail(label, p.Dir, res.Out, "%s fails with code %d but doesn't report errors", name, res.Code)
			return false, false
		}
		if res.Code == 0 && len(lines) > 0 {
			c.Fail(label, p.Dir, res.Out, "%s reports errors but finishes with success: %s", name, lines[0])
			return false, false
		}
		if i == 0 {
			accepted = res.Code == 0
		}
	}
	return accepted, true
}

func checkMalformed(c *Ctx) {
	if _, err := c.W.Probe(); err != nil {
		c.Problem("probe", "", err)
		return
	}
	var models []*spec.Model
	for i := 0; i < 8; i++ {
		o := gen.Opts{Services: 1, Versions: 1, Types: 2, Attrs: 3, Resources: 2, Errors: 2, Odd: i%2 == 0, Annotate: 0.2, Docs: 0.2}
		models = append(models, gen.Random(c.Seed*1000+700+int64(i), o))
	}
	generators := []string{"generate go", "generate openapi", "generate docs"}
	c.Parallel(c.Pick(3000, 40000), func(i int) {
		r := c.Rand("malformed", i)
		m := models[i%len(models)]
		v := m.Services[0].Versions[0]
		p, err := c.W.Project(m, spec.Style{Rand: r, Files: 1 + i%4, Shuffle: true, Noise: r.Intn(4) == 0})
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		defer p.Remove()
		dir := filepath.Join(p.Dir, "model", m.Services[0].Name.ID, v.Name.ID)
		files, _ := filepath.Glob(filepath.Join(dir, "*"))
		sort.Strings(files)
		file := files[r.Intn(len(files))]
		data, _ := os.ReadFile(file)
		var text string
		kind := "mutation"
		switch {
		case i%10 == 9:
			kind = "garbage"
			text = garbage(r)
			if r.Intn(2) == 0 {
				// In addition to what is correct.
				file = filepath.Join(dir, "extra")
			}
		default:
			text = string(data)
			for k := 0; k < 1+i%2*r.Intn(2); k++ {
				if toks, _ := spec.Lex(text); len(toks) > 0 {
					text = mutate(r, text)
				}
			}
		}
		if err := os.WriteFile(file, []byte(text), 0644); err != nil {
			c.Problem(m.Label, "", run.Infra{Err: err})
			return
		}
		label := fmt.Sprintf("%s, %s %d of %s", m.Label, kind, i, filepath.Base(file))
		// Judge the complete directory:
		parsed := &spec.Version{Name: v.Name}
		odd := false
		var bad error
		files, _ = filepath.Glob(filepath.Join(dir, "*"))
		for _, f := range files {
			t, _ := os.ReadFile(f)
			x, err := spec.Parse(string(t), parsed, lookup(m))
			odd = odd || x
			if err != nil {
				bad = err
			}
		}
		c.Seen(text)
		commands := []string{"check"}
		if r.Intn(4) == 0 || bad == nil {
			commands = append(commands, generators[r.Intn(3)])
		}
		if bad != nil {
			c.Count("texts that aren't in the language", 1)
		} else {
			c.Count("texts that are in the language", 1)
		}
		accepted, ok := c.verdict(p, label, bad != nil, commands...)
		if !ok {
			return
		}
		if accepted && !odd {
			c.Count("texts accepted, whose facts are compared", 1)
			var actual []string
			if _, err := c.W.RunProbe(p.Dir, &actual, "dump", "model"); err != nil {
				c.Problem(label, p.Dir, err)
				return
			}
			expected := &spec.Model{Services: []*spec.Service{{Name: m.Services[0].Name, Versions: []*spec.Version{parsed}}}}
			if d := compareFacts(structural(expected.Facts()), structural(actual)); d != "" {
				c.Fail(label, p.Dir, text, "the tool accepts the text but the model isn't what it says: %s", d)
				return
			}
		}
		if i < 40 {
			c.Sample(fmt.Sprintf("%s: accepted=%v (independent parser: %v): %s", label, accepted, bad, clip(text, 200)))
		}
	})
	c.incomplete()
}

// incomplete checks things that are correct for the grammar, but incomplete or strange.
func (c *Ctx) incomplete() {
	type job struct {
		name  string
		files map[string]string
		dirs  []string
		bad   bool
	}
	const root = "resource Root {}\n"
	one := func(name string, bad bool, text string) job {
		return job{name: name, bad: bad, files: map[string]string{"svc/v1/a.model": text}}
	}
	target := "class Target { Name String\n link Peer Target\n State State }\nenum State { on off }\nstruct Plain { Name String }\nerror Oops { code 5 }\n" + root
	jobs := []job{
		one("empty file and nothing else", true, ""),
		one("only a comment", true, "// nothing\n"),
		one("only white space", true, " \n\t\r\n"),
		one("just the root", false, root),
		one("empty class", false, "class Foo {}\n"+root),
		one("empty struct", false, "struct Foo {}\n"+root),
		one("empty enum", false, "enum Foo {}\n"+root),
		one("locator without target", true, "resource Root { locator Foo {} }"),
		one("locator with only variable", true, "resource Root { locator Foo { variable ID } }"),
		one("locator with negative code", true, "error Foo { code -5 }\n"+root),
		one("error code too big", true, "error Foo { code 99999999999999999999 }\n"+root),
		one("error code that isn't a number", true, "error Foo { code x }\n"+root),
		one("default too big", true, "resource Root { method Do { in X Integer = 99999999999999999999 } }"),
		one("list of lists", true, "class Foo { X [][]String }\n"+root),
		one("map without element", true, "class Foo { X [String] }\n"+root),
		one("two names", true, "class Foo Bar {}\n"+root),
		one("no name", true, "class {}\n"+root),
		one("keyword as name", true, "class value {}\n"+root),
		one("nested class", true, "class Foo { class Bar {} }\n"+root),
		one("missing brace", true, "class Foo { X String\n"+root),
		one("extra brace", true, "class Foo { X String }}\n"+root),
		one("extra brace at the end", true, root+"}"),
		one("text at the end", true, root+"hello"),
		one("text at the end after a comment", true, root+"/* x */ hello"),
		one("number at the end", true, root+"5"),
		one("annotation at the end", true, root+"@foo"),
		one("unfinished block comment", true, root+"/* x "),
		one("unfinished string", true, "@json(name=\"x)\nclass Foo {}\n"+root),
		one("escape that isn't valid", true, "@json(name=\"\\q\")\nclass Foo {}\n"+root),
		one("string with line break", true, "@json(name=\"a\nb\")\nclass Foo {}\n"+root),
		one("annotation without value", true, "@json(name)\nclass Foo {}\n"+root),
		one("annotation with comma", true, "@json(a=1, b=2)\nclass Foo {}\n"+root),
		one("documentation that starts with a blank line", false, "//\n// Text of the class.\nclass Foo {\n\t//  \n\t//  Text of the attribute.\n\tBar String\n}\n"+root),
		one("only blank documentation", false, "//\n//\nclass Foo {\n\t// \n\tBar String\n}\n"+root),
		one("documentation with inconsistent prefix", true, "//  first\n// second\n//x third\nclass Foo {}\n"+root),
		one("byte order mark", true, "\ufeff"+root),
		one("byte that isn't valid", true, "class Foo { X String }\xff\n"+root),
		one("null byte", true, "class Foo { X String }\x00\n"+root),
		one("control-z", true, root+"\x1a"),
		one("no line break at the end", false, strings.TrimSpace(root)),
		one("old line breaks", false, "class Foo {\r X String\r}\rresource Root {\r}\r"),
		one("comment with strange bytes", false, "/* \xff \x00 ñ */\n"+root),
		one("references to nothing", false, "@ref(path=\"\")\nclass Foo { }\n"+root),
		{name: "missing model", bad: true, dirs: []string{"-"}},
		{name: "file in the model directory", files: map[string]string{"svc/v1/a.model": root, "README.md": "hello {"}},
		{name: "file in the service directory", files: map[string]string{"svc/v1/a.model": root, "svc/README.md": "hello {"}},
		{name: "garbage without extension in the version directory", bad: true, files: map[string]string{"svc/v1/a.model": root, "svc/v1/README": "hello {"}},
		{name: "directory in the version directory", files: map[string]string{"svc/v1/a.model": root}, dirs: []string{"svc/v1/sub"}},
		{name: "version without files", bad: true, files: map[string]string{"svc/v1/a.model": root}, dirs: []string{"svc/v2"}},
		{name: "syntax error in the other version", bad: true, files: map[string]string{"svc/v1/a.model": root, "svc/v2/a.model": root + "class {"}},
		{name: "syntax error in the other service", bad: true, files: map[string]string{"svc/v1/a.model": root, "aaa/v1/a.model": "resource Root { x }"}},
		{name: "type split between files", bad: true, files: map[string]string{"svc/v1/a.model": root + "class Foo { X String", "svc/v1/b.model": "}"}},
	}
	for _, path := range []string{"", "/", "//", "///", "x", "x/y", "/x/y", "x/y/z", "dst", "dst/v1", "/dst/v1", "dst/v1/", "/dst/v1/", "dst/v1/nothing", "dst/v2/target", "other/v1/target",
		"dst/v1/target/x", "/dst/v1/target/x", "dst/v1/state", "dst/v1/plain", "dst/v1/oops", "dst/v1/root", "dst//target", "svc/v1/foo", "svc/v1/target", "dst/v1/ target", " dst/v1/target",
		"dst.v1.target", "dst\\\\v1\\\\target", "DST/v1/target", "../dst/v1/target"} {
		bad := true
		switch path {
		case "", "dst/v1/state", "dst/v1/plain", "DST/v1/target":
			bad = false // Whatever the verdict is, it shouldn't crash.
		}
		jobs = append(jobs, job{name: "reference with path '" + path + "'", bad: bad, files: map[string]string{
			"dst/v1/a.model": target, "svc/v1/a.model": root + "@ref(path=\"" + path + "\")\nclass Target { }\n"}})
	}
	for _, path := range []string{"5", "true", "`dst/v1/nothing`"} {
		jobs = append(jobs, job{name: "reference with path " + path, bad: true, files: map[string]string{
			"dst/v1/a.model": target, "svc/v1/a.model": root + "@ref(path=" + path + ")\nclass Target { }\n"}})
	}
	jobs = append(jobs,
		job{name: "reference to a reference", files: map[string]string{
			"aaa/v1/a.model": target, "bbb/v1/a.model": root + "@ref(path=\"aaa/v1/target\") class Target {}", "ccc/v1/a.model": root + "@ref(path=\"bbb/v1/target\") class Target {}"}},
		job{name: "references that form a loop", bad: true, files: map[string]string{
			"aaa/v1/a.model": root + "@ref(path=\"bbb/v1/target\") class Target {}", "bbb/v1/a.model": root + "@ref(path=\"aaa/v1/target\") class Target {}"}},
		job{name: "reference without path", files: map[string]string{"dst/v1/a.model": target, "svc/v1/a.model": root + "@ref\nclass Target { }\n"}},
		job{name: "reference with other parameters", files: map[string]string{"dst/v1/a.model": target, "svc/v1/a.model": root + "@ref(name=\"x\")\nclass Target { }\n"}},
		job{name: "deep nesting of maps", bad: true, files: map[string]string{"svc/v1/a.model": root + "class Foo { X " + strings.Repeat("[String]", 2000) + "String }"}},
		job{name: "many braces", bad: true, files: map[string]string{"svc/v1/a.model": root + strings.Repeat("{", 20000)}},
		job{name: "very long name", files: map[string]string{"svc/v1/a.model": root + "class " + strings.Repeat("Foo", 30) + " { X String }"}},
		job{name: "very long string", files: map[string]string{"svc/v1/a.model": root + "@x(name=\"" + strings.Repeat("y", 200000) + "\") class Foo { X String }"}},
		job{name: "names that are only underscores", files: map[string]string{"svc/v1/a.model": root + "class _ { __ String }"}},
		job{name: "single letters", files: map[string]string{"svc/v1/a.model": root + "class A { b String\n C Integer }"}},
		job{name: "names that end with an underscore", files: map[string]string{"svc/v1/a.model": root + "class Foo_ { Bar_ String }"}},
	)
	for _, name := range []string{"_", "__", "-", ".hidden", "with space", "UPPER", "1", "a__b", "_a", "a_", "ñ", "a.b", "a-b"} {
		jobs = append(jobs,
			job{name: "service named '" + name + "'", files: map[string]string{name + "/v1/a.model": "class Foo { X String }\n" + root}},
			job{name: "version named '" + name + "'", files: map[string]string{"svc/" + name + "/a.model": "class Foo { X String }\n" + root}})
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		p, err := c.W.Empty()
		if err != nil {
			c.Problem(j.name, "", err)
			return
		}
		defer p.Remove()
		if len(j.dirs) == 1 && j.dirs[0] == "-" {
			_ = os.Remove(filepath.Join(p.Dir, "model"))
		} else {
			for _, d := range j.dirs {
				_ = os.MkdirAll(filepath.Join(p.Dir, "model", d), 0755)
			}
		}
		for f, text := range j.files {
			if err := p.Put(filepath.Join("model", f), text); err != nil {
				c.Problem(j.name, "", err)
				return
			}
		}
		c.Seen(j.name)
		c.Count("incomplete or strange models", 1)
		c.verdict(p, j.name, j.bad, "check", "generate openapi", "generate docs", "generate go")
	})
}
