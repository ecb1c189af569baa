package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C20"] = Check{
		Rule: "A case is an execution of the tool: command lines that are complete or not, valid and broken models with all the commands, output that can't " +
			"be written because something else is in the place of the directory or of one of the files or because the device is full, formatter that is " +
			"missing or fails, executions that are killed at a random moment, and output on top of a previous one. What is observed is the status, the " +
			"reports, the complete content of the scratch file system before and after, and the system calls that create or change files. Distinct ones are the " +
			"different pairs of command and situation.",
		Run: checkCLI,
	}
}

// site is a scratch file system where everything that the tool could touch is observed.
type site struct {
	c   *Ctx
	p   *run.Project
	env []string
}

var goEnv []string

func (c *Ctx) site(m *spec.Model, st spec.Style) (*site, error) {
	p, err := c.W.Project(m, st)
	if err != nil {
		return nil, err
	}
	s := &site{c: c, p: p}
	for _, d := range []string{"home", "tmp", "beside", "bin"} {
		if err := p.Put(d+"/keep.txt", "keep\n"); err != nil {
			return nil, err
		}
	}
	s.env = append([]string{"HOME=" + filepath.Join(p.Dir, "home"), "TMPDIR=" + filepath.Join(p.Dir, "tmp")}, goEnv...)
	return s, nil
}

func (s *site) path(name string) string { return filepath.Join(s.p.Dir, name) }

// args returns the command line of a command.
func (s *site) args(command, models, output string) []string {
	l := strings.Fields(command)
	for _, m := range strings.Split(models, " ") {
		l = append(l, "--model="+m)
	}
	if command == "generate go" {
		l = append(l, "--base="+run.Base)
	}
	if command != "check" {
		l = append(l, "--output="+output)
	}
	return l
}

func (s *site) exec(args []string, env ...string) run.Res {
	s.c.Eval(1)
	s.c.Count("executions", 1)
	return s.p.W.Exec(s.p.Dir, run.Limit, append(append([]string{}, s.env...), env...), s.p.W.Tool, args...)
}

// snapshot returns the content of everything except the output directory.
func (s *site) snapshot(output string) map[string]string {
	all, err := run.Hash(s.p.Dir)
	if err != nil {
		return map[string]string{"error": err.Error()}
	}
	for k := range all {
		if strings.HasPrefix(k, "home/.config") || strings.HasPrefix(k, "home/.cache") {
			delete(all, k) // The formatter uses these.
		} else if output != "" && (k == output || strings.HasPrefix(k, output+"/")) {
			delete(all, k)
		}
	}
	return all
}

// failed checks that an execution failed as it should, and reports it otherwise.
func (s *site) failed(label string, res run.Res) bool {
	s.c.Seen(label)
	what := ""
	switch {
	case res.Timeout:
		what = fmt.Sprintf("doesn't finish in %s", run.Limit)
	case res.Crashed():
		what = "crashes"
	case res.Code == 0:
		what = "finishes with success"
	case len(res.Errors()) == 0:
		what = fmt.Sprintf("finishes with code %d but without an error message", res.Code)
	default:
		s.c.Count("failures reported", 1)
		return true
	}
	s.c.Fail(label, s.p.Dir, res.Out, "%s: %s", what, run.Tail(res.Out, 6))
	return false
}

// worked checks that an execution worked as it should, and reports it otherwise.
func (s *site) worked(label string, res run.Res) bool {
	s.c.Seen(label)
	lines := errorLines(res.Out)
	if res.Code != 0 || res.Timeout || res.Crashed() || len(lines) > 0 {
		s.c.Fail(label, s.p.Dir, res.Out, "finishes with code %d: %s", res.Code, run.Tail(res.Out, 6))
		return false
	}
	s.c.Count("successes", 1)
	return true
}

// output is the directory for the output of a command. For Go it has to be the one that corresponds to the base
// package, as otherwise the formatter can't find the packages.
func output(command string) string {
	if command == "generate go" {
		return "gen"
	}
	return "out-" + strings.Fields(command)[len(strings.Fields(command))-1]
}

// aside moves the output of a command to other place, and returns its content.
func (s *site) aside(command string) map[string]string {
	h, _ := run.Hash(s.path(output(command)))
	_ = os.RemoveAll(s.path(output(command)))
	return h
}

var generators = []string{"generate go", "generate openapi", "generate docs"}

func small(seed int64, i int) *spec.Model {
	m := gen.Random(seed, gen.Opts{Services: 1 + i%2, Versions: 1, Types: 2 + i%3, Attrs: 3, Resources: 2, Errors: 2, Docs: 0.3, Annotate: 0.1 * float64(i%2)})
	m.Label = fmt.Sprintf("small %d", seed)
	return m
}

func checkCLI(c *Ctx) {
	res := c.W.Exec(c.W.Dir, time.Minute, nil, "go", "env", "GOPATH", "GOMODCACHE", "GOCACHE")
	lines := strings.Split(strings.TrimSpace(res.Out), "\n")
	if res.Code != 0 || len(lines) != 3 {
		c.Infra = append(c.Infra, "can't get the Go environment: "+res.Out)
		return
	}
	goEnv = []string{"GOPATH=" + lines[0], "GOMODCACHE=" + lines[1], "GOCACHE=" + lines[2]}
	parts := []func(r *rand.Rand, i int){c.options, c.verdicts, c.contained, c.faults, c.interrupted, c.severalModels, c.longLines, c.systemCalls}
	counts := []int{1, c.Pick(60, 600), c.Pick(6, 40), c.Pick(6, 60), c.Pick(4, 40), c.Pick(4, 30), 1, c.Pick(2, 8)}
	var jobs []func()
	for k, f := range parts {
		for i := 0; i < counts[k]; i++ {
			k, i, f := k, i, f
			jobs = append(jobs, func() { f(c.Rand(fmt.Sprintf("cli%d", k), i), i) })
		}
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
}

// options checks complete and incomplete command lines.
func (c *Ctx) options(r *rand.Rand, i int) {
	s, err := c.site(small(c.Seed, 0), spec.Style{})
	if err != nil {
		c.Problem("options", "", err)
		return
	}
	defer s.p.Remove()
	base := "--base=" + run.Base
	good := [][]string{
		{"version"}, {"--help"}, {"help"}, {"check", "--help"}, {"generate", "go", "--help"}, {"help", "generate"},
		{"check", "--model=model"}, {"check", "--model", "model"}, {"check", "--model=./model/"}, {"check", "--model=" + s.path("model")},
		{"generate", "openapi", "--model=model", "--output=o1"}, {"generate", "docs", "--output", "o2", "--model", "model"},
		{"generate", "go", "--output=o3/deep/er", "--model=model", base}, {"generate", "openapi", "--model=model", "--output=with space/ñ"},
		{"generate", "docs", "--model=model", "--output=" + s.path("o4")}, {"generate", "openapi", "--model=model", "--output=beside/../o5"},
	}
	for _, args := range good {
		label := "command line " + strings.Join(args, " ")
		res := s.exec(args)
		if !s.worked(label, res) {
			return
		}
		if args[0] == "version" && !regexp.MustCompile(`^\d+\.\d+\.\d+\s*$`).MatchString(res.Out) {
			c.Fail(label, "", res.Out, "the version is %q", res.Out)
		}
		if args[len(args)-1] == "--help" && !strings.Contains(res.Out, "Usage") {
			c.Fail(label, "", res.Out, "the help is %q", res.Out)
		}
	}
	for _, dir := range []string{"o1", "o2", "o3/deep/er", "with space/ñ", "o4", "o5"} {
		if l, err := os.ReadDir(s.path(dir)); err != nil || len(l) == 0 {
			c.Fail("command line", s.p.Dir, "", "there is nothing in the output directory %s", dir)
		}
	}
	_ = s.p.Put("afile", "class Foo {}\n")
	bad := [][]string{
		{"check"}, {"generate", "go"}, {"generate", "openapi"}, {"generate", "docs"},
		{"generate", "go", "--model=model", base}, {"generate", "go", "--model=model", "--output=x1"}, {"generate", "go", base, "--output=x1"},
		{"generate", "openapi", "--model=model"}, {"generate", "openapi", "--output=x1"}, {"generate", "docs", "--model=model"}, {"generate", "docs", "--output=x1"},
		{"generate", "openapi", "--model=model", "--output="}, {"generate", "docs", "--model=model", "--output="}, {"generate", "go", "--model=model", "--output=x1", "--base="},
		{"unknown"}, {"--unknown"}, {"check", "--unknown=x"}, {"check", "--model=model", "--output=x1"}, {"generate", "--model=model"},
		{"generate", "golang"}, {"generate", "bogus", "--model=model", "--output=x1"}, {"generate", "Go"}, {"generate", "check"}, {"generate", "--", "doc"},
		{"generate", "docs", "--model=model", "--output=x1", "--base=x"}, {"check", "--model"}, {"check", "-model=model"},
		{"check", "--model=missing"}, {"generate", "go", "--model=missing", base, "--output=x1"}, {"generate", "openapi", "--model=missing", "--output=x1"},
		{"generate", "docs", "--model=missing", "--output=x1"}, {"check", "--model=model", "--model=missing"}, {"check", "--model=missing,model"},
		{"generate", "docs", "--model=model,missing", "--output=x1"},
	}
	before := s.snapshot("")
	for _, args := range bad {
		if !s.failed("command line "+strings.Join(args, " "), s.exec(args)) {
			return
		}
	}
	if d := run.DiffHash(before, s.snapshot("")); d != "" {
		c.Fail("command line", s.p.Dir, "", "commands that failed because of their command line changed something: %s", d)
	}
}

// verdicts checks that all the commands give the same verdict for the same model.
func (c *Ctx) verdicts(r *rand.Rand, i int) {
	m := small(r.Int63(), i)
	e := edit{name: "none"}
	if list := edits(); i%3 != 0 {
		var culprits []string
		for k := 0; k < 100 && culprits == nil; k++ {
			e = list[r.Intn(len(list))]
			if e.invalid {
				culprits = e.apply(r, m)
			}
		}
		if culprits == nil {
			return
		}
	}
	s, err := c.site(m, spec.Style{Rand: r, Files: r.Intn(3), Shuffle: true})
	if err != nil {
		c.Problem("verdicts", "", err)
		return
	}
	defer s.p.Remove()
	broken := e.invalid
	if !broken && i%2 == 1 {
		// A file that isn't correct, at any position:
		files, _ := filepath.Glob(s.path("model/*/*/*"))
		file := files[r.Intn(len(files))]
		text, _ := os.ReadFile(file)
		at := r.Intn(len(text))
		if strings.Contains(string(text[at:]), "class") || strings.Contains(string(text[at:]), "{") {
			at = strings.LastIndex(string(text), "}")
		}
		if at < 0 {
			return
		}
		_ = os.WriteFile(file, append(append([]byte{}, text[:at]...), []byte(" } } \n")...), 0644)
		broken = true
		e.name = "syntax"
	}
	before := s.snapshot("")
	for _, command := range append([]string{"check"}, generators...) {
		label := command + " with edit " + e.name
		res := s.exec(s.args(command, "model", "out/"+strings.ReplaceAll(command, " ", "-")))
		if broken {
			if !s.failed(label, res) {
				return
			}
		} else if !s.worked(label, res) {
			return
		}
		// Models that aren't correct don't give any output:
		if d := run.DiffHash(before, s.snapshot("out")); broken && d != "" {
			c.Fail(label, s.p.Dir, res.Out, "the file system changed: %s", d)
		}
	}
	c.Count("verdicts compared", 1)
}

// contained checks that only the output directory is written.
func (c *Ctx) contained(r *rand.Rand, i int) {
	s, err := c.site(small(r.Int63(), i), spec.Style{Rand: r, Files: 1 + r.Intn(3)})
	if err != nil {
		c.Problem("contained", "", err)
		return
	}
	defer s.p.Remove()
	// Other things that the user may have there:
	_ = s.p.Put("model/README.md", "Not part of the model.\n")
	_ = s.p.Put("model/"+s.p.Model.Services[0].Name.ID+"/NOTES", "Not part of the model.\n")
	for _, x := range []string{"index.md", "openapi.json", "errors.go", "builders.go", "openapi/a.json", "docs/a.md", "gen/a.txt", "errors/errors.go", "helpers/x.go"} {
		_ = s.p.Put("beside/"+x, "mine\n")
		_ = s.p.Put(x, "mine\n")
	}
	for _, command := range generators {
		output := output(command)
		_ = s.p.Put(output+"/mine.txt", "mine\n")
		_ = s.p.Put(output+"/sub/mine.md.txt", "mine\n")
		before := s.snapshot(output)
		label := command + " next to other files"
		if !s.worked(label, s.exec(s.args(command, "model", output))) {
			return
		}
		if d := run.DiffHash(before, s.snapshot(output)); d != "" {
			c.Fail(label, s.p.Dir, "", "something outside of the output directory changed: %s", d)
		}
		for _, x := range []string{"/mine.txt", "/sub/mine.md.txt"} {
			if text, _ := os.ReadFile(s.path(output + x)); string(text) != "mine\n" {
				c.Fail(label, s.p.Dir, "", "file %s of the output directory, which isn't generated, was changed", x)
			}
		}
		// On top of the previous output, damaged:
		fresh, _ := run.Hash(s.path(output))
		_ = filepath.Walk(s.path(output), func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || strings.HasSuffix(path, ".txt") {
				return nil
			}
			text, _ := os.ReadFile(path)
			switch r.Intn(4) {
			case 0:
				text = []byte(strings.Repeat("garbage that isn't correct {\n", 5+len(text)/10))
			case 1:
				text = append(text, text...)
			case 2:
				text = text[:r.Intn(len(text)+1)]
			default:
				return os.Remove(path)
			}
			return os.WriteFile(path, text, 0644)
		})
		label = command + " on top of damaged output"
		if !s.worked(label, s.exec(s.args(command, "model", output))) {
			return
		}
		again, _ := run.Hash(s.path(output))
		c.Count("outputs compared", 1)
		if d := run.DiffHash(fresh, again); d != "" {
			c.Fail(label, s.p.Dir, "", "the result isn't the same as in an empty directory: %s", d)
		}
	}
	before := s.snapshot("")
	s.worked("check next to other files", s.exec(s.args("check", "model", "")))
	if d := run.DiffHash(before, s.snapshot("")); d != "" {
		c.Fail("check", s.p.Dir, "", "something changed: %s", d)
	}
}

// faults checks that output that can't be written is reported.
func (c *Ctx) faults(r *rand.Rand, i int) {
	s, err := c.site(small(r.Int63(), i), spec.Style{Rand: r})
	if err != nil {
		c.Problem("faults", "", err)
		return
	}
	defer s.p.Remove()
	// What should be written:
	for _, command := range generators {
		short := strings.Fields(command)[1]
		good := "good-" + short
		if !s.worked(command, s.exec(s.args(command, "model", good))) {
			return
		}
		var files []string
		_ = filepath.Walk(s.path(good), func(path string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() {
				rel, _ := filepath.Rel(s.path(good), path)
				files = append(files, rel)
			}
			if err == nil && (info.Mode().Perm()&0600 != 0600 || info.Mode()&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky) != 0) {
				c.Fail(command, s.p.Dir, "", "%s has mode %v, so it can't be used by its owner", path, info.Mode())
			}
			return nil
		})
		sort.Strings(files)
		if len(files) == 0 {
			c.Fail(command, s.p.Dir, "", "there is no output")
			return
		}
		// One of each kind of file, as each kind is written by different code. Different executions start at different kinds.
		kinds := map[string]string{}
		suffix := regexp.MustCompile(`(_list_type_json|_type_json|_list_builder|_builder|_type|_client|_resource_json|_resource)\.[a-z]+$`)
		kindOf := func(file string) string {
			base := filepath.Base(file)
			kind := suffix.FindString(base)
			if kind == "" || strings.HasPrefix(base, "metadata_") {
				kind = fmt.Sprintf("%d/%s", strings.Count(file, "/"), base)
			}
			return kind
		}
		for _, k := range r.Perm(len(files)) {
			kinds[kindOf(files[k])] = files[k]
		}
		var chosen []string
		for k := range kinds {
			chosen = append(chosen, k)
		}
		sort.Strings(chosen)
		n := c.Pick(9, 40)
		start := i * n % len(chosen)
		chosen = append(chosen[start:], chosen[:start]...)
		if len(chosen) > n {
			chosen = chosen[:n]
		}
		for k, kind := range chosen {
			chosen[k] = kinds[kind]
			c.Count("obstacles for "+kind, 1)
		}
		for k, file := range chosen {
			output := fmt.Sprintf("bad-%s-%d", short, k)
			target := s.path(filepath.Join(output, file))
			_ = os.MkdirAll(filepath.Dir(target), 0755)
			label := ""
			switch kind := kindOf(file); (k + i) % 3 {
			case 0:
				label = command + " with a directory in the place of " + kind
				_ = os.MkdirAll(filepath.Join(target, "x"), 0755)
			default:
				label = command + " with a full device for " + kind
				_ = os.Symlink("/dev/full", target)
			}
			before := s.snapshot(output)
			if !s.failed(label, s.exec(s.args(command, "model", output))) {
				return
			}
			if d := run.DiffHash(before, s.snapshot(output)); d != "" {
				c.Fail(label, s.p.Dir, "", "something outside of the output directory changed: %s", d)
				return
			}
			_ = os.RemoveAll(s.path(output))
		}
		_ = s.p.Put("afile", "text\n")
		for _, output := range []string{"afile", "afile/sub", "/dev/null/x", "/proc/nothing/x"} {
			before := s.snapshot("")
			if !s.failed(command+" to "+output, s.exec(s.args(command, "model", output))) {
				return
			}
			if d := run.DiffHash(before, s.snapshot("")); d != "" {
				c.Fail(command+" to "+output, s.p.Dir, "", "something changed: %s", d)
			}
		}
	}
	// The formatter is missing, or it fails:
	res := s.exec(s.args("generate go", "model", "g1"), "PATH="+s.path("bin"))
	if !s.failed("generate go without formatter", res) {
		return
	}
	scripts := map[string]string{"fails": "#!/bin/sh\nexit 1\n", "fails with other code": "#!/bin/sh\nexit 127\n", "is killed": "#!/bin/sh\nkill -9 $$\n", "isn't a program": "\x00\x01\x02",
		"complains and fails": "#!/bin/sh\necho something >&2\nexit 2\n"}
	for name, text := range scripts {
		_ = s.p.Put("bin/goimports", text)
		_ = os.Chmod(s.path("bin/goimports"), 0755)
		res := s.exec(s.args("generate go", "model", "g1"), "PATH="+s.path("bin")+":/usr/bin:/bin")
		if !s.failed("generate go when the formatter "+name, res) {
			return
		}
	}
	// The other generators don't need it:
	for _, command := range generators[1:] {
		if !s.worked(command+" without formatter", s.exec(s.args(command, "model", "g2"), "PATH="+s.path("beside"))) {
			return
		}
	}
}

// interrupted checks that after an execution that is killed the next one gives the complete output.
func (c *Ctx) interrupted(r *rand.Rand, i int) {
	m := gen.Random(r.Int63(), gen.Opts{Services: 2, Versions: 1, Types: 6, Attrs: 5, Resources: 4, Errors: 3, Docs: 0.3})
	m.Label = "interrupted"
	s, err := c.site(m, spec.Style{Rand: r})
	if err != nil {
		c.Problem("interrupted", "", err)
		return
	}
	defer s.p.Remove()
	for _, command := range generators {
		output := output(command)
		good := s.exec(s.args(command, "model", output))
		if !s.worked(command, good) {
			return
		}
		fresh := s.aside(command)
		before := s.snapshot(output)
		for k := 0; k < 4; k++ {
			limit := time.Duration(r.Int63n(int64(good.Wall) + 1))
			res := c.W.Exec(s.p.Dir, limit, s.env, c.W.Tool, s.args(command, "model", output)...)
			c.Count("executions", 1)
			if res.Timeout {
				c.Count("executions killed", 1)
			}
		}
		// Temporary files can't be removed by a process that is killed:
		_ = os.RemoveAll(s.path("tmp"))
		_ = s.p.Put("tmp/keep.txt", "keep\n")
		if d := run.DiffHash(before, s.snapshot(output)); d != "" {
			c.Fail(command+" killed", s.p.Dir, "", "something outside of the output directory changed: %s", d)
			return
		}
		label := command + " after being killed"
		if !s.worked(label, s.exec(s.args(command, "model", output))) {
			return
		}
		again, _ := run.Hash(s.path(output))
		c.Count("outputs compared", 1)
		if d := run.DiffHash(fresh, again); d != "" {
			c.Fail(label, s.p.Dir, "", "the result isn't the same as in an empty directory: %s", d)
			return
		}
	}
}

// severalModels checks that a model split in several directories is the same model.
func (c *Ctx) severalModels(r *rand.Rand, i int) {
	m := gen.Random(r.Int63(), gen.Opts{Services: 3, Versions: 1 + i%2, Types: 2, Attrs: 3, Resources: 2, Errors: 1, Docs: 0.2})
	m.Label = "several models"
	s, err := c.site(m, spec.Style{Rand: r})
	if err != nil {
		c.Problem(m.Label, "", err)
		return
	}
	defer s.p.Remove()
	dirs := []string{"part a", "part-b", "part/c"}
	for k, x := range m.Services {
		one := &spec.Model{Services: []*spec.Service{x}}
		dir := dirs[k%len(dirs)]
		if r.Intn(3) == 0 {
			dir = dirs[0]
		}
		if err := one.Write(s.path(dir), spec.Style{Rand: r}); err != nil {
			c.Problem(m.Label, "", run.Infra{Err: err})
			return
		}
	}
	var models []string
	for _, d := range dirs {
		if _, err := os.Stat(s.path(d)); err == nil {
			models = append(models, d)
		}
	}
	r.Shuffle(len(models), func(a, b int) { models[a], models[b] = models[b], models[a] })
	for _, command := range generators {
		if !s.worked(command, s.exec(s.args(command, "model", output(command)))) {
			return
		}
		one := s.aside(command)
		args := s.args(command, "model", output(command))
		var other []string
		for _, a := range args {
			if a != "--model=model" {
				other = append(other, a)
			} else if r.Intn(2) == 0 {
				other = append(other, "--model="+strings.Join(models, ","))
			} else {
				for _, x := range models {
					other = append(other, "--model", x)
				}
			}
		}
		label := command + " with several models"
		if !s.worked(label, s.exec(other)) {
			return
		}
		c.Count("outputs compared", 1)
		if d := run.DiffHash(one, s.aside(command)); d != "" {
			c.Fail(label, s.p.Dir, "", "the result isn't the same as with one model: %s", d)
			return
		}
	}
}

// longLines checks that very long lines aren't lost when the commands succeed.
func (c *Ctx) longLines(r *rand.Rand, i int) {
	for _, n := range []int{4090, 65530, 65536, 70000, 300000} {
		m := small(c.Seed, 0)
		m.Label = fmt.Sprintf("line with %d characters", n)
		text := "Start " + strings.Repeat("x", n) + " end of the line"
		v := m.Services[0].Versions[0]
		v.Types[0].Doc = text + "\nlast line"
		v.Resources[0].Doc = "first line\n" + text
		s, err := c.site(m, spec.Style{})
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		for _, command := range append([]string{"check"}, generators...) {
			label := command + " with a " + m.Label
			if !s.worked(label, s.exec(s.args(command, "model", "out"))) {
				s.p.Remove()
				return
			}
			found := 0
			_ = filepath.Walk(s.path("out"), func(path string, info os.FileInfo, err error) error {
				if err == nil && info.Mode().IsRegular() {
					data, _ := os.ReadFile(path)
					found += strings.Count(string(data), text)
				}
				return nil
			})
			want := map[string]int{"check": 0, "generate openapi": 1, "generate go": 2, "generate docs": 2}[command]
			if found < want {
				c.Fail(label, "", "", "the text appears %d times in the output instead of %d", found, want)
			}
			_ = os.RemoveAll(s.path("out"))
		}
		s.p.Remove()
	}
}

var changing = regexp.MustCompile(`^(?:\d+ +)?(openat|open|creat|mkdir|mkdirat|unlink|unlinkat|rmdir|rename|renameat|renameat2|link|linkat|symlink|symlinkat|truncate|chmod|fchmodat|fchmodat2|chown|fchownat|lchown|utimensat|utime|utimes|mknod|mknodat|setxattr|removexattr)\((.*)$`)
var quoted = regexp.MustCompile(`(?:\d+<([^>]*)>, )?"((?:[^"\\]|\\.)*)"`)

// systemCalls checks the system calls that change files.
func (c *Ctx) systemCalls(r *rand.Rand, i int) {
	s, err := c.site(small(r.Int63(), i), spec.Style{Rand: r})
	if err != nil {
		c.Problem("system calls", "", err)
		return
	}
	defer s.p.Remove()
	_ = s.p.Put("bin/goimports", "#!/bin/sh\nexit 0\n")
	_ = os.Chmod(s.path("bin/goimports"), 0755)
	for _, command := range append([]string{"check"}, generators...) {
		output := output(command)
		trace := filepath.Join(c.W.Dir, fmt.Sprintf("trace-%d-%s", i, output))
		args := append([]string{"-f", "-y", "-s", "4096", "-o", trace, "-e", "trace=file", c.W.Tool}, s.args(command, "model", output)...)
		res := c.W.Exec(s.p.Dir, run.Limit, append(append([]string{}, s.env...), "PATH="+s.path("bin")+":/usr/bin:/bin"), "strace", args...)
		data, err := os.ReadFile(trace)
		_ = os.Remove(trace)
		if err != nil || !strings.Contains(string(data), "execve") {
			c.Count("executions that can't be traced", 1)
			continue
		}
		label := "system calls of " + command
		if !s.worked(label, res) {
			return
		}
		c.Eval(1)
		for _, line := range strings.Split(string(data), "\n") {
			x := changing.FindStringSubmatch(line)
			if x == nil {
				continue
			}
			if strings.HasPrefix(x[1], "open") && !regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND`).MatchString(x[2]) {
				continue
			}
			c.Count("system calls that change files", 1)
			for _, q := range quoted.FindAllStringSubmatch(x[2], -1) {
				path := q[2]
				if !filepath.IsAbs(path) {
					path = filepath.Join(spec.Or(q[1], s.p.Dir), path)
				}
				path = filepath.Clean(path)
				if path == "/dev/null" || path == "/dev/tty" {
					continue
				}
				if strings.HasPrefix(path, s.path("tmp")+"/") {
					continue // Temporary files are fine if they are removed, see the snapshots.
				}
				if path != s.path(output) && !strings.HasPrefix(path, s.path(output)+"/") {
					c.Fail(label, s.p.Dir, line, "something outside of the output directory is changed: %s", line)
					return
				}
			}
		}
	}
}
