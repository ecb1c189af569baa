package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C18"] = Check{
		Rule: "Models are random ones where most of the concepts have documentation, half of them with unusual texts (several lines, blank lines, " +
			"indentation, punctuation that is special for Markdown, JSON, Go or templates). A case is the text of one concept in one artifact: " +
			"the page of the documentation, the comment of the Go declaration or the OpenAPI description. Distinct ones are those with a " +
			"different model, artifact and concept.",
		Run: checkDocs,
	}
}

// words reduces a text to its words, as tools that format comments are free to change the rest.
func words(text string) string {
	return strings.Join(strings.Fields(text), " ")
}

// quotes undoes what the tools that format comments do with quotes.
var quotes = strings.NewReplacer("\u201c", "``", "\u201d", "''")

// lines returns the lines that aren't blank, without leading and trailing white space.
func textLines(text string) []string {
	var l []string
	for _, x := range strings.Split(text, "\n") {
		if x = strings.TrimSpace(x); x != "" {
			l = append(l, x)
		}
	}
	return l
}

// summary is the first sentence of a text.
func summary(doc string) string {
	if i := strings.Index(doc, "."); i != -1 {
		doc = doc[:i+1]
	}
	return strings.Join(strings.Fields(doc), " ")
}

func tick(text string) string { return "`" + text + "`" }

// page contains the content that a page should have: sections with a title, and rows of tables.
type page struct {
	file  string
	what  string
	parts []part
}

type part struct {
	key   string   // Identifies the section.
	title []string // Words of the heading that start the section.
	doc   string
	rows  [][2]string // Names and summaries of the rows of the table of the section.
}

// paramTag is the name of a parameter on the wire.
func paramTag(v *spec.Version, m *spec.Method, p *spec.Param) string {
	for _, x := range v.QueryParams(m) {
		if x == p {
			return p.QueryName()
		}
	}
	return p.BodyName()
}

// pages calculates the pages that correspond to a version.
func pages(v *spec.Version) []page {
	var l []page
	for _, t := range v.Types {
		p := page{file: t.Name.Snake() + "_type.md", what: "type " + t.Name.ID}
		main := part{key: "type", title: []string{t.Name.Camel()}, doc: t.Doc}
		var rest []part
		for _, x := range t.Values {
			main.rows = append(main.rows, [2]string{tick(x.WireName()), summary(x.Doc)})
			rest = append(rest, part{key: "value " + x.Name.ID, title: []string{tick(x.WireName())}, doc: x.Doc})
		}
		for _, a := range t.Attrs {
			main.rows = append(main.rows, [2]string{tick(a.WireName()), summary(a.Doc)})
			rest = append(rest, part{key: "attribute " + a.Name.ID, title: []string{tick(a.WireName())}, doc: a.Doc})
		}
		if t.Kind == spec.Class && len(t.Attrs) > 0 {
			for _, x := range []string{"kind", "id", "href"} {
				main.rows = append(main.rows, [2]string{tick(x), "*"})
			}
		}
		p.parts = append([]part{main}, rest...)
		l = append(l, p)
	}
	for _, r := range v.Resources {
		p := page{file: r.Name.Snake() + "_resource.md", what: "resource " + r.Name.ID}
		main := part{key: "resource", title: []string{r.Name.Camel()}, doc: r.Doc}
		var rest []part
		for _, m := range r.Methods {
			main.rows = append(main.rows, [2]string{m.Name.Camel(), summary(m.Doc)})
			x := part{key: "method " + m.Name.ID, title: []string{m.Name.Camel(), m.Verb()}, doc: m.Doc}
			var params []part
			for _, q := range m.Params {
				x.rows = append(x.rows, [2]string{tick(paramTag(v, m, q)), summary(q.Doc)})
				params = append(params, part{key: "parameter " + m.Name.ID + "." + q.Name.ID, title: []string{q.Name.Camel()}, doc: q.Doc})
			}
			rest = append(append(rest, x), params...)
		}
		p.parts = append([]part{main}, rest...)
		l = append(l, p)
	}
	return l
}

// section is a part of an actual page.
type section struct {
	level int
	title string
	text  []string
	rows  [][]string
}

// readPage splits the actual page into sections. The texts can contain things that look like headings,
// so the expected titles are used to recognise them.
func readPage(text string, titles map[string]bool) []section {
	var l []section
	for _, x := range textLines(text) {
		if strings.HasPrefix(x, "#") {
			level := len(x) - len(strings.TrimLeft(x, "#"))
			title := strings.TrimSpace(x[level:])
			if titles[title] {
				l = append(l, section{level: level, title: title})
				continue
			}
		}
		if len(l) == 0 {
			l = append(l, section{})
		}
		s := &l[len(l)-1]
		if strings.HasPrefix(x, "| ") && strings.HasSuffix(x, " |") && !strings.HasPrefix(x, "| ---") {
			cells := strings.Split(strings.TrimSuffix(strings.TrimPrefix(x, "| "), " |"), " | ")
			s.rows = append(s.rows, cells)
			continue
		}
		if strings.HasPrefix(x, "| ---") {
			continue
		}
		s.text = append(s.text, x)
	}
	return l
}

// comparePage compares an actual page with the expected one.
func comparePage(p page, text string) string {
	titles := map[string]bool{}
	for _, x := range p.parts {
		titles[strings.Join(x.title, " - ")] = true
	}
	actual := readPage(text, titles)
	if len(actual) != len(p.parts) {
		var l []string
		for _, s := range actual {
			l = append(l, s.title)
		}
		return fmt.Sprintf("there are %d sections instead of %d: %q", len(actual), len(p.parts), l)
	}
	// The order of the sections isn't important, but parameters have to be after their method.
	used := map[int]bool{}
	method := ""
	for i, s := range actual {
		found := false
		for j, x := range p.parts {
			if used[j] || strings.Join(x.title, " - ") != s.title {
				continue
			}
			if strings.HasPrefix(x.key, "parameter ") && !strings.HasPrefix(x.key, "parameter "+method+".") {
				continue
			}
			if strings.HasPrefix(x.key, "method ") {
				method = strings.TrimPrefix(x.key, "method ")
			}
			if i == 0 && j != 0 {
				continue
			}
			found = true
			used[j] = true
			want := textLines(x.doc)
			if strings.Join(s.text, "\n") != strings.Join(want, "\n") {
				return fmt.Sprintf("the text of %s is %q instead of %q", x.key, s.text, want)
			}
			for _, r := range x.rows {
				n := 0
				for _, cells := range s.rows {
					if cells[0] != r[0] {
						continue
					}
					n++
					if r[1] != "*" && strings.Join(strings.Fields(cells[len(cells)-1]), " ") != r[1] {
						return fmt.Sprintf("the summary of %s in %s is %q instead of %q", r[0], x.key, cells, r[1])
					}
				}
				if n != 1 {
					return fmt.Sprintf("there are %d rows for %s in %s: %q", n, r[0], x.key, s.rows)
				}
			}
			want0 := len(x.rows)
			if want0 > 0 {
				want0++ // The heading of the table.
			}
			if len(s.rows) != want0 {
				return fmt.Sprintf("%s has %d rows instead of %d: %q", x.key, len(s.rows), want0, s.rows)
			}
			break
		}
		if !found {
			return fmt.Sprintf("section %q isn't expected there", s.title)
		}
	}
	return ""
}

// inspectPages checks the pages of the documentation.
func (c *Ctx) inspectPages(p *run.Project, dir string) []string {
	m := p.Model
	var problems []string
	options := map[string][]page{}
	m.Each(func(s *spec.Service, v *spec.Version) {
		for _, x := range pages(v) {
			x.what = s.Name.ID + "/" + v.Name.ID + " " + x.what
			options[x.file] = append(options[x.file], x)
		}
	})
	for file, l := range options {
		data, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			problems = append(problems, fmt.Sprintf("page %s doesn't exist", file))
			continue
		}
		// When several versions have the same name there is only one page, see the known findings.
		var differences []string
		for _, x := range l {
			d := comparePage(x, string(data))
			if d == "" {
				differences = nil
				break
			}
			differences = append(differences, fmt.Sprintf("page %s of %s: %s", file, x.what, d))
		}
		if len(differences) > 0 {
			problems = append(problems, differences[0])
		}
		c.Count("pages", 1)
		for _, x := range l[0].parts {
			c.Eval(1)
			c.Seen(m.Label + " " + file + " " + x.key)
			c.Count("sections of pages", 1)
		}
	}
	// The index has links to all the pages, and only to them:
	data, err := os.ReadFile(filepath.Join(dir, "index.md"))
	if err != nil {
		return append(problems, "the index doesn't exist")
	}
	links := map[string]int{}
	for _, x := range textLines(string(data)) {
		i, j := strings.Index(x, "]("), strings.LastIndex(x, ")")
		if strings.HasPrefix(x, "[") && i > 0 && j > i {
			file := x[i+2 : j]
			links[file]++
			l := options[file]
			if len(l) == 0 {
				problems = append(problems, fmt.Sprintf("the index has a link to %s, which doesn't exist", file))
			} else if x[1:i] != l[0].parts[0].title[0] {
				problems = append(problems, fmt.Sprintf("the link to %s in the index is %q", file, x[1:i]))
			}
		}
	}
	for file, l := range options {
		if links[file] != len(l) {
			problems = append(problems, fmt.Sprintf("there are %d links to %s in the index instead of %d", links[file], file, len(l)))
		}
	}
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		if e.Name() != "index.md" && options[e.Name()] == nil {
			problems = append(problems, "unexpected file "+e.Name())
		}
	}
	sort.Strings(problems)
	return problems
}

// comments contains the comments of the declarations of a package: types, constants, and functions and
// methods preceded by the name of the receiver.
type comments struct {
	docs    map[string]string
	results map[string]string // Name of the type of the first result of functions.
}

func readComments(dir string) (*comments, error) {
	c := &comments{docs: map[string]string{}, results: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	name := func(x ast.Expr) string {
		if s, ok := x.(*ast.StarExpr); ok {
			x = s.X
		}
		if i, ok := x.(*ast.Ident); ok {
			return i.Name
		}
		return ""
	}
	for _, file := range files {
		tree, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range tree.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				key := x.Name.Name
				if x.Recv != nil && len(x.Recv.List) == 1 {
					key = name(x.Recv.List[0].Type) + "." + key
				}
				c.docs[key] = raw(x.Doc)
				if x.Type.Results != nil && len(x.Type.Results.List) > 0 {
					c.results[key] = name(x.Type.Results.List[0].Type)
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						c.docs[y.Name.Name] = raw(x.Doc) + raw(y.Doc)
					case *ast.ValueSpec:
						doc := raw(y.Doc)
						if !x.Lparen.IsValid() {
							doc += raw(x.Doc)
						}
						for _, n := range y.Names {
							c.docs[n.Name] = doc
						}
					}
				}
			}
		}
	}
	return c, nil
}

// raw returns the text of a comment, including what looks like directives.
func raw(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var b strings.Builder
	for _, x := range g.List {
		b.WriteString(strings.TrimPrefix(x.Text, "//") + "\n")
	}
	return b.String()
}

// inspectComments checks the comments of the Go code.
func (c *Ctx) inspectComments(p *run.Project) []string {
	m := p.Model
	var problems []string
	m.Each(func(s *spec.Service, v *spec.Version) {
		where := s.Name.ID + "/" + v.Name.ID
		all, err := readComments(filepath.Join(p.Dir, "gen", s.Name.GoPackage(), v.Name.GoPackage()))
		if err != nil {
			problems = append(problems, err.Error())
			return
		}
		// The comment has to end with the documentation:
		check := func(key, doc string) {
			c.Eval(1)
			c.Count("Go comments", 1)
			c.Seen(m.Label + " " + where + " " + key)
			actual, ok := all.docs[key]
			if !ok {
				problems = append(problems, fmt.Sprintf("%s: there is no declaration of %s", where, key))
				return
			}
			var want, got []string
			for _, l := range textLines(doc) {
				if x := words(quotes.Replace(l)); x != "" {
					want = append(want, x)
				}
			}
			for _, l := range textLines(actual) {
				if x := words(quotes.Replace(l)); x != "" {
					got = append(got, x)
				}
			}
			if n := len(got) - len(want); n < 0 || strings.Join(got[n:], "\n") != strings.Join(want, "\n") {
				problems = append(problems, fmt.Sprintf("%s: the comment of %s is %q but the documentation is %q", where, key, actual, doc))
			}
		}
		for _, t := range v.Types {
			check(t.GoName(), t.Doc)
			for _, x := range t.Values {
				check(t.GoName()+x.GoName(), x.Doc)
			}
			if t.Kind == spec.Enum {
				continue
			}
			check(t.GoName()+"Builder", t.Doc)
			for _, a := range t.Attrs {
				check(t.GoName()+"."+a.GoName(), a.Doc)
				check(t.GoName()+".Get"+a.GoName(), a.Doc)
			}
		}
		for _, e := range v.Errors {
			check(e.GoName(), e.Doc)
		}
		for _, r := range v.Resources {
			client := r.GoName() + "Client"
			if r.IsRoot() {
				client = "Client"
			}
			check(client, r.Doc)
			for _, l := range r.Locators {
				check(client+"."+l.GoName(), l.Doc)
			}
			for _, x := range r.Methods {
				check(client+"."+x.GoName(), x.Doc)
				request := all.results[client+"."+x.GoName()]
				response := all.results[request+".Send"]
				poll := ""
				if x.Name.ID == "Get" {
					poll = all.results[client+".Poll"]
				}
				for _, q := range x.Params {
					if q.In {
						check(request+"."+q.GoName(), q.Doc)
						if poll != "" {
							check(poll+"."+q.GoName(), q.Doc)
						}
					}
					if q.Out {
						check(response+"."+q.GoName(), q.Doc)
						check(response+".Get"+q.GoName(), q.Doc)
						if poll != "" {
							check(all.results[poll+".StartContext"]+"."+q.GoName(), q.Doc)
						}
					}
				}
			}
		}
	})
	return problems
}

func checkDocs(c *Ctx) {
	models := []*spec.Model{gen.Kitchen(), gen.Deep(), gen.Methods()}
	for i := 0; i < c.Pick(14, 140); i++ {
		o := gen.Opts{Services: 1 + i%2, Versions: 1 + i/2%2, Types: 6, Attrs: 6, Resources: 5, Errors: 3, Docs: []float64{1, 0.9, 0.5}[i%3],
			HostDocs: i%2 == 1, Odd: i%4 > 1, Annotate: []float64{0, 0.3}[i/2%2]}
		if i%5 == 4 {
			o.Names = "hostile"
		}
		m := gen.Random(c.Seed*1000+300+int64(i), o)
		m.Label = "documented-" + m.Label
		models = append(models, m)
	}
	c.models(models, c.style, func(i int, p *run.Project) {
		report := func(l []string) {
			for _, x := range l {
				c.Fail(p.Model.Label, p.Dir, "", "%s", x)
			}
		}
		res := p.Docs()
		if res.Code != 0 || res.Crashed() {
			c.Fail(p.Model.Label, p.Dir, res.Out, "generation of the documentation of a valid model fails with code %d", res.Code)
			return
		}
		report(c.inspectPages(p, filepath.Join(p.Dir, "docs")))
		if !c.generate(p) {
			return
		}
		report(c.inspectComments(p))
		res = p.OpenAPI()
		if res.Code != 0 || res.Crashed() {
			c.Fail(p.Model.Label, p.Dir, res.Out, "generation of OpenAPI from a valid model fails with code %d", res.Code)
			return
		}
		report(c.inspectOpenAPI(p, filepath.Join(p.Dir, "openapi")))
		c.Sample(p.Model.Label)
	})
}
