// Package gen creates models, deterministically from a seed.
package gen

import (
	"fmt"
	"math/rand"
	"strings"

	"verif.local/harness/spec"
)

// Opts are the options of the random models.
type Opts struct {
	Services  int     // Number of services.
	Versions  int     // Maximum number of versions per service.
	Types     int     // Approximate number of types per version.
	Attrs     int     // Maximum number of attributes per type.
	Annotate  float64 // Probability of annotating a concept.
	Docs      float64 // Probability of documenting a concept.
	Resources int     // Approximate number of resources per version.
	Errors    int     // Maximum number of error categories per version.
	Names     string  // Kind of names: "" for normal ones or "hostile" for the unusual ones.
	HostDocs  bool    // Use unusual documentation texts.
	Odd       bool    // Use unusual shapes: empty types, empty resources, scalar lists as items, etc.
}

// Words used to build names. None of them is used by the vocabulary of the generators.
var nouns = strings.Fields(`cluster flavour region machine network storage volume account quota label
cloud provider subnet addon upgrade policy schedule ingress router gateway tenant user group role
access review token secret certificate domain record zone console dashboard alert metric probe
health memory node pool taint replica instance image release channel window project plan billing
invoice credit support ticket event history audit feature toggle limit budget owner member team
product template inquiry hosted private public default desired actual current previous next`)

var initialisms = strings.Fields(`CPU DNS API AWS GCP URL IP TLS SSO OIDC S3 VPC X509 EC2 VM CPUs IPs VMs URLs`)

// Words that collide with reserved words or with identifiers used inside of the generated code.
var hostile = strings.Fields(`type range func interface map select go import package var const chan
defer return switch case default struct value values object iterator stream writer reader count
field err error ok query header path transport request response body items status index item key
buffer result bitmap link list uri ctx context string bool int byte len nil true false`)

type g struct {
	r    *rand.Rand
	o    Opts
	used map[string]bool // names of the current scope, in lower case
}

// reserved are the names that can't be used for types.
var reservedTypes = map[string]bool{"client": true, "metadata": true, "error": true, "root": true,
	"boolean": true, "integer": true, "long": true, "float": true, "string": true, "date": true, "interface": true}

var reservedAttrs = map[string]bool{"kind": true, "link": true, "id": true, "href": true, "copy": true,
	"build": true, "empty": true}

var reservedParams = map[string]bool{"path": true, "query": true, "header": true, "transport": true,
	"parameter": true, "send": true, "sendcontext": true, "impersonate": true, "interval": true,
	"predicate": true, "status": true, "error": true, "err": true, "body": true, "items": true, "page": true, "size": true,
	"total": true, "startcontext": true, "request": true, "response": true, "statuses": true, "predicates": true}

func (g *g) words() spec.Name {
	n := 1 + g.r.Intn(3)
	var ws []string
	last := false
	for i := 0; i < n; i++ {
		if !last && g.r.Intn(4) == 0 {
			ws = append(ws, initialisms[g.r.Intn(len(initialisms))])
			last = true
			continue
		}
		last = false
		if g.o.Names == "hostile" && g.r.Intn(2) == 0 {
			ws = append(ws, hostile[g.r.Intn(len(hostile))])
		} else {
			ws = append(ws, nouns[g.r.Intn(len(nouns))])
		}
	}
	return spec.MakeName(ws...)
}

// fresh returns a name that isn't used in the scope, nor reserved, and that can't collide with the
// names that the generators derive from others.
func (g *g) fresh(used map[string]bool, reserved map[string]bool) spec.Name {
	for {
		n := g.words()
		k := strings.ToLower(n.Camel())
		if used[k] || reserved[k] || strings.HasPrefix(k, "get") {
			continue
		}
		used[k] = true
		return n
	}
}

// typeName returns the name of a type or resource. These don't use the vocabulary of the hostile
// words that are also suffixes of the names of the generated types.
func (g *g) typeName(used map[string]bool) spec.Name {
	for {
		n := g.words()
		k := strings.ToLower(n.Camel())
		bad := used[k] || reservedTypes[k]
		for _, w := range n.Words {
			switch strings.ToLower(w) {
			case "list", "builder", "client", "request", "response", "map", "kind", "link", "nil", "poll":
				bad = true
			}
		}
		if bad {
			continue
		}
		used[k] = true
		return n
	}
}

func (g *g) p(x float64) bool { return g.r.Float64() < x }

var docWords = strings.Fields("the object that contains details of a `thing` *used* to _configure_ it, see https://example.com/x?a=1&b=2 (optional). 100% <b>bold</b> \"quoted\" and 'single' \\n backslash {{ braces }} %d %s $x |pipe| #hash naïve 日本語 ¿qué? 🙂 a/b end. dots... e.g. v1.2")

// docStarts are unusual starts of lines of documentation. Note that those that gofmt considers marks of
// lists, like stars, are replaced by it with dashes, so they can't be used, and that it
// removes build constraints.
var docStarts = []string{
	"/api/v1/", "//host/", "/// ", "/* ", "*/ ", "- ", "-- ", "= ", "# ", "## ", "@note ", "> ", "~", "`", "\"", "'", "Deprecated: ", "TODO(x): ",
	"key: ", "go:generate ", "nolint ", "& ", "&amp; ", "\\", "%", "{{ ", "}} ", "{", "} ", "class X ", ". ", ", ", "_", "é ", "0 ",
}

func (g *g) doc() string {
	if !g.p(g.o.Docs) {
		return ""
	}
	var lines []string
	for i := 0; i < 1+g.r.Intn(4); i++ {
		if i > 0 && g.r.Intn(5) == 0 {
			lines = append(lines, "")
			continue
		}
		var ws []string
		n := 1 + g.r.Intn(9)
		for j := 0; j < n; j++ {
			if g.o.HostDocs {
				ws = append(ws, docWords[g.r.Intn(len(docWords))])
			} else {
				w := nouns[g.r.Intn(len(nouns))]
				if g.r.Intn(6) == 0 {
					w += []string{".", ",", ";", ":", "?", "'s", " -", " (x)", "."}[g.r.Intn(9)]
				}
				ws = append(ws, w)
			}
		}
		t := strings.Join(ws, " ")
		if g.o.HostDocs && g.r.Intn(4) == 0 {
			t = docStarts[g.r.Intn(len(docStarts))] + t
		}
		if i > 0 && g.o.HostDocs && g.r.Intn(4) == 0 {
			t = strings.Repeat(" ", 1+g.r.Intn(4)) + t
		}
		lines = append(lines, t)
	}
	// The last line can't be blank, to keep the text comparable in all the artifacts.
	if lines[len(lines)-1] == "" {
		lines[len(lines)-1] = "end of the text"
	}
	return strings.Join(lines, "\n")
}

var serial int

// ann creates annotations; the names are unique because they contain the original name and a number.
func (g *g) ann(n spec.Name, goName, json, http bool) spec.Ann {
	a := spec.Ann{}
	if goName && g.p(g.o.Annotate) {
		serial++
		a.Go = fmt.Sprintf("%sGo%dName", n.Camel(), serial)
	}
	if json && g.p(g.o.Annotate) {
		serial++
		styles := []string{"%s-json%d", "%sJSON%d", "x_%s%d", "%s.v%d", "a$%s %d"}
		a.JSON = fmt.Sprintf(styles[g.r.Intn(len(styles))], n.Snake(), serial)
	}
	if http && g.p(g.o.Annotate) {
		serial++
		styles := []string{"%s-http%d", "%sHTTP%d", "x_%s%d", "%s.h%d"}
		a.HTTP = fmt.Sprintf(styles[g.r.Intn(len(styles))], n.Snake(), serial)
	}
	if g.p(g.o.Annotate / 2) {
		o := spec.OtherAnn{Name: []string{"deprecated", "note", "owner"}[g.r.Intn(3)]}
		for i := 0; i < g.r.Intn(3); i++ {
			values := []interface{}{"some text", true, false, 42, 0, "", `with "quotes"`, "name"}
			o.Params = append(o.Params, spec.AnnParam{Name: []string{"name", "since", "flag"}[i], Value: values[g.r.Intn(len(values))]})
		}
		a.Other = append(a.Other, o)
	}
	return a
}

var scalars = []string{"Boolean", "Integer", "Long", "Float", "String", "Date"}

func builtin(s string) spec.Name {
	return spec.MakeName(strings.ToLower(s))
}

func plain(n spec.Name) spec.Ref { return spec.Ref{Kind: spec.Plain, Name: n} }
func list(n spec.Name) spec.Ref  { return spec.Ref{Kind: spec.List, Name: n} }
func mp(n spec.Name) spec.Ref {
	return spec.Ref{Kind: spec.Map, Name: n, Index: builtin("String")}
}

// Random creates a random model.
func Random(seed int64, o Opts) *spec.Model {
	g := &g{r: rand.New(rand.NewSource(seed)), o: o}
	serial = 0
	m := &spec.Model{Label: fmt.Sprintf("random-%d", seed)}
	used := map[string]bool{}
	n := o.Services
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		var dir string
		for {
			dir = nouns[g.r.Intn(len(nouns))]
			if g.r.Intn(2) == 0 {
				dir += "_" + []string{"mgmt", "service", "api", "hub"}[g.r.Intn(4)]
			}
			if dir == "default" || dir == "public" || dir == "private" || used[dir] {
				continue
			}
			used[dir] = true
			break
		}
		s := &spec.Service{Name: spec.DirName(dir)}
		vs := []string{"v1", "v2", "v1_alpha1", "v2_beta3", "v10"}
		k := 1
		if o.Versions > 1 {
			k += g.r.Intn(o.Versions)
		}
		perm := g.r.Perm(len(vs))
		for j := 0; j < k && j < len(vs); j++ {
			x := vs[perm[j]]
			if j == 0 && i == 0 {
				x = "v1"
			} else if x == "v1" && i == 0 {
				x = "v3"
			}
			v := &spec.Version{Name: spec.DirName(x)}
			g.version(v)
			s.Versions = append(s.Versions, v)
		}
		m.Services = append(m.Services, s)
	}
	return m
}

func (g *g) version(v *spec.Version) {
	used := map[string]bool{}
	// Names of the types first, so that they can reference each other:
	n := 3 + g.r.Intn(g.o.Types+1)
	for i := 0; i < n; i++ {
		t := &spec.Type{}
		switch {
		case i == 0:
			t.Kind = spec.Class
		case i == 1:
			t.Kind = spec.Struct
		case i == 2:
			t.Kind = spec.Enum
		default:
			t.Kind = []string{spec.Class, spec.Class, spec.Struct, spec.Struct, spec.Enum}[g.r.Intn(5)]
		}
		t.Name = g.typeName(used)
		t.Doc = g.doc()
		t.Ann = g.ann(t.Name, true, false, false)
		v.Types = append(v.Types, t)
	}
	for _, t := range v.Types {
		if t.Kind == spec.Enum {
			vals := map[string]bool{}
			k := 1 + g.r.Intn(5)
			for i := 0; i < k; i++ {
				x := &spec.Value{Name: g.fresh(vals, nil), Doc: g.doc()}
				x.Ann = g.ann(x.Name, true, true, false)
				t.Values = append(t.Values, x)
			}
			continue
		}
		attrs := map[string]bool{}
		k := 1 + g.r.Intn(g.o.Attrs)
		if g.o.Odd && g.r.Intn(6) == 0 {
			k = 0
		}
		for i := 0; i < k; i++ {
			a := &spec.Attr{Name: g.fresh(attrs, reservedAttrs), Doc: g.doc()}
			a.Ann = g.ann(a.Name, true, true, false)
			a.Type, a.Link = g.attrType(v)
			t.Attrs = append(t.Attrs, a)
		}
	}
	g.resources(v)
	errs := map[string]bool{}
	codes := map[int]bool{}
	if g.o.Errors > 0 {
		k := g.r.Intn(g.o.Errors + 1)
		for i := 0; i < k; i++ {
			e := &spec.Error{Name: g.fresh(errs, reservedTypes), Doc: g.doc()}
			for {
				e.Code = g.r.Intn(1000)
				if !codes[e.Code] {
					codes[e.Code] = true
					break
				}
			}
			v.Errors = append(v.Errors, e)
		}
	}
}

func (g *g) objects(v *spec.Version) []*spec.Type {
	var r []*spec.Type
	for _, t := range v.Types {
		if t.Kind != spec.Enum {
			r = append(r, t)
		}
	}
	return r
}

func (g *g) classes(v *spec.Version) []*spec.Type {
	var r []*spec.Type
	for _, t := range v.Types {
		if t.Kind == spec.Class {
			r = append(r, t)
		}
	}
	return r
}

func (g *g) scalar(v *spec.Version, iface bool) spec.Name {
	if g.r.Intn(5) == 0 {
		var es []spec.Name
		for _, t := range v.Types {
			if t.Kind == spec.Enum {
				es = append(es, t.Name)
			}
		}
		if len(es) > 0 {
			return es[g.r.Intn(len(es))]
		}
	}
	if iface && g.r.Intn(10) == 0 {
		return builtin("Interface")
	}
	return builtin(scalars[g.r.Intn(len(scalars))])
}

func (g *g) object(v *spec.Version) spec.Name {
	os := g.objects(v)
	return os[g.r.Intn(len(os))].Name
}

func (g *g) attrType(v *spec.Version) (spec.Ref, bool) {
	cs := g.classes(v)
	switch g.r.Intn(12) {
	case 0, 1, 2, 3, 4:
		return plain(g.scalar(v, true)), false
	case 5:
		return list(g.scalar(v, true)), false
	case 6:
		return mp(g.scalar(v, true)), false
	case 7:
		return plain(g.object(v)), false
	case 8:
		return list(g.object(v)), false
	case 9:
		return mp(g.object(v)), false
	case 10:
		return plain(cs[g.r.Intn(len(cs))].Name), true
	default:
		return list(cs[g.r.Intn(len(cs))].Name), true
	}
}

func (g *g) resources(v *spec.Version) {
	used := map[string]bool{"root": true}
	for _, t := range v.Types {
		// Clients of resources with the name of a type don't collide with it, so they are allowed,
		// like in real models.
		_ = t
	}
	root := &spec.Resource{Name: spec.MakeName("root"), Doc: g.doc()}
	v.Resources = append(v.Resources, root)
	n := 1 + g.r.Intn(g.o.Resources+1)
	goNames := map[string]bool{}
	for i := 0; i < n; i++ {
		r := &spec.Resource{Doc: g.doc()}
		if g.r.Intn(3) == 0 {
			r.Name = v.Types[g.r.Intn(len(v.Types))].Name
			k := strings.ToLower(r.Name.Camel())
			if used[k] {
				r.Name = g.typeName(used)
			}
			used[k] = true
		} else {
			r.Name = g.typeName(used)
		}
		r.Ann = g.ann(r.Name, true, false, false)
		goNames[r.GoName()] = true
		v.Resources = append(v.Resources, r)
	}
	var segs []spec.Name // names of locators
	for i, r := range v.Resources {
		scope := map[string]bool{"get": true, "poll": true, "list": true, "add": true, "delete": true,
			"update": true, "post": true, "search": true, "asyncupdate": true, "asyncdelete": true}
		// Make sure that every resource is the target of at least one locator of a previous one:
		targets := []int{}
		if i+1 < len(v.Resources) {
			k := 1 + g.r.Intn(2)
			if i == 0 {
				k = 1 + g.r.Intn(3)
			}
			targets = append(targets, i+1)
			for j := 1; j < k; j++ {
				targets = append(targets, i+1+g.r.Intn(len(v.Resources)-i-1))
			}
		}
		variable := false
		for _, x := range targets {
			l := &spec.Locator{Doc: g.doc(), Target: v.Resources[x].Name}
			same := false
			if len(segs) > 0 && g.r.Intn(3) == 0 {
				// The same name as a locator of another resource:
				x := segs[g.r.Intn(len(segs))]
				if k := strings.ToLower(x.Camel()); !scope[k] {
					scope[k] = true
					l.Name = x
					same = true
				}
			}
			if l.Name.ID == "" {
				l.Name = g.fresh(scope, nil)
				segs = append(segs, l.Name)
			}
			l.Ann = g.ann(l.Name, true, false, true)
			if !same && !variable && (i > 0 || g.r.Intn(4) == 0) && g.r.Intn(2) == 0 {
				l.Variable = true
				variable = true
			}
			r.Locators = append(r.Locators, l)
		}
		g.methods(v, r, scope)
	}
	if g.o.Odd && g.r.Intn(2) == 0 {
		// A resource that can't be reached from the root:
		r := &spec.Resource{Name: g.typeName(used), Doc: g.doc()}
		scope := map[string]bool{"get": true, "poll": true, "list": true, "add": true, "delete": true,
			"update": true, "post": true, "search": true, "asyncupdate": true, "asyncdelete": true}
		l := &spec.Locator{Name: g.fresh(scope, nil), Doc: g.doc(), Target: v.Resources[g.r.Intn(len(v.Resources)-1)+1].Name}
		l.Variable = g.r.Intn(2) == 0
		r.Locators = append(r.Locators, l)
		g.methods(v, r, scope)
		v.Resources = append(v.Resources, r)
	}
	// Limit the number of paths:
	for len(v.Paths()) > 60 {
		for _, r := range v.Resources {
			if len(r.Locators) > 1 {
				r.Locators = r.Locators[:1]
			}
		}
	}
}

func (g *g) qparams(v *spec.Version, m *spec.Method, used map[string]bool, max int) {
	if g.o.Odd && g.r.Intn(3) == 0 {
		max += 6
	}
	for i := 0; i < g.r.Intn(max+1); i++ {
		x := &spec.Param{In: true, Type: plain(g.scalar(v, false))}
		g.fill(x, used)
		if g.r.Intn(4) == 0 {
			switch x.Type.Name.ID {
			case "Boolean":
				x.Default = g.r.Intn(2) == 0
			case "Integer":
				x.Default = g.r.Intn(1000)
			case "String":
				x.Default = []string{"", "abc", `say "hi"`, "a b", "first\nsecond", "tab\there", `c:\\dir\\n`, "señor €\U0001F600", "// no comment", "{{ .X }} %d"}[g.r.Intn(10)]
			}
		}
		m.Params = append(m.Params, x)
	}
}

// both makes some of the additional parameters also output parameters.
func (g *g) both(m *spec.Method) {
	for _, p := range m.Params {
		if p.In && !p.Out && p.Type.Kind == spec.Plain && len(m.Params)%2 == 0 && p.Name.ID != "Body" && g.r.Intn(2) == 0 {
			p.Out = true
		}
	}
}

func (g *g) fill(x *spec.Param, used map[string]bool) {
	x.Name = g.fresh(used, reservedParams)
	x.Doc = g.doc()
	x.Ann = g.ann(x.Name, true, true, true)
}

func fixed(name string, in, out bool, t spec.Ref, dflt interface{}) *spec.Param {
	return &spec.Param{Name: spec.MakeName(name), In: in, Out: out, Type: t, Default: dflt}
}

func (g *g) paging(v *spec.Version, m *spec.Method) {
	if g.o.Odd && g.r.Intn(5) == 0 {
		return
	}
	dp, ds := interface{}(1), interface{}(100)
	ps := []*spec.Param{
		fixed("page", true, true, plain(builtin("Integer")), dp),
		fixed("size", true, true, plain(builtin("Integer")), ds),
		fixed("total", false, true, plain(builtin("Integer")), nil),
	}
	for _, p := range ps {
		if !g.o.Odd || g.r.Intn(4) > 0 {
			p.Doc = g.doc()
			m.Params = append(m.Params, p)
		}
	}
}

func (g *g) methods(v *spec.Version, r *spec.Resource, scope map[string]bool) {
	add := func(name string, f func(m *spec.Method, used map[string]bool)) {
		m := &spec.Method{Doc: g.doc()}
		switch name {
		case "AsyncUpdate":
			m.Name = spec.MakeName("async", "update")
		case "AsyncDelete":
			m.Name = spec.MakeName("async", "delete")
		default:
			m.Name = spec.MakeName(strings.ToLower(name))
		}
		if g.p(g.o.Annotate / 3) {
			serial++
			m.Ann.Go = fmt.Sprintf("%sGo%dName", m.Name.Camel(), serial)
		}
		f(m, map[string]bool{})
		r.Methods = append(r.Methods, m)
	}
	obj := func() spec.Ref { return plain(g.object(v)) }
	if !r.IsRoot() {
		switch g.r.Intn(3) {
		case 0:
			add("Get", func(m *spec.Method, used map[string]bool) {
				p := fixed("body", false, true, obj(), nil)
				p.Doc = g.doc()
				m.Params = append(m.Params, p)
				g.qparams(v, m, used, 4)
			})
		case 1:
			add("List", func(m *spec.Method, used map[string]bool) {
				it := list(g.object(v))
				if g.o.Odd && g.r.Intn(3) == 0 {
					it = list(g.scalar(v, false))
				}
				m.Params = append(m.Params, fixed("items", false, true, it, nil))
				g.paging(v, m)
				g.qparams(v, m, used, 4)
				g.both(m)
			})
		}
		switch g.r.Intn(4) {
		case 0:
			add("Add", func(m *spec.Method, used map[string]bool) {
				m.Params = append(m.Params, fixed("body", true, true, obj(), nil))
				g.qparams(v, m, used, 3)
			})
		case 1:
			add("Post", func(m *spec.Method, used map[string]bool) {
				if g.r.Intn(3) == 0 {
					m.Params = append(m.Params, fixed("request", true, false, obj(), nil))
					m.Params = append(m.Params, fixed("response", false, true, obj(), nil))
				} else {
					p := &spec.Param{In: true, Out: true, Type: obj()}
					if g.r.Intn(2) == 0 {
						p.In = false
					}
					g.fill(p, used)
					m.Params = append(m.Params, p)
				}
			})
		case 2:
			add("Search", func(m *spec.Method, used map[string]bool) {
				m.Params = append(m.Params, fixed("items", false, true, list(g.object(v)), nil))
				m.Params = append(m.Params, fixed("body", true, false, obj(), nil))
				g.paging(v, m)
				g.qparams(v, m, used, 3)
				g.both(m)
			})
		}
		switch g.r.Intn(3) {
		case 0:
			add([]string{"Update", "AsyncUpdate"}[g.r.Intn(2)], func(m *spec.Method, used map[string]bool) {
				t := obj()
				if g.o.Odd && g.r.Intn(3) == 0 {
					t = list(g.object(v))
				}
				m.Params = append(m.Params, fixed("body", true, true, t, nil))
				g.qparams(v, m, used, 3)
			})
		case 1:
			add([]string{"Delete", "AsyncDelete"}[g.r.Intn(2)], func(m *spec.Method, used map[string]bool) {
				g.qparams(v, m, used, 4)
			})
		}
	}
	// Actions:
	for i := 0; i < g.r.Intn(3); i++ {
		m := &spec.Method{Name: g.fresh(scope, nil), Doc: g.doc()}
		m.Ann = g.ann(m.Name, true, false, true)
		used := map[string]bool{}
		for j := 0; j < g.r.Intn(5); j++ {
			x := &spec.Param{}
			switch g.r.Intn(3) {
			case 0:
				x.In = true
			case 1:
				x.Out = true
			default:
				x.In, x.Out = true, true
			}
			switch g.r.Intn(8) {
			case 0, 1:
				x.Type = plain(g.scalar(v, true))
			case 2:
				x.Type = list(g.scalar(v, true))
			case 3:
				x.Type = obj()
			case 4:
				x.Type = mp(g.scalar(v, true))
			case 5:
				x.Type = mp(g.object(v))
			default:
				x.Type = list(g.object(v))
			}
			g.fill(x, used)
			m.Params = append(m.Params, x)
		}
		r.Methods = append(r.Methods, m)
	}
}
