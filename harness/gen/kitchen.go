package gen

import (
	"fmt"
	"math/rand"
	"strings"

	"verif.local/harness/spec"
)

func attr(n spec.Name, t spec.Ref) *spec.Attr { return &spec.Attr{Name: n, Type: t} }

// Kitchen creates a model that contains systematically all the combinations of kinds of members.
func Kitchen() *spec.Model {
	m := &spec.Model{Label: "kitchen"}
	v := &spec.Version{Name: spec.DirName("v1")}
	enum := &spec.Type{Kind: spec.Enum, Name: spec.MakeName("cluster", "state"), Values: []*spec.Value{
		{Name: spec.MakeName("ready")}, {Name: spec.MakeName("not", "ready")},
		{Name: spec.MakeName("AWS"), Ann: spec.Ann{JSON: "aws-thing"}},
		{Name: spec.MakeName("other"), Ann: spec.Ann{Go: "Different"}},
	}}
	leaf := &spec.Type{Kind: spec.Struct, Name: spec.MakeName("leaf"), Attrs: []*spec.Attr{
		attr(spec.MakeName("text"), plain(builtin("String"))),
		attr(spec.MakeName("number"), plain(builtin("Integer"))),
		attr(spec.MakeName("others"), list(spec.MakeName("leaf"))),
		attr(spec.MakeName("table"), mp(spec.MakeName("leaf"))),
	}}
	thing := &spec.Type{Kind: spec.Class, Name: spec.MakeName("thing"), Attrs: []*spec.Attr{
		attr(spec.MakeName("text"), plain(builtin("String"))),
		attr(spec.MakeName("number"), plain(builtin("Integer"))),
		attr(spec.MakeName("leaf"), plain(spec.MakeName("leaf"))),
		{Name: spec.MakeName("parent"), Link: true, Type: plain(spec.MakeName("thing"))},
		{Name: spec.MakeName("children"), Link: true, Type: list(spec.MakeName("thing"))},
	}}
	empty := &spec.Type{Kind: spec.Struct, Name: spec.MakeName("void")}
	emptyClass := &spec.Type{Kind: spec.Class, Name: spec.MakeName("hollow")}
	v.Types = append(v.Types, enum, leaf, thing, empty, emptyClass)
	for _, kind := range []string{spec.Class, spec.Struct} {
		all := &spec.Type{Kind: kind, Name: spec.MakeName("all", kind)}
		for _, e := range []spec.Name{builtin("Boolean"), builtin("Integer"), builtin("Long"), builtin("Float"),
			builtin("String"), builtin("Date"), builtin("Interface"), enum.Name, leaf.Name, thing.Name} {
			w := []string{"plain"}
			for _, x := range e.Words {
				w = append(w, x)
			}
			mk := func(prefix string) spec.Name { return spec.MakeName(append([]string{prefix}, e.Words...)...) }
			all.Attrs = append(all.Attrs, attr(mk("plain"), plain(e)), attr(mk("some"), list(e)), attr(mk("table"), mp(e)))
		}
		all.Attrs = append(all.Attrs,
			attr(spec.MakeName("by", "number"), spec.Ref{Kind: spec.Map, Name: leaf.Name, Index: builtin("Integer")}),
			attr(spec.MakeName("by", "long"), spec.Ref{Kind: spec.Map, Name: builtin("String"), Index: builtin("Long")}),
			&spec.Attr{Name: spec.MakeName("link", "thing"), Link: true, Type: plain(thing.Name)},
			&spec.Attr{Name: spec.MakeName("link", "things"), Link: true, Type: list(thing.Name)},
			&spec.Attr{Name: spec.MakeName("renamed"), Type: plain(builtin("String")), Ann: spec.Ann{Go: "NewGoName", JSON: "new-json.name"}},
			&spec.Attr{Name: spec.MakeName("total", "CPUs"), Type: plain(builtin("Integer"))},
			&spec.Attr{Name: spec.MakeName("X509", "cert"), Type: plain(builtin("String"))},
		)
		v.Types = append(v.Types, all)
	}
	svc := &spec.Service{Name: spec.DirName("kitchen_sink"), Versions: []*spec.Version{v}}
	m.Services = append(m.Services, svc)

	str, num := builtin("String"), builtin("Integer")
	par := func(in, out bool, t spec.Ref, words ...string) *spec.Param {
		return &spec.Param{Name: spec.MakeName(words...), In: in, Out: out, Type: t}
	}
	query := func() []*spec.Param {
		return []*spec.Param{
			par(true, false, plain(builtin("Boolean")), "dry", "run"),
			par(true, false, plain(builtin("Integer")), "depth"),
			par(true, false, plain(builtin("Long")), "offset"),
			par(true, false, plain(builtin("Float")), "ratio"),
			par(true, false, plain(str), "search"),
			par(true, false, plain(builtin("Date")), "since"),
			par(true, false, plain(enum.Name), "state"),
			{Name: spec.MakeName("order", "by"), In: true, Type: plain(str), Ann: spec.Ann{HTTP: "orderBy"}},
			{Name: spec.MakeName("fetch"), In: true, Type: plain(str), Ann: spec.Ann{Go: "FetchFields", JSON: "fetchFields"}},
		}
	}
	method := func(words []string, ps ...*spec.Param) *spec.Method {
		return &spec.Method{Name: spec.MakeName(words...), Params: ps}
	}
	w := func(s ...string) []string { return s }
	res := func(words []string, ms []*spec.Method, ls ...*spec.Locator) *spec.Resource {
		r := &spec.Resource{Name: spec.MakeName(words...), Methods: ms, Locators: ls}
		v.Resources = append(v.Resources, r)
		return r
	}
	loc := func(target []string, variable bool, words ...string) *spec.Locator {
		return &spec.Locator{Name: spec.MakeName(words...), Target: spec.MakeName(target...), Variable: variable}
	}
	paging := func() []*spec.Param {
		return []*spec.Param{fixed("page", true, true, plain(num), 1), fixed("size", true, true, plain(num), 100),
			fixed("total", false, true, plain(num), nil)}
	}
	res(w("root"), []*spec.Method{
		method(w("ping"), par(true, false, plain(str), "text"), par(false, true, plain(str), "reply")),
	},
		loc(w("things"), false, "things"),
		loc(w("reviews"), false, "access", "reviews"),
		&spec.Locator{Name: spec.MakeName("others"), Target: spec.MakeName("posts"), Ann: spec.Ann{Go: "MyOthers", HTTP: "other-posts"}},
		loc(w("numbers"), false, "numbers"),
		loc(w("bare"), false, "bare"),
		loc(w("tree"), false, "tree"),
	)
	res(w("things"), []*spec.Method{
		method(w("list"), append(append(paging(), fixed("items", false, true, list(thing.Name), nil)), query()...)...),
		method(w("add"), append(query(), fixed("body", true, true, plain(thing.Name), nil))...),
	}, loc(w("thing"), true, "thing"))
	all := spec.MakeName("all", "class")
	res(w("thing"), []*spec.Method{
		method(w("get"), append(query(), fixed("body", false, true, plain(all), nil))...),
		method(w("update"), append(query(), fixed("body", true, true, plain(all), nil))...),
		method(w("delete"), query()...),
		method(w("do", "it"),
			par(true, false, plain(str), "in", "text"), par(true, true, plain(num), "both", "number"),
			par(true, false, plain(builtin("Date")), "when"), par(true, true, plain(enum.Name), "state"),
			par(false, true, plain(builtin("Float")), "out", "ratio"), par(true, true, list(str), "texts"),
			par(true, true, list(builtin("Date")), "dates"),
			par(true, true, plain(leaf.Name), "leaf"), par(true, true, list(leaf.Name), "leaves"),
			par(true, true, plain(thing.Name), "thing"), par(false, true, list(thing.Name), "found"),
			&spec.Param{Name: spec.MakeName("renamed"), In: true, Out: true, Type: plain(str), Ann: spec.Ann{Go: "GoRenamed", JSON: "jsonRenamed"}},
		),
		{Name: spec.MakeName("nothing"), Ann: spec.Ann{Go: "DoNothing", HTTP: "no-thing"}},
		method(w("only", "in"), par(true, false, plain(builtin("Boolean")), "flag")),
		method(w("only", "out"), par(false, true, plain(builtin("Boolean")), "flag")),
	},
		loc(w("leaves"), false, "leaves"),
	)
	res(w("leaves"), []*spec.Method{
		method(w("update"), fixed("body", true, true, list(leaf.Name), nil)),
	}, loc(w("leaf", "item"), true, "leaf"))
	res(w("leaf", "item"), []*spec.Method{
		method(w("get"), fixed("body", false, true, plain(leaf.Name), nil)),
		method(w("async", "update"), fixed("body", true, true, plain(leaf.Name), nil)),
		method(w("async", "delete")),
	})
	res(w("reviews"), []*spec.Method{
		method(w("post"), fixed("request", true, false, plain(leaf.Name), nil), fixed("response", false, true, plain(thing.Name), nil)),
	})
	res(w("posts"), []*spec.Method{
		method(w("post"), par(false, true, plain(leaf.Name), "result")),
	}, loc(w("searches"), false, "searches"))
	res(w("searches"), []*spec.Method{
		method(w("search"), append(append(paging(), fixed("items", false, true, list(thing.Name), nil)), fixed("body", true, false, plain(leaf.Name), nil))...),
	})
	res(w("numbers"), []*spec.Method{
		method(w("list"), append(paging(), fixed("items", false, true, list(num), nil))...),
	})
	res(w("bare"), []*spec.Method{
		method(w("list"), fixed("items", false, true, list(leaf.Name), nil)),
		method(w("search"), fixed("items", false, true, list(leaf.Name), nil), fixed("body", true, false, plain(leaf.Name), nil)),
	})
	// A deep path, and a resource that can be reached by several paths:
	res(w("tree"), nil, loc(w("branch"), true, "branch"), loc(w("branch"), false, "trunk"))
	res(w("branch"), []*spec.Method{
		method(w("get"), fixed("body", false, true, plain(spec.MakeName("hollow")), nil)),
	}, loc(w("twig"), true, "twig"), loc(w("twig"), false, "main", "twig"))
	res(w("twig"), []*spec.Method{
		method(w("get"), fixed("body", false, true, plain(spec.MakeName("void")), nil)),
		method(w("update"), fixed("body", true, true, plain(spec.MakeName("void")), nil)),
		method(w("grow"), par(true, true, plain(num), "size", "value")),
	})
	v.Errors = []*spec.Error{
		{Name: spec.MakeName("not", "found"), Code: 404, Doc: "Not found."},
		{Name: spec.MakeName("bad", "request"), Code: 400},
		{Name: spec.MakeName("DNS", "failure"), Code: 7},
	}

	// A second version and a second service, with the same names:
	v2 := &spec.Version{Name: spec.DirName("v1_alpha1")}
	v2.Types = []*spec.Type{
		{Kind: spec.Class, Name: spec.MakeName("thing"), Attrs: []*spec.Attr{
			attr(spec.MakeName("different"), plain(builtin("Boolean"))),
			attr(spec.MakeName("text"), list(builtin("String"))),
		}},
	}
	v2.Resources = []*spec.Resource{
		{Name: spec.MakeName("root"), Locators: []*spec.Locator{loc(w("thing"), false, "thing")}},
		{Name: spec.MakeName("thing"), Methods: []*spec.Method{method(w("get"), fixed("body", false, true, plain(spec.MakeName("thing")), nil))}},
	}
	v2.Errors = []*spec.Error{{Name: spec.MakeName("not", "found"), Code: 17}}
	svc.Versions = append(svc.Versions, v2)
	v3 := &spec.Version{Name: spec.DirName("v2")}
	v3.Types = []*spec.Type{
		{Kind: spec.Struct, Name: spec.MakeName("thing"), Attrs: []*spec.Attr{attr(spec.MakeName("other"), plain(builtin("Integer")))}},
	}
	v3.Resources = []*spec.Resource{
		{Name: spec.MakeName("root"), Locators: []*spec.Locator{loc(w("things"), false, "things")}},
		{Name: spec.MakeName("things"), Methods: []*spec.Method{method(w("list"), append(paging(), fixed("items", false, true, list(spec.MakeName("thing")), nil))...)}},
	}
	m.Services = append(m.Services, &spec.Service{Name: spec.DirName("other"), Versions: []*spec.Version{v3}})
	return m
}

// Texts is a model where the declarations that have documentation follow texts that take several lines, both in default
// values and in annotations.
func Texts(seed int64) *spec.Model {
	r := rand.New(rand.NewSource(seed))
	texts := []string{"first\nsecond", "\n", "a\n\nb", "x\n", "\n// not a comment", "one", "/* a\nb */"}
	docs := []string{"Short.", "First line.\nSecond line.", "", "One paragraph.\n\nAnother."}
	text := func() string { return texts[r.Intn(len(texts))] }
	doc := func() string { return docs[r.Intn(len(docs))] }
	note := func() spec.Ann {
		if r.Intn(2) == 0 {
			return spec.Ann{}
		}
		return spec.Ann{Other: []spec.OtherAnn{{Name: "note", Params: []spec.AnnParam{{Name: "name", Value: text()}}}}}
	}
	v := &spec.Version{Name: spec.DirName("v1")}
	st := &spec.Type{Kind: spec.Struct, Name: spec.MakeName("entry"), Doc: doc(), Ann: note()}
	for i := 0; i < 8; i++ {
		a := attr(spec.MakeName("attr", fmt.Sprintf("A%02d", i)), plain(builtin("String")))
		a.Doc, a.Ann = doc(), note()
		st.Attrs = append(st.Attrs, a)
	}
	v.Types = []*spec.Type{st}
	root := &spec.Resource{Name: spec.MakeName("root"), Doc: doc(), Ann: note()}
	for i := 0; i < 4; i++ {
		x := &spec.Method{Name: spec.MakeName("do", fmt.Sprintf("M%d", i)), Doc: doc(), Ann: note()}
		for j := 0; j < 6; j++ {
			x.Params = append(x.Params, &spec.Param{
				Name: spec.MakeName("param", fmt.Sprintf("P%d", j)), Doc: doc(), Ann: note(),
				In: true, Type: plain(builtin("String")), Default: text(),
			})
		}
		root.Methods = append(root.Methods, x)
	}
	v.Resources = []*spec.Resource{root}
	return &spec.Model{Label: "texts", Services: []*spec.Service{{Name: spec.DirName("texts"), Versions: []*spec.Version{v}}}}
}

// Wide creates a model with types that have the given numbers of attributes.
func Wide(seed int64, sizes ...int) *spec.Model {
	r := rand.New(rand.NewSource(seed))
	m := &spec.Model{Label: "wide"}
	v := &spec.Version{Name: spec.DirName("v1")}
	sub := &spec.Type{Kind: spec.Struct, Name: spec.MakeName("inner"), Attrs: []*spec.Attr{attr(spec.MakeName("text"), plain(builtin("String")))}}
	v.Types = append(v.Types, sub)
	for _, kind := range []string{spec.Struct, spec.Class} {
		for _, n := range sizes {
			if kind == spec.Class && n > 61 {
				continue
			}
			t := &spec.Type{Kind: kind, Name: spec.MakeName("wide", kind, fmt.Sprintf("N%d", n))}
			for i := 0; i < n; i++ {
				ref := plain(builtin(scalars[r.Intn(len(scalars))]))
				switch r.Intn(6) {
				case 0:
					ref = list(ref.Name)
				case 1:
					ref = mp(ref.Name)
				case 2:
					ref = plain(sub.Name)
				}
				t.Attrs = append(t.Attrs, attr(spec.MakeName("attr", fmt.Sprintf("A%02d", i)), ref))
			}
			v.Types = append(v.Types, t)
		}
	}
	v.Resources = []*spec.Resource{{Name: spec.MakeName("root")}}
	m.Services = []*spec.Service{{Name: spec.DirName("wide"), Versions: []*spec.Version{v}}}
	return m
}

// Deep creates a model that has many services and versions, long chains of locators, the same names in different branches, large
// enumerated types and long names.
func Deep() *spec.Model {
	m := &spec.Model{Label: "deep"}
	n := 0
	for i, s := range []string{"accounts", "accounts_mgmt", "b", "job_queue", "service_logs", "web_rca_of_the_new_platform"} {
		service := &spec.Service{Name: spec.DirName(s)}
		versions := []string{"v1"}
		if i == 1 {
			versions = []string{"v1", "v1_alpha1", "v2", "v3", "v10", "v11_beta2"}
		}
		for _, x := range versions {
			n++
			v := &spec.Version{Name: spec.DirName(x)}
			tag := fmt.Sprintf("N%d", n)
			depth := 1
			if n == 2 || n == 7 {
				depth = 8
			}
			enum := &spec.Type{Kind: spec.Enum, Name: spec.MakeName("phase", tag)}
			for j := 0; j < 4*n; j++ {
				enum.Values = append(enum.Values, &spec.Value{Name: spec.MakeName("phase", fmt.Sprintf("P%d", 37*j%101))})
			}
			class := &spec.Type{Kind: spec.Class, Name: spec.MakeName("very", "long", "name", "of", "the", "object", tag), Attrs: []*spec.Attr{
				attr(spec.MakeName("current", "phase"), plain(enum.Name)),
				attr(spec.MakeName("name", "of", "the", "most", "important", "AWS", "account", "ever"), plain(builtin("String"))),
				{Name: spec.MakeName("parent"), Link: true, Type: plain(spec.MakeName("very", "long", "name", "of", "the", "object", tag))},
			}}
			v.Types = append(v.Types, enum, class)
			get := func() *spec.Method {
				return &spec.Method{Name: spec.MakeName("get"), Params: []*spec.Param{fixed("body", false, true, plain(class.Name), nil)}}
			}
			// Two branches that use the same names:
			root := &spec.Resource{Name: spec.MakeName("root")}
			v.Resources = append(v.Resources, root)
			for _, side := range []string{"left", "right"} {
				parent := root
				for d := 0; d < depth; d++ {
					r := &spec.Resource{Name: spec.MakeName(side, "node", tag, "at", fmt.Sprintf("D%d", d)), Methods: []*spec.Method{get()}}
					if d == depth-1 || d%4 == 3 {
						r.Methods = append(r.Methods, &spec.Method{Name: spec.MakeName("restart"), Params: []*spec.Param{
							{Name: spec.MakeName("force"), In: true, Out: side == "left", Type: plain(builtin("Boolean"))}}})
					}
					l := &spec.Locator{Name: spec.MakeName("level", fmt.Sprintf("L%d", d)), Target: r.Name}
					if d == 0 {
						l.Name = spec.MakeName(side)
					} else {
						l.Variable = d%2 == 1
					}
					parent.Locators = append(parent.Locators, l)
					v.Resources = append(v.Resources, r)
					parent = r
				}
			}
			for j := 0; j < 3*n; j++ {
				v.Errors = append(v.Errors, &spec.Error{Name: spec.MakeName("failure", fmt.Sprintf("F%d", j)), Code: 1<<(uint(j)%31) + j/31})
			}
			service.Versions = append(service.Versions, v)
		}
		m.Services = append(m.Services, service)
	}
	return m
}

// Methods creates a model with all the predefined methods, in the root resource and in others, with additional parameters of all
// the directions and types that are valid, and with a large number of types.
func Methods() *spec.Model {
	m := &spec.Model{Label: "methods"}
	v := &spec.Version{Name: spec.DirName("v1")}
	enum := &spec.Type{Kind: spec.Enum, Name: spec.MakeName("speed"), Values: []*spec.Value{
		{Name: spec.MakeName("fast")}, {Name: spec.MakeName("slow"), Ann: spec.Ann{JSON: "very-slow"}}}}
	thing := &spec.Type{Kind: spec.Class, Name: spec.MakeName("item"), Attrs: []*spec.Attr{
		attr(spec.MakeName("text"), plain(builtin("String"))), attr(spec.MakeName("speed"), plain(enum.Name))}}
	leaf := &spec.Type{Kind: spec.Struct, Name: spec.MakeName("detail"), Attrs: []*spec.Attr{
		attr(spec.MakeName("text"), plain(builtin("String"))), attr(spec.MakeName("since"), plain(builtin("Date")))}}
	v.Types = append(v.Types, enum, thing, leaf)
	kinds := []spec.Name{builtin("Boolean"), builtin("Integer"), builtin("Long"), builtin("Float"), builtin("String"), builtin("Date"), enum.Name}
	n := 0
	// extra creates parameters of all the scalar types with the given directions (i, o and b for both).
	extra := func(directions string) []*spec.Param {
		var l []*spec.Param
		for _, d := range directions {
			for _, k := range kinds {
				n++
				p := &spec.Param{Name: spec.MakeName("extra", map[rune]string{'i': "in", 'o': "out", 'b': "both"}[d], fmt.Sprintf("P%d", n)), In: d != 'o', Out: d != 'i', Type: plain(k)}
				switch n % 5 {
				case 1:
					p.Ann = spec.Ann{HTTP: fmt.Sprintf("http-%d", n)}
				case 2:
					p.Ann = spec.Ann{JSON: fmt.Sprintf("json-%d", n)}
				case 3:
					p.Ann = spec.Ann{Go: fmt.Sprintf("GoName%d", n), HTTP: fmt.Sprintf("http-%d", n), JSON: fmt.Sprintf("json-%d", n)}
				}
				l = append(l, p)
			}
		}
		return l
	}
	paging := func() []*spec.Param {
		num := plain(builtin("Integer"))
		return []*spec.Param{fixed("page", true, true, num, 1), fixed("size", true, true, num, 100), fixed("total", false, true, num, nil)}
	}
	join := func(l ...[]*spec.Param) (r []*spec.Param) {
		for _, x := range l {
			r = append(r, x...)
		}
		return
	}
	one := func(name string, in, out bool, t spec.Ref) []*spec.Param {
		return []*spec.Param{fixed(name, in, out, t, nil)}
	}
	method := func(ps []*spec.Param, words ...string) *spec.Method {
		return &spec.Method{Name: spec.MakeName(words...), Params: ps}
	}
	// every creates parameters of all the types with the given directions.
	every := func(directions string) []*spec.Param {
		l := extra(directions)
		for _, d := range directions {
			for _, k := range append(kinds, builtin("Interface"), thing.Name, leaf.Name) {
				refs := []spec.Ref{list(k), mp(k)}
				if len(k.Words) == 1 && (k.ID == "Interface" || k.ID == thing.Name.ID || k.ID == leaf.Name.ID) {
					refs = append(refs, plain(k))
				}
				for _, ref := range refs {
					n++
					l = append(l, &spec.Param{Name: spec.MakeName("any", map[rune]string{'i': "in", 'o': "out", 'b': "both"}[d], fmt.Sprintf("P%d", n)),
						In: d != 'o', Out: d != 'i', Type: ref})
				}
			}
		}
		return l
	}
	item, detail := plain(thing.Name), plain(leaf.Name)
	sets := [][]*spec.Method{
		{
			method(join(one("items", false, true, list(thing.Name)), paging(), extra("iob")), "list"),
			method(join(one("body", true, true, item), extra("i")), "add"),
			method(join(one("body", true, true, item), extra("i")), "update"),
			method(extra("i"), "delete"),
		}, {
			method(join(one("body", false, true, item), extra("i")), "get"),
			method(join(one("items", false, true, list(leaf.Name)), one("body", true, false, detail), paging(), extra("iob")), "search"),
			method(join(one("body", true, true, list(thing.Name)), extra("i")), "async", "update"),
			method(extra("i"), "async", "delete"),
		}, {
			method(join(one("items", false, true, list(enum.Name)), extra("ob")), "list"),
			method(one("result", true, true, item), "post"),
		}, {
			method(join(one("items", false, true, list(builtin("Date"))), one("body", true, false, item), extra("bi")), "search"),
			method(join(one("body", true, true, detail), extra("i")), "update"),
		},
	}
	root := &spec.Resource{Name: spec.MakeName("root"), Methods: []*spec.Method{
		method(join(one("body", true, true, item), extra("i")), "add"),
		method(join(one("body", true, true, item), extra("i")), "update"),
		method(extra("i"), "delete"),
		method(every("iob"), "run"),
		method(nil, "stop"),
	}}
	for i, set := range sets {
		name := spec.MakeName("set", fmt.Sprintf("S%d", i))
		set = append(set, method(join(extra("iob"), one("input", true, false, detail), one("output", false, true, list(leaf.Name))), "run"))
		v.Resources = append(v.Resources, &spec.Resource{Name: name, Methods: set})
		root.Locators = append(root.Locators, &spec.Locator{Name: name, Target: name, Variable: i == 1})
	}
	v.Resources = append(v.Resources, root)
	// Many types:
	for i := 0; i < 150; i++ {
		v.Types = append(v.Types, &spec.Type{Kind: spec.Enum, Name: spec.MakeName("mode", fmt.Sprintf("E%d", i)), Values: []*spec.Value{
			{Name: spec.MakeName("mode", fmt.Sprintf("E%d", i), "on")}, {Name: spec.MakeName("mode", fmt.Sprintf("E%d", i), "off")}}})
	}
	for i := 0; i < 3; i++ {
		t := &spec.Type{Kind: []string{spec.Class, spec.Struct}[i%2], Name: spec.MakeName("many", fmt.Sprintf("T%d", i))}
		for j, k := range append(kinds, builtin("Interface"), thing.Name, leaf.Name, spec.MakeName("mode", fmt.Sprintf("E%d", 140+i))) {
			t.Attrs = append(t.Attrs, attr(spec.MakeName("one", fmt.Sprintf("A%d", j)), plain(k)), attr(spec.MakeName("all", fmt.Sprintf("A%d", j)), list(k)),
				attr(spec.MakeName("map", fmt.Sprintf("A%d", j)), mp(k)))
		}
		v.Types = append(v.Types, t)
	}
	second := &spec.Version{Name: spec.DirName("v2"), Types: []*spec.Type{{Kind: spec.Class, Name: thing.Name, Attrs: thing.Attrs[:1]}},
		Resources: []*spec.Resource{{Name: spec.MakeName("root"), Methods: []*spec.Method{
			method(join(one("request", true, false, item), one("response", false, true, item)), "post"),
			method(nil, "async", "delete"),
			method(join(one("input", true, false, item)), "go", "on"),
		}}}}
	m.Services = []*spec.Service{{Name: spec.DirName("methods"), Versions: []*spec.Version{v, second}}}
	return m
}

// Suite returns the models used for a tier.
func Suite(seed int64, n int) []*spec.Model {
	models := []*spec.Model{Kitchen(), Reserved(), Deep(), Methods()}
	for i := 0; i < n; i++ {
		o := Opts{Services: 1 + i%2, Versions: 1 + i%3, Types: 6, Attrs: 8, Resources: 5, Errors: 4, Docs: 0.4}
		switch i % 4 {
		case 1:
			o.Annotate, o.Odd = 0.3, true
		case 2:
			o.Names, o.HostDocs = "hostile", true
		case 3:
			o.Annotate, o.Names, o.Odd, o.HostDocs, o.Attrs = 0.5, "hostile", true, true, 30
		}
		models = append(models, Random(seed*1000+int64(i), o))
	}
	return models
}

// Words are all the Go reserved words, the predeclared identifiers, and identifiers that the generated code uses for its own
// variables.
var Words = strings.Fields(`break case chan const continue default defer else fallthrough for func go goto if import interface map
package range return select struct switch type var
any append bool byte cap clear close complex copy delete error false imag int
 iota len make max min new nil panic print println real recover rune string true uint uintptr
init main object iterator stream count field value values list item items i j k b c l o r ok err result source writer reader
request response query header path transport uri ctx context cause buffer bitmap keys key index first flag helpers errors json jsoniter
time fmt io http url sort strings bytes bufio metrics method body status snapshot text size page total self this receiver target`)

// Reserved creates a model where everything is named with those words.
func Reserved() *spec.Model {
	m := &spec.Model{Label: "reserved"}
	v := &spec.Version{Name: spec.DirName("v1")}
	refs := []spec.Ref{plain(builtin("String")), plain(builtin("Integer")), list(builtin("String")), mp(builtin("Integer")),
		plain(spec.MakeName("case")), list(spec.MakeName("case")), plain(builtin("Date")), mp(spec.MakeName("case"))}
	// Attributes:
	var current [2]*spec.Type
	n := 0
	for i, w := range Words {
		if reservedAttrs[w] {
			continue
		}
		if n%40 == 0 {
			for j, kind := range []string{spec.Class, spec.Struct} {
				current[j] = &spec.Type{Kind: kind, Name: spec.MakeName("big", kind, fmt.Sprintf("N%d", n/40))}
				v.Types = append(v.Types, current[j])
			}
		}
		n++
		for _, t := range current {
			t.Attrs = append(t.Attrs, attr(spec.MakeName(w), refs[i%len(refs)]))
		}
	}
	// Enumerated values:
	enum := &spec.Type{Kind: spec.Enum, Name: spec.MakeName("choice")}
	for _, w := range Words {
		enum.Values = append(enum.Values, &spec.Value{Name: spec.MakeName(w)})
	}
	v.Types = append(v.Types, enum)
	// Types and resources with the names of the Go reserved words:
	root := &spec.Resource{Name: spec.MakeName("root")}
	for i, w := range Words[:25] {
		if w == "map" || w == "interface" {
			continue
		}
		t := &spec.Type{Kind: []string{spec.Class, spec.Struct}[i%2], Name: spec.MakeName(w), Attrs: []*spec.Attr{
			attr(spec.MakeName(w), plain(builtin("String"))),
			attr(spec.MakeName("next"), list(spec.MakeName(w))),
		}}
		v.Types = append(v.Types, t)
		r := &spec.Resource{Name: spec.MakeName(w), Methods: []*spec.Method{
			{Name: spec.MakeName("get"), Params: []*spec.Param{fixed("body", false, true, plain(t.Name), nil)}},
			{Name: spec.MakeName("do", w), Params: []*spec.Param{{Name: spec.MakeName(w), In: true, Out: true, Type: list(t.Name)}}},
		}}
		v.Resources = append(v.Resources, r)
		root.Locators = append(root.Locators, &spec.Locator{Name: spec.MakeName(w), Target: r.Name})
	}
	// Parameters:
	params := &spec.Resource{Name: spec.MakeName("parameters")}
	del := &spec.Method{Name: spec.MakeName("delete")}
	scalars := []spec.Ref{plain(builtin("String")), plain(builtin("Integer")), plain(builtin("Boolean")), plain(builtin("Date"))}
	for i, w := range Words {
		if reservedParams[w] {
			continue
		}
		del.Params = append(del.Params, &spec.Param{Name: spec.MakeName(w), In: true, Type: scalars[i%len(scalars)]})
		if len(params.Methods) == 0 || len(params.Methods[len(params.Methods)-1].Params) == 30 {
			params.Methods = append(params.Methods, &spec.Method{Name: spec.MakeName("run", fmt.Sprintf("N%d", i))})
		}
		act := params.Methods[len(params.Methods)-1]
		ref := refs[i%len(refs)]
		if ref.Kind == spec.Map {
			ref = plain(enum.Name)
		}
		act.Params = append(act.Params, &spec.Param{Name: spec.MakeName(w), In: i%3 != 0, Out: i%3 != 1, Type: ref})
	}
	params.Methods = append(params.Methods, del)
	v.Resources = append(v.Resources, params, root)
	root.Locators = append(root.Locators, &spec.Locator{Name: spec.MakeName("parameters"), Target: params.Name})
	// Actions and locators:
	names := &spec.Resource{Name: spec.MakeName("names")}
	for i, w := range Words {
		switch {
		case w == "delete" || w == "interface":
		case i%2 == 0:
			names.Methods = append(names.Methods, &spec.Method{Name: spec.MakeName(w), Params: []*spec.Param{
				{Name: spec.MakeName("flag"), In: true, Out: true, Type: plain(builtin("Boolean"))}}})
		default:
			names.Locators = append(names.Locators, &spec.Locator{Name: spec.MakeName(w), Target: spec.MakeName("case")})
		}
	}
	v.Resources = append(v.Resources, names)
	root.Locators = append(root.Locators, &spec.Locator{Name: spec.MakeName("names"), Target: names.Name})
	// Errors:
	for i, w := range Words {
		v.Errors = append(v.Errors, &spec.Error{Name: spec.MakeName(w), Code: i})
	}
	m.Services = []*spec.Service{{Name: spec.DirName("words"), Versions: []*spec.Version{v}}}
	return m
}
