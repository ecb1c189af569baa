package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C04"] = Check{
		Rule: "A case is a valid random model where exactly one rule has been broken at a random position (undefined or duplicated concepts, missing " +
			"root, locator loops, and every variant of wrong number, kind, direction, name or default value of the parameters of the predefined methods), " +
			"or the same kind of edit in a way that breaks no rule. The verdict and the reports of the commands are compared with the expected ones. " +
			"Distinct ones are the pairs of rule, and kind of method or concept affected.",
		Run: checkRules,
	}
}

// edit is a change of a model; it returns the names of the culprits, or nothing if it can't be done.
type edit struct {
	name    string
	invalid bool
	apply   func(r *rand.Rand, m *spec.Model) []string
}

func pickVersion(r *rand.Rand, m *spec.Model) *spec.Version {
	s := m.Services[r.Intn(len(m.Services))]
	return s.Versions[r.Intn(len(s.Versions))]
}

func pickResource(r *rand.Rand, v *spec.Version) *spec.Resource {
	return v.Resources[r.Intn(len(v.Resources))]
}

func pickType(r *rand.Rand, v *spec.Version, kinds ...string) *spec.Type {
	var l []*spec.Type
	for _, t := range v.Types {
		for _, k := range kinds {
			if t.Kind == k {
				l = append(l, t)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[r.Intn(len(l))]
}

func ref(kind string, n spec.Name) spec.Ref {
	x := spec.Ref{Kind: kind, Name: n}
	if kind == spec.Map {
		x.Index = spec.MakeName("string")
	}
	return x
}

var ghost = spec.MakeName("ghost", "of", "nothing")

// param creates a parameter from a compact description: direction, name and type. The type is one of
// the letters S (struct or class), L (list of structs), l (list of scalars), M (map), or the name of
// a scalar.
func param(r *rand.Rand, v *spec.Version, text string) *spec.Param {
	fields := strings.Fields(text)
	p := &spec.Param{In: strings.Contains(fields[0], "i"), Out: strings.Contains(fields[0], "o")}
	p.Name = spec.MakeName(strings.Split(fields[1], "-")...)
	object := pickType(r, v, spec.Class, spec.Struct).Name
	switch fields[2] {
	case "S":
		p.Type = ref(spec.Plain, object)
	case "L":
		p.Type = ref(spec.List, object)
	case "l":
		p.Type = ref(spec.List, spec.MakeName("string"))
	case "M":
		p.Type = ref(spec.Map, []spec.Name{object, spec.MakeName("string")}[r.Intn(2)])
	case "E":
		p.Type = ref(spec.Plain, pickType(r, v, spec.Enum).Name)
	case "V":
		p.Type = ref(spec.Plain, spec.MakeName([]string{"boolean", "integer", "long", "float", "string", "date"}[r.Intn(6)]))
	default:
		p.Type = ref(spec.Plain, spec.MakeName(strings.ToLower(fields[2])))
	}
	if len(fields) > 3 {
		switch fields[3] {
		case "true":
			p.Default = true
		case "text":
			p.Default = "text"
		default:
			var n int
			fmt.Sscan(fields[3], &n)
			p.Default = n
		}
	}
	return p
}

// rows are the variants of the methods: name of the method, parameters separated by semicolons, and
// the culprit if it isn't valid.
var rows = []struct{ method, params, culprit string }{
	// Add:
	{"Add", "io body S", ""},
	{"Add", "io body S; i flag Boolean true; i limit Integer 5; i since Date", ""},
	{"Add", "io body S; i state E", ""},
	{"Add", "", "Add"},
	{"Add", "i flag Boolean", "Add"},
	{"Add", "io body S; io other S", "Add"},
	{"Add", "i body S", "Body"},
	{"Add", "o body S", "Body"},
	{"Add", "io thing S", "Thing"},
	{"Add", "io body S; i many l", "Many"},
	{"Add", "io body S; io many L", "Many"},
	{"Add", "io body S; i table M", "Table"},
	// Delete:
	{"Delete", "", ""},
	{"Delete", "i dry-run Boolean true; i depth V; i state E", ""},
	{"Delete", "i body S", "Delete"},
	{"Delete", "i body L", "Delete"},
	{"Delete", "i table M", "Delete"},
	{"Delete", "o depth Integer", "Depth"},
	{"Delete", "io depth Integer", "Depth"},
	{"Delete", "i force Boolean; o depth V", "Depth"},
	{"Async-Delete", "", ""},
	{"Async-Delete", "i force Boolean", ""},
	{"Async-Delete", "i body S", "AsyncDelete"},
	{"Async-Delete", "i table M", "AsyncDelete"},
	{"Async-Delete", "o depth Integer", "Depth"},
	{"Async-Delete", "io depth V", "Depth"},
	// Get:
	{"Get", "o body S", ""},
	{"Get", "o body S; i depth Integer 7; i state E; i since V", ""},
	{"Get", "", "Get"},
	{"Get", "i depth Integer", "Get"},
	{"Get", "o body S; o other S", "Get"},
	{"Get", "i body S", "Body"},
	{"Get", "io body S", "Body"},
	{"Get", "o body S; o depth V", "Depth"},
	{"Get", "o body S; io depth V", "Depth"},
	{"Get", "o thing S", "Thing"},
	{"Get", "o body S; i many l", "Many"},
	{"Get", "o body S; o many L", "Many"},
	{"Get", "o body S; o table M", "Table"},
	// List:
	{"List", "o items L", ""},
	{"List", "o items l", ""},
	{"List", "o items L; io page Integer 1; io size Integer 100; o total Integer; i search String text", ""},
	{"List", "o items L; io page Integer 1", ""},
	{"List", "", "List"},
	{"List", "io page Integer 1; io size Integer 100; o total Integer", "List"},
	{"List", "o items L; o others L", "List"},
	{"List", "o items L; o others l", "Others"},
	{"List", "o things L", "List"},
	{"List", "o things L", "Things"},
	{"List", "o items Integer; o things L", "Things"},
	{"List", "o items Integer", "List"},
	{"List", "i items L", "Items"},
	{"List", "io items L", "Items"},
	{"List", "o items L; i body S", "Body"},
	{"List", "o items L; i table M", "Table"},
	{"List", "o items L; io page Long 1", "Page"},
	{"List", "o items L; io page String text", "Page"},
	{"List", "o items L; i page Integer 1", "Page"},
	{"List", "o items L; o page Integer 1", "Page"},
	{"List", "o items L; io page Integer", "Page"},
	{"List", "o items L; io page Integer 0", "Page"},
	{"List", "o items L; io page Integer 2", "Page"},
	{"List", "o items L; io page Integer 1; io size Long 100", "Size"},
	{"List", "o items L; io page Integer 1; i size Integer 100", "Size"},
	{"List", "o items L; io page Integer 1; o size Integer 100", "Size"},
	{"List", "o items L; io page Integer 1; io size Integer", "Size"},
	{"List", "o items L; io page Integer 1; io size Integer 10", "Size"},
	{"List", "o items L; io page Integer 1; io size Integer 1", "Size"},
	{"List", "o items L; io page Integer 1; io size Integer 100; o total String", "Total"},
	{"List", "o items L; o total Long", "Total"},
	{"List", "o items L; i total Integer", "Total"},
	{"List", "o items L; io total Integer", "Total"},
	// Post:
	{"Post", "io anything S", ""},
	{"Post", "i request S; o response S", ""},
	{"Post", "o response S", ""},
	{"Post", "", "Post"},
	{"Post", "i request S", "Post"},
	{"Post", "i request S; i other S; o response S", "Post"},
	{"Post", "i request S; o response S; o other S", "Post"},
	{"Post", "io request S; o response S", "Post"},
	{"Post", "i request String; o response S", "Request"},
	{"Post", "i request L; o response S", "Request"},
	{"Post", "i request M; o response S", "Request"},
	{"Post", "i request S; o response Integer", "Response"},
	{"Post", "i request S; o response L", "Response"},
	{"Post", "i request S; o response M", "Response"},
	{"Post", "o response E", "Response"},
	// Search:
	{"Search", "o items L; i body S", ""},
	{"Search", "o items L; i body S; io page Integer 1; io size Integer 100; o total Integer; i order String", ""},
	{"Search", "i body S", "Search"},
	{"Search", "o items L", "Search"},
	{"Search", "o items L; o others L; i body S", "Search"},
	{"Search", "o items L; i body S; i other S", "Search"},
	{"Search", "o things L; i body S", "Search"},
	{"Search", "o things L; i body S", "Things"},
	{"Search", "i items L; i body S", "Items"},
	{"Search", "io items L; i body S", "Items"},
	{"Search", "o items L; io body S", "Body"},
	{"Search", "o items L; i thing S", "Thing"},
	{"Search", "o items L; i body S; o extra S", "Extra"},
	{"Search", "o items L; i body S; o extra M", "Extra"},
	{"Search", "o items L; i body S; i extra M", "Extra"},
	{"Search", "o items L; i body S; i extra L", "Extra"},
	{"Search", "o items L; i body S; io page Integer 2", "Page"},
	{"Search", "o items L; i body S; io page Float 1", "Page"},
	{"Search", "o items L; i body S; o page Integer 1", "Page"},
	{"Search", "o items L; i body S; io size Integer 99", "Size"},
	{"Search", "o items L; i body S; io size Integer", "Size"},
	{"Search", "o items L; i body S; i size Integer 100", "Size"},
	{"Search", "o items L; i body S; io total Integer", "Total"},
	{"Search", "o items L; i body S; o total Boolean", "Total"},
	// Update:
	{"Update", "io body S", ""},
	{"Update", "io body L", ""},
	{"Update", "io body S; i force Boolean true; i state E; i when V", ""},
	{"Update", "", "Update"},
	{"Update", "i force Boolean", "Update"},
	{"Update", "io body S; io other S", "Update"},
	{"Update", "io body S; io other L", "Update"},
	{"Update", "io body L; io other L", "Update"},
	{"Update", "i body S", "Body"},
	{"Update", "o body S", "Body"},
	{"Update", "i body L", "Body"},
	{"Update", "o body L", "Body"},
	{"Update", "io thing S", "Thing"},
	{"Update", "io things L", "Things"},
	{"Update", "io body S; o depth V", "Depth"},
	{"Update", "io body S; io depth V", "Depth"},
	{"Update", "io body S; i table M", "Table"},
	{"Async-Update", "io body S", ""},
	{"Async-Update", "io body L; i force Boolean", ""},
	{"Async-Update", "", "AsyncUpdate"},
	{"Async-Update", "io body S; io other S", "AsyncUpdate"},
	{"Async-Update", "i body S", "Body"},
	{"Async-Update", "o body S", "Body"},
	{"Async-Update", "io thing S", "Thing"},
	{"Async-Update", "io body S; o depth V", "Depth"},
	{"Async-Update", "io body S; i table M", "Table"},
	// Actions, and default values:
	{"Do-It", "", ""},
	{"Do-It", "i name String text; o count Integer; io flag Boolean true; o result S; i many L", ""},
	{"Do-It", "i number Integer 0", ""},
	{"Do-It", "i name String 5", "Name"},
	{"Do-It", "i name String true", "Name"},
	{"Do-It", "i count Integer text", "Count"},
	{"Do-It", "i count Integer true", "Count"},
	{"Do-It", "i flag Boolean 1", "Flag"},
	{"Do-It", "i flag Boolean text", "Flag"},
	{"Do-It", "o flag Boolean text", "Flag"},
	{"Do-It", "i big Long 5", "Big"},
	{"Do-It", "i ratio Float 5", "Ratio"},
	{"Do-It", "i when Date text", "When"},
	{"Do-It", "i state E text", "State"},
	{"Do-It", "i thing S text", "Thing"},
	{"Do-It", "i many L 5", "Many"},
	{"Get", "o body S; i depth Integer text", "Depth"},
	{"List", "o items L; i search String 5", "Search"},
	{"Delete", "i force Boolean 1", "Force"},
	{"Update", "io body S; i force Boolean text", "Force"},
	{"Add", "io body S; i force String true", "Force"},
}

func edits() []edit {
	var l []edit
	add := func(name string, invalid bool, f func(r *rand.Rand, m *spec.Model) []string) {
		l = append(l, edit{name, invalid, f})
	}
	add("nothing", false, func(r *rand.Rand, m *spec.Model) []string { return []string{""} })
	for _, row := range rows {
		row := row
		name := fmt.Sprintf("%s { %s }", row.method, row.params)
		add(name, row.culprit != "", func(r *rand.Rand, m *spec.Model) []string {
			v := pickVersion(r, m)
			res := pickResource(r, v)
			words := strings.Split(strings.ToLower(row.method), "-")
			x := &spec.Method{Name: spec.MakeName(words...)}
			for _, t := range strings.Split(row.params, ";") {
				if strings.TrimSpace(t) != "" {
					x.Params = append(x.Params, param(r, v, t))
				}
			}
			if row.method != "Post" && r.Intn(2) == 0 {
				// Other parameters, that are valid everywhere, must not change the verdict:
				for k := r.Intn(12); k >= 0; k-- {
					pad := fmt.Sprintf("i %cpad%c%c-%c%c %s", 'a'+r.Intn(26), 'a'+k, 'a'+r.Intn(26), 'a'+r.Intn(26), 'a'+r.Intn(26),
						[]string{"Boolean true", "Integer 7", "String text", "Date", "V", "E"}[r.Intn(6)])
					x.Params = append(x.Params, param(r, v, pad))
				}
			}
			r.Shuffle(len(x.Params), func(i, j int) { x.Params[i], x.Params[j] = x.Params[j], x.Params[i] })
			var rest []*spec.Method
			for _, y := range res.Methods {
				if y.Name.ID != x.Name.ID {
					rest = append(rest, y)
				}
			}
			i := r.Intn(len(rest) + 1)
			res.Methods = append(append(append([]*spec.Method{}, rest[:i]...), x), rest[i:]...)
			return []string{row.culprit}
		})
	}
	// Undefined concepts:
	for _, kind := range []string{spec.Plain, spec.List, spec.Map} {
		kind := kind
		add("undefined type of "+kind+" attribute", true, func(r *rand.Rand, m *spec.Model) []string {
			t := pickType(r, pickVersion(r, m), spec.Class, spec.Struct)
			t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zattr"), Type: ref(kind, ghost), Link: kind != spec.Map && r.Intn(2) == 0})
			return []string{ghost.Camel()}
		})
		add("undefined type of "+kind+" parameter of action", true, func(r *rand.Rand, m *spec.Model) []string {
			res := pickResource(r, pickVersion(r, m))
			res.Methods = append(res.Methods, &spec.Method{Name: spec.MakeName("zaction"), Params: []*spec.Param{
				{Name: spec.MakeName("zparam"), In: r.Intn(2) == 0, Out: true, Type: ref(kind, ghost)}}})
			return []string{ghost.Camel()}
		})
		add("type of another version used in "+kind+" attribute", true, func(r *rand.Rand, m *spec.Model) []string {
			v := pickVersion(r, m)
			other := pickVersion(r, m)
			if v == other {
				return nil
			}
			other.Types = append(other.Types, &spec.Type{Kind: []string{spec.Class, spec.Struct}[r.Intn(2)], Name: ghost,
				Attrs: []*spec.Attr{{Name: spec.MakeName("text"), Type: ref(spec.Plain, spec.MakeName("string"))}}})
			t := pickType(r, v, spec.Class, spec.Struct)
			t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zattr"), Type: ref(kind, ghost)})
			return []string{ghost.Camel()}
		})
	}
	add("undefined type of index of map", true, func(r *rand.Rand, m *spec.Model) []string {
		t := pickType(r, pickVersion(r, m), spec.Class, spec.Struct)
		t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zattr"), Type: spec.Ref{Kind: spec.Map, Name: spec.MakeName("string"), Index: ghost}})
		return []string{ghost.Camel()}
	})
	add("type not declared after being used", true, func(r *rand.Rand, m *spec.Model) []string {
		// Remove the declaration of a type that is used by others:
		v := pickVersion(r, m)
		for _, i := range r.Perm(len(v.Types)) {
			t := v.Types[i]
			for _, x := range v.Types {
				for _, a := range x.Attrs {
					if x != t && a.Type.Name.Key() == t.Name.Key() {
						v.Types = append(v.Types[:i:i], v.Types[i+1:]...)
						return []string{t.Name.Camel()}
					}
				}
			}
		}
		return nil
	})
	add("undefined target", true, func(r *rand.Rand, m *spec.Model) []string {
		res := pickResource(r, pickVersion(r, m))
		res.Locators = append(res.Locators, &spec.Locator{Name: spec.MakeName("zlocator"), Target: ghost, Variable: r.Intn(2) == 0})
		return []string{ghost.Camel()}
	})
	add("target not declared", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		for _, i := range r.Perm(len(v.Resources)) {
			x := v.Resources[i]
			for _, res := range v.Resources {
				for _, l := range res.Locators {
					if res != x && !x.IsRoot() && l.Target.Key() == x.Name.Key() {
						v.Resources = append(v.Resources[:i:i], v.Resources[i+1:]...)
						return []string{x.Name.Camel()}
					}
				}
			}
		}
		return nil
	})
	add("target that is a type", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		t := pickType(r, v, spec.Class, spec.Struct, spec.Enum)
		if v.FindResource(t.Name) != nil {
			return nil
		}
		res := pickResource(r, v)
		res.Locators = append(res.Locators, &spec.Locator{Name: spec.MakeName("zlocator"), Target: t.Name})
		return []string{t.Name.Camel()}
	})
	add("attribute whose type is a resource", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		res := pickResource(r, v)
		if v.FindType(res.Name) != nil {
			return nil
		}
		t := pickType(r, v, spec.Class, spec.Struct)
		t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, res.Name)})
		return []string{res.Name.Camel()}
	})
	// Duplicates:
	for _, a := range []string{spec.Class, spec.Struct, spec.Enum} {
		for _, b := range []string{spec.Class, spec.Struct, spec.Enum} {
			a, b := a, b
			add("duplicated "+a+" as "+b, true, func(r *rand.Rand, m *spec.Model) []string {
				v := pickVersion(r, m)
				t := pickType(r, v, a)
				x := &spec.Type{Kind: b, Name: t.Name}
				if b == spec.Enum {
					x.Values = []*spec.Value{{Name: spec.MakeName("zvalue")}}
				} else {
					x.Attrs = []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, spec.MakeName("string"))}}
				}
				if a == b && r.Intn(2) == 0 {
					x.Attrs, x.Values = t.Attrs, t.Values
				}
				if r.Intn(3) == 0 {
					// The same name with another spelling:
					x.Name = x.Name.LowerFirst()
				}
				v.Types = append(v.Types, x)
				return []string{t.Name.Camel()}
			})
		}
	}
	for _, b := range spec.Scalars {
		b := b
		add("duplicated builtin type "+b, true, func(r *rand.Rand, m *spec.Model) []string {
			v := pickVersion(r, m)
			v.Types = append(v.Types, &spec.Type{Kind: spec.Struct, Name: spec.MakeName(strings.ToLower(b)),
				Attrs: []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, spec.MakeName("string"))}}})
			return []string{b}
		})
	}
	add("duplicated resource", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		res := pickResource(r, v)
		x := &spec.Resource{Name: res.Name}
		if r.Intn(2) == 0 {
			x.Methods = res.Methods
		}
		if r.Intn(3) == 0 {
			x.Name = x.Name.LowerFirst()
		}
		v.Resources = append(v.Resources, x)
		return []string{res.Name.Camel()}
	})
	add("duplicated error", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		if len(v.Errors) == 0 {
			v.Errors = append(v.Errors, &spec.Error{Name: spec.MakeName("zerror"), Code: 4242})
		}
		e := v.Errors[r.Intn(len(v.Errors))]
		v.Errors = append(v.Errors, &spec.Error{Name: e.Name, Code: []int{e.Code, e.Code + 1000}[r.Intn(2)]})
		return []string{e.Name.Camel()}
	})
	add("type, resource and error with the same name", false, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		v.Types = append(v.Types, &spec.Type{Kind: spec.Class, Name: ghost, Attrs: []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, ghost)}}})
		v.Resources = append(v.Resources, &spec.Resource{Name: ghost})
		v.Resources[0].Locators = append(v.Resources[0].Locators, &spec.Locator{Name: ghost, Target: ghost})
		v.Errors = append(v.Errors, &spec.Error{Name: ghost, Code: 4242})
		return []string{""}
	})
	add("the same names in two versions", false, func(r *rand.Rand, m *spec.Model) []string {
		for i, kind := range []string{spec.Class, spec.Struct} {
			v := pickVersion(r, m)
			if v.FindType(ghost) != nil {
				return nil
			}
			v.Types = append(v.Types, &spec.Type{Kind: kind, Name: ghost, Attrs: []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, ghost)}}})
			v.Errors = append(v.Errors, &spec.Error{Name: ghost, Code: 4242 + i})
		}
		return []string{""}
	})
	add("recursive types", false, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		x, y := spec.MakeName("zone", "recursive"), spec.MakeName("ztwo", "recursive")
		v.Types = append(v.Types,
			&spec.Type{Kind: spec.Class, Name: x, Attrs: []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Plain, y)}, {Name: spec.MakeName("me"), Type: ref(spec.List, x)}}},
			&spec.Type{Kind: spec.Struct, Name: y, Attrs: []*spec.Attr{{Name: spec.MakeName("zattr"), Type: ref(spec.Map, x)}}})
		return []string{""}
	})
	// Root and locators:
	add("no root", true, func(r *rand.Rand, m *spec.Model) []string {
		s := m.Services[r.Intn(len(m.Services))]
		v := s.Versions[r.Intn(len(s.Versions))]
		if r.Intn(2) == 0 {
			v.FindResource(spec.MakeName("root")).Name = spec.MakeName("other", "root")
		} else {
			v.Resources = nil
		}
		return []string{v.Name.Camel()}
	})
	add("locator that targets its own resource", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		res := reachable(r, v)
		res.Locators = append(res.Locators, &spec.Locator{Name: spec.MakeName("zloop"), Target: res.Name, Variable: r.Intn(2) == 0})
		return []string{"Zloop"}
	})
	add("locator that targets an ancestor", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		paths := v.Paths()
		p := paths[r.Intn(len(paths))]
		if len(p.Locators) == 0 {
			return nil
		}
		// Owners of the locators of the path:
		owners := []spec.Name{spec.MakeName("root")}
		for _, l := range p.Locators[:len(p.Locators)-1] {
			owners = append(owners, l.Target)
		}
		p.Target.Locators = append(p.Target.Locators, &spec.Locator{Name: spec.MakeName("zloop"), Target: owners[r.Intn(len(owners))], Variable: r.Intn(2) == 0})
		// The locator that closes the loop depends on the order in which the resources are visited, so
		// any of the locators of the loop is good:
		culprits := []string{"Zloop"}
		for _, l := range p.Locators {
			culprits = append(culprits, l.Name.Camel())
		}
		return culprits
	})
	add("long loop", true, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		n := 2 + r.Intn(6)
		name := func(i int) spec.Name { return spec.MakeName("zring", fmt.Sprintf("R%d", i%n)) }
		culprits := []string{}
		for i := 0; i < n; i++ {
			l := &spec.Locator{Name: spec.MakeName("zstep", fmt.Sprintf("S%d", i)), Target: name(i + 1), Variable: r.Intn(2) == 0}
			culprits = append(culprits, l.Name.Camel())
			ring := &spec.Resource{Name: name(i), Locators: []*spec.Locator{l}}
			// Locators that aren't part of the loop, before and after the one that is:
			for _, side := range []string{"before", "zzafter"} {
				if r.Intn(3) == 0 {
					ring.Locators = append(ring.Locators, &spec.Locator{Name: spec.MakeName(side, fmt.Sprintf("S%d", i)),
						Target: spec.MakeName("zleaf"), Variable: r.Intn(2) == 0})
				}
			}
			v.Resources = append(v.Resources, ring)
		}
		v.Resources = append(v.Resources, &spec.Resource{Name: spec.MakeName("zleaf")})
		res := reachable(r, v)
		res.Locators = append(res.Locators, &spec.Locator{Name: spec.MakeName("zenter"), Target: name(r.Intn(n)), Variable: r.Intn(2) == 0})
		return append(culprits, "Zenter")
	})
	add("diamond of locators", false, func(r *rand.Rand, m *spec.Model) []string {
		v := pickVersion(r, m)
		n := func(s string) spec.Name { return spec.MakeName("zdiamond", s) }
		loc := func(s, t string) *spec.Locator { return &spec.Locator{Name: n(s), Target: n(t)} }
		v.Resources = append(v.Resources,
			&spec.Resource{Name: n("top"), Locators: []*spec.Locator{loc("left", "left"), loc("right", "right"), loc("direct", "bottom")}},
			&spec.Resource{Name: n("left"), Locators: []*spec.Locator{loc("down", "bottom"), loc("across", "right")}},
			&spec.Resource{Name: n("right"), Locators: []*spec.Locator{loc("down", "bottom")}},
			&spec.Resource{Name: n("bottom")})
		v.Resources[0].Locators = append(v.Resources[0].Locators, loc("entry", "top"), loc("again", "bottom"))
		return []string{""}
	})
	return l
}

// reachable returns a resource that can be reached from the root.
func reachable(r *rand.Rand, v *spec.Version) *spec.Resource {
	paths := v.Paths()
	return paths[r.Intn(len(paths))].Target
}

var colors = regexp.MustCompile("\x1b\\[[0-9;]*m")

// errorLines returns the errors reported by the tool.
func errorLines(out string) []string {
	var l []string
	for _, line := range strings.Split(colors.ReplaceAllString(out, ""), "\n") {
		if strings.HasPrefix(line, "E:") {
			l = append(l, line)
		}
	}
	return l
}

// mentions returns true if one of the lines contains one of the words.
func mentions(lines []string, words []string) bool {
	for _, line := range lines {
		for _, w := range words {
			if regexp.MustCompile(`\b` + regexp.QuoteMeta(w) + `\b`).MatchString(line) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) commands(p *run.Project) map[string]func() run.Res {
	return map[string]func() run.Res{"check": p.Check, "generate go": p.Go, "generate openapi": p.OpenAPI, "generate docs": p.Docs}
}

func checkRules(c *Ctx) {
	list := edits()
	rounds := c.Pick(12, 100)
	c.Parallel(len(list)*rounds, func(i int) {
		e := list[i%len(list)]
		r := c.Rand("rules", i)
		o := gen.Opts{Services: 1 + r.Intn(2), Versions: 1 + r.Intn(2), Types: 2, Attrs: 3, Resources: 3, Errors: 2, Odd: r.Intn(2) == 0}
		m := gen.Random(r.Int63(), o)
		m.Label = fmt.Sprintf("edit %d: %s", i, e.name)
		var culprits []string
		for k := 0; k < 20 && culprits == nil; k++ {
			culprits = e.apply(r, m)
		}
		if culprits == nil {
			c.Count("edits that can't be applied", 1)
			return
		}
		p, err := c.W.Project(m, spec.Style{Rand: r, Files: r.Intn(3), Shuffle: true, Noise: r.Intn(3) == 0})
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		defer p.Remove()
		commands := c.commands(p)
		names := []string{"check"}
		if x := []string{"generate go", "generate openapi", "generate docs"}[r.Intn(3)]; e.invalid || x != "generate go" {
			names = append(names, x)
		}
		for _, name := range names {
			res := commands[name]()
			c.Eval(1)
			if res.Timeout || res.Crashed() {
				c.Fail(m.Label, p.Dir, res.Out, "%s crashes or doesn't finish: %s", name, run.Tail(res.Out, 10))
				return
			}
			lines := errorLines(res.Out)
			if !e.invalid {
				c.Count("valid models accepted", 1)
				if res.Code != 0 || len(lines) > 0 {
					c.Fail(m.Label, p.Dir, res.Out, "%s rejects a valid model with code %d: %s", name, res.Code, strings.Join(lines, "\n"))
					return
				}
				continue
			}
			c.Count("invalid models rejected", 1)
			if res.Code == 0 {
				c.Fail(m.Label, p.Dir, res.Out, "%s accepts a model that isn't valid", name)
				return
			}
			if !mentions(lines, culprits) {
				c.Fail(m.Label, p.Dir, res.Out, "%s rejects the model, but the reports don't mention %v: %s", name, culprits, strings.Join(lines, "\n"))
				return
			}
		}
		c.Seen(e.name)
		c.Sample(m.Label + " -> " + strings.Join(culprits, ","))
	})
	c.tooWide()
}

// tooWide checks that types with too many attributes are rejected by the generation of Go.
func (c *Ctx) tooWide() {
	sizes := map[string][]int{spec.Class: {62, 63, 64, 65, 130}, spec.Struct: {65, 66, 130}}
	type job struct {
		kind string
		n    int
	}
	var jobs []job
	for kind, l := range sizes {
		for _, n := range l {
			jobs = append(jobs, job{kind, n})
		}
	}
	sort.Slice(jobs, func(i, j int) bool { return fmt.Sprint(jobs[i]) < fmt.Sprint(jobs[j]) })
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		m := gen.Wide(c.Seed, 3)
		m.Label = fmt.Sprintf("%s with %d attributes", j.kind, j.n)
		t := &spec.Type{Kind: j.kind, Name: spec.MakeName("too", "wide")}
		for k := 0; k < j.n; k++ {
			t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("attr", fmt.Sprintf("A%03d", k)), Type: ref(spec.Plain, spec.MakeName("string"))})
		}
		v := m.Services[0].Versions[0]
		v.Types = append(v.Types, t)
		p, err := c.W.Project(m, spec.Style{})
		if err != nil {
			c.Problem(m.Label, "", err)
			return
		}
		defer p.Remove()
		res := p.Go()
		c.Eval(1)
		c.Count("types that are too wide", 1)
		if res.Code == 0 || res.Crashed() || res.Timeout {
			c.Fail(m.Label, p.Dir, res.Out, "generation of Go ends with code %d", res.Code)
		} else if !strings.Contains(res.Out, "TooWide") {
			c.Fail(m.Label, p.Dir, res.Out, "the report doesn't mention the type: %s", run.Tail(res.Out, 5))
		}
		c.Seen(m.Label)
	})
}
