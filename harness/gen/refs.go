package gen

import (
	"fmt"
	"math/rand"

	"verif.local/harness/spec"
)

// Refs creates a model where the classes of a service are references to the classes of other ones.
func Refs(seed int64) *spec.Model {
	r := rand.New(rand.NewSource(seed))
	o := Opts{Services: 1, Types: 8, Attrs: 8, Resources: 4, Errors: 2, Docs: 0.4}
	if seed%3 == 1 {
		o.Annotate = 0.3
	}
	if seed%3 == 2 {
		o.Names = "hostile"
	}
	m := Random(seed, o)
	m.Label = fmt.Sprintf("refs-%d", seed)
	target := m.Services[0]
	tv := target.Versions[0]
	tv.Name = spec.DirName([]string{"v1", "v2", "v1_alpha1"}[r.Intn(3)])
	target.Name = spec.DirName([]string{"middle_service", "target"}[r.Intn(2)])

	service := &spec.Service{Name: spec.DirName([]string{"aaa_hub", "zzz_hub"}[r.Intn(2)])}
	v := &spec.Version{Name: spec.DirName([]string{"v1", "v2_beta1", "v1"}[r.Intn(3)])}
	service.Versions = []*spec.Version{v}
	m.Services = append(m.Services, service)

	// Chains of types that are only needed by links:
	if r.Intn(2) == 0 {
		for _, t := range tv.Types {
			if t.Kind == spec.Class {
				t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zz", "linked"), Link: true, Type: plain(spec.MakeName("zz", "far"))})
				if r.Intn(2) == 0 {
					t.Attrs = append(t.Attrs, &spec.Attr{Name: spec.MakeName("zz", "all", "linked"), Link: true, Type: list(spec.MakeName("zz", "far"))})
				}
				break
			}
		}
		chain := func(n string) spec.Ref {
			return []spec.Ref{plain(spec.MakeName("zz", n)), list(spec.MakeName("zz", n)), mp(spec.MakeName("zz", n))}[r.Intn(3)]
		}
		tv.Types = append(tv.Types,
			&spec.Type{Kind: spec.Struct, Name: spec.MakeName("zz", "third"), Attrs: []*spec.Attr{attr(spec.MakeName("last", "state"), chain("state"))}},
			&spec.Type{Kind: spec.Class, Name: spec.MakeName("zz", "far"), Attrs: []*spec.Attr{attr(spec.MakeName("second"), chain("second"))}},
			&spec.Type{Kind: spec.Struct, Name: spec.MakeName("zz", "second"), Attrs: []*spec.Attr{
				attr(spec.MakeName("third"), chain("third")), attr(spec.MakeName("label"), mp(builtin("String")))}},
			&spec.Type{Kind: spec.Enum, Name: spec.MakeName("zz", "state"), Values: []*spec.Value{{Name: spec.MakeName("on")}, {Name: spec.MakeName("off")}}},
		)
	}

	// Select the classes:
	var classes []*spec.Type
	for _, t := range tv.Types {
		if t.Kind == spec.Class {
			classes = append(classes, t)
		}
	}
	explicit := map[string]bool{}
	for i, t := range classes {
		if i == 0 || r.Intn(3) == 0 {
			explicit[t.Name.Key()] = true
		}
	}
	// Types that are linked can't be also brought along:
	for changed := true; changed; {
		changed = false
		needed := map[string]bool{}
		var visit func(t *spec.Type)
		visit = func(t *spec.Type) {
			if t == nil || needed[t.Name.Key()] {
				return
			}
			needed[t.Name.Key()] = true
			for _, a := range t.Attrs {
				if !a.Link {
					visit(tv.FindType(a.Type.Name))
				}
			}
		}
		for _, t := range classes {
			if explicit[t.Name.Key()] {
				visit(t)
			}
		}
		for _, t := range tv.Types {
			if !needed[t.Name.Key()] {
				continue
			}
			for _, a := range t.Attrs {
				if a.Link && needed[a.Type.Name.Key()] && !explicit[a.Type.Name.Key()] {
					a.Link = false
					changed = true
				}
			}
		}
	}
	done := map[string]bool{}
	var bring func(t *spec.Type)
	bring = func(t *spec.Type) {
		if done[t.Name.Key()] {
			return
		}
		done[t.Name.Key()] = true
		x := &spec.Type{Name: t.Name, Kind: t.Kind, Values: t.Values, Doc: t.Doc, Ann: t.Ann, Origin: spec.Brought}
		if explicit[t.Name.Key()] {
			x.Origin = spec.RefClass
			slash := []string{"", "/"}[r.Intn(2)]
			x.Ann.Ref = slash + target.Name.ID + "/" + tv.Name.ID + "/" + t.Name.Key()
		}
		v.Types = append(v.Types, x)
		for _, a := range t.Attrs {
			b := *a
			x.Attrs = append(x.Attrs, &b)
			e := tv.FindType(a.Type.Name)
			if e == nil {
				continue
			}
			if a.Link {
				if !explicit[a.Type.Name.Key()] {
					b.Owner = target.Name.ID + "/" + tv.Name.ID
				}
				continue
			}
			bring(e)
		}
	}
	for _, t := range classes {
		if explicit[t.Name.Key()] {
			bring(t)
		}
	}
	// Use the references from local types and resources:
	local := &spec.Type{Kind: spec.Class, Name: spec.MakeName("zlocal", "thing"), Doc: "Local class."}
	if r.Intn(2) == 0 {
		local.Name = spec.MakeName("alocal", "thing")
	}
	first := classes[0]
	local.Attrs = []*spec.Attr{
		attr(spec.MakeName("one", "copy"), plain(first.Name)),
		attr(spec.MakeName("many", "copies"), list(first.Name)),
		attr(spec.MakeName("named", "copies"), mp(first.Name)),
		{Name: spec.MakeName("one", "link"), Link: true, Type: plain(first.Name)},
		{Name: spec.MakeName("many", "links"), Link: true, Type: list(first.Name)},
		attr(spec.MakeName("text"), plain(builtin("String"))),
		attr(spec.MakeName("texts"), list(builtin("String"))),
	}
	for i, t := range v.Types {
		// Types that have been brought along can be used like any other:
		if t.Origin == spec.Brought && r.Intn(2) == 0 {
			local.Attrs = append(local.Attrs,
				attr(spec.MakeName("brought", fmt.Sprintf("N%d", i)), plain(t.Name)),
				attr(spec.MakeName("broughts", fmt.Sprintf("N%d", i)), list(t.Name)))
		}
	}
	v.Types = append(v.Types, local)
	root := &spec.Resource{Name: spec.MakeName("root")}
	col := &spec.Resource{Name: spec.MakeName("zcollection")}
	item := &spec.Resource{Name: spec.MakeName("zitem")}
	root.Locators = []*spec.Locator{{Name: spec.MakeName("zthings"), Target: col.Name}}
	col.Locators = []*spec.Locator{{Name: spec.MakeName("zthing"), Target: item.Name, Variable: true}}
	list := &spec.Method{Name: spec.MakeName("list"), Params: []*spec.Param{
		fixed("page", true, true, plain(builtin("Integer")), 1),
		fixed("size", true, true, plain(builtin("Integer")), 100),
		fixed("total", false, true, plain(builtin("Integer")), nil),
		fixed("items", false, true, list(first.Name), nil),
	}}
	add := &spec.Method{Name: spec.MakeName("add"), Params: []*spec.Param{fixed("body", true, true, plain(first.Name), nil)}}
	get := &spec.Method{Name: spec.MakeName("get"), Params: []*spec.Param{fixed("body", false, true, plain(first.Name), nil)}}
	update := &spec.Method{Name: spec.MakeName("update"), Params: []*spec.Param{fixed("body", true, true, plain(first.Name), nil)}}
	col.Methods = []*spec.Method{list, add}
	item.Methods = []*spec.Method{get, update}
	v.Resources = []*spec.Resource{root, col, item}
	return m
}
