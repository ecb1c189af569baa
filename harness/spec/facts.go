package spec

import "fmt"

type facts struct {
	list []string
}

func (f *facts) add(format string, args ...interface{}) {
	f.list = append(f.list, fmt.Sprintf(format, args...))
}

func (f *facts) common(where string, n Name, doc string, a Ann) {
	f.add("doc %s %q", where, doc)
	f.add("text %s %q", where, n.ID)
	ann := func(name string, params ...AnnParam) {
		f.add("ann %s @%s", where, name)
		for _, p := range params {
			f.add("annparam %s @%s %s = %#v", where, name, p.Name, p.Value)
		}
	}
	if a.Go != "" {
		ann("go", AnnParam{"name", a.Go})
	}
	if a.JSON != "" {
		ann("json", AnnParam{"name", a.JSON})
	}
	if a.HTTP != "" {
		ann("http", AnnParam{"name", a.HTTP})
	}
	for _, o := range a.Other {
		ann(o.Name, o.Params...)
	}
}

func (v *Version) refFact(where string, r Ref, owner string) string {
	one := func(n Name) string {
		k := v.KindOf(n)
		if owner != "" {
			k = Class // Only links to classes keep the owner.
		}
		switch k {
		case Scalar:
			return fmt.Sprintf("%s(scalar)", n.Key())
		case Interface:
			return fmt.Sprintf("%s(interface{})", n.Key())
		}
		return fmt.Sprintf("%s(%s of %s)", n.Key(), k, Or(owner, where))
	}
	switch r.Kind {
	case List:
		return "[]" + one(r.Name)
	case Map:
		return "[" + fmt.Sprintf("%s(scalar)", r.Index.Key()) + "]" + one(r.Name)
	}
	return one(r.Name)
}

// Facts returns all the facts declared by the model, in the format used by the probe.
func (m *Model) Facts() []string {
	f := &facts{}
	for _, s := range m.Services {
		f.add("service %s", s.Name.Key())
		for _, v := range s.Versions {
			where := s.Name.Key() + "/" + v.Name.Key()
			f.add("version %s", where)
			for _, t := range v.Types {
				w := where + "/" + t.Name.Key()
				f.add("type %s kind=%s class=%v struct=%v enum=%v", w, t.Kind, t.Kind == Class, t.Kind != Enum, t.Kind == Enum)
				f.common("type "+w, t.Name, t.Doc, t.Ann)
				for _, a := range t.Attrs {
					aw := w + "/" + a.Name.Key()
					f.add("attribute %s link=%v type=%s", aw, a.Link, v.refFact(where, a.Type, a.Owner))
					f.common("attribute "+aw, a.Name, a.Doc, a.Ann)
				}
				for _, x := range t.Values {
					xw := w + "/" + x.Name.Key()
					f.add("value %s", xw)
					f.common("value "+xw, x.Name, x.Doc, x.Ann)
				}
			}
			for _, r := range v.Resources {
				w := where + "/" + r.Name.Key()
				f.add("resource %s root=%v", w, r.IsRoot())
				f.common("resource "+w, r.Name, r.Doc, r.Ann)
				for _, l := range r.Locators {
					lw := w + "/" + l.Name.Key()
					f.add("locator %s variable=%v target=%s", lw, l.Variable, where+"/"+l.Target.Key())
					f.common("locator "+lw, l.Name, l.Doc, l.Ann)
				}
				for _, x := range r.Methods {
					mw := w + "/" + x.Name.Key()
					kind := "Action"
					if !x.IsAction() {
						kind = x.Name.ID
					}
					f.add("method %s [%s]", mw, kind)
					f.common("method "+mw, x.Name, x.Doc, x.Ann)
					for _, p := range x.Params {
						pw := mw + "/" + p.Name.Key()
						f.add("parameter %s in=%v out=%v type=%s default=%#v items=%v body=%v", pw, p.In, p.Out,
							v.refFact(where, p.Type, ""), p.Default, p.Name.ID == "Items" && (kind == "List" || kind == "Search"), p.Name.ID == "Body" && takesBody[kind])
						f.common("parameter "+pw, p.Name, p.Doc, p.Ann)
					}
				}
			}
			for _, e := range v.Errors {
				w := where + "/" + e.Name.Key()
				f.add("error %s code=%d", w, e.Code)
				f.common("error "+w, e.Name, e.Doc, e.Ann)
			}
			for _, p := range v.Paths()[1:] {
				text := ""
				for _, l := range p.Locators {
					text += "/" + l.Name.Key()
				}
				f.add("path %s %s -> %s", where, text, p.Target.Name.Key())
			}
		}
	}
	return f.list
}

// takesBody contains the methods where the parameter named `Body` is special.
var takesBody = map[string]bool{"Add": true, "Get": true, "Search": true, "Update": true, "AsyncUpdate": true}
