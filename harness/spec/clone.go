package spec

import "encoding/json"

// Clone makes a deep copy of the model.
func (m *Model) Clone() *Model {
	data, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	c := &Model{}
	if err := json.Unmarshal(data, c); err != nil {
		panic(err)
	}
	number := func(x *interface{}) {
		if f, ok := (*x).(float64); ok {
			*x = int(f)
		}
	}
	c.EachAnn(func(kind string, a *Ann, action bool) {
		for _, o := range a.Other {
			for i := range o.Params {
				number(&o.Params[i].Value)
			}
		}
	})
	c.Each(func(s *Service, v *Version) {
		for _, r := range v.Resources {
			for _, x := range r.Methods {
				for _, p := range x.Params {
					number(&p.Default)
				}
			}
		}
	})
	return c
}

// EachAnn calls the function with the annotations of each concept.
func (m *Model) EachAnn(f func(kind string, a *Ann, action bool)) {
	m.Each(func(s *Service, v *Version) {
		for _, t := range v.Types {
			f("type", &t.Ann, false)
			for _, a := range t.Attrs {
				f("attribute", &a.Ann, false)
			}
			for _, x := range t.Values {
				f("value", &x.Ann, false)
			}
		}
		for _, r := range v.Resources {
			f("resource", &r.Ann, false)
			for _, l := range r.Locators {
				f("locator", &l.Ann, false)
			}
			for _, x := range r.Methods {
				f("method", &x.Ann, x.IsAction())
				for _, p := range x.Params {
					f("parameter", &p.Ann, x.IsAction())
				}
			}
		}
		for _, e := range v.Errors {
			f("error", &e.Ann, false)
		}
	})
}
