package drv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"testing/iotest"
	"time"

	"verif.local/harness/spec"
)

func init() {
	checks["C07"] = checkPresence
	checks["C08"] = checkIsolation
	checks["C09"] = checkRoundTrip
	checks["C10"] = checkHostileJSON
	checks["C21"] = checkLists
	checks["C22"] = func(e *Env) {
		checkConstants(e)
		checkPresence(e)
		checkRoundTrip(e)
		checkRequests(e)
		checkResponses(e)
		checkIsolation(e)
		checkLists(e)
	}
	checks["C17"] = func(e *Env) {
		checkConstants(e)
		checkRequests(e)
		checkResponses(e)
		checkPresence(e)
		checkIsolation(e)
		checkRoundTrip(e)
		checkLists(e)
	}
}

func (e *Env) eachType(f func(w *World, t *spec.Type, key string)) {
	for _, w := range e.Worlds {
		for _, t := range w.Objects() {
			f(w, t, w.S.Name.ID+"/"+w.V.Name.ID+"/"+t.Name.ID)
		}
	}
}

// checkObject compares everything that can be observed of an object with the reference.
func (e *Env) checkObject(what string, x reflect.Value, o *O) {
	got := o.W.ObserveObject(x, o.T)
	if d := Diff(o.T.Name.ID, &V{Obj: o}, got); d != "" {
		e.Fail("%s: %s", what, d)
	}
	for _, a := range o.T.Attrs {
		res := Method(x, a.GoName()).Call(nil)[0]
		v, ok := o.Attrs[a.Name.ID]
		if !ok {
			if !res.IsZero() {
				e.Fail("%s: attribute %s is absent but the getter returns %v", what, a.Name.ID, res)
			}
			if y := Method(x, "Get"+a.GoName()).Call(nil)[0]; !y.IsZero() {
				e.Fail("%s: attribute %s is absent but the getter returns %v", what, a.Name.ID, y)
			}
			continue
		}
		if d := Diff(a.Name.ID, v, o.W.At(a).ObserveRef(res, a.Type, a.Link)); d != "" {
			e.Fail("%s: plain getter: %s", what, d)
		}
	}
	empty := len(o.Attrs) == 0
	if o.T.Kind == spec.Class {
		empty = empty && o.ID == nil && o.HREF == nil
		kind := o.T.GoName()
		if o.Link {
			kind += "Link"
		}
		if k := Method(x, "Kind").Call(nil)[0].String(); k != kind {
			e.Fail("%s: expected kind %q but got %q", what, kind, k)
		}
		str := func(s *string) string {
			if s == nil {
				return ""
			}
			return *s
		}
		if s := Method(x, "ID").Call(nil)[0].String(); s != str(o.ID) {
			e.Fail("%s: expected id %q but got %q", what, str(o.ID), s)
		}
		if s := Method(x, "HREF").Call(nil)[0].String(); s != str(o.HREF) {
			e.Fail("%s: expected href %q but got %q", what, str(o.HREF), s)
		}
	}
	if got := Method(x, "Empty").Call(nil)[0].Bool(); got != empty {
		e.Fail("%s: expected empty %v but got %v", what, empty, got)
	}
}

// zeroVal returns the zero value, present, of an attribute.
func zeroVal(w *World, ref spec.Ref) *V {
	switch {
	case ref.Kind == spec.List:
		return &V{List: []*V{}}
	case ref.Kind == spec.Map:
		return &V{Map: map[string]*V{}}
	case w.V.IsObject(ref.Name):
		return &V{Obj: &O{T: w.Of(ref.Name), W: w, Attrs: map[string]*V{}}}
	}
	switch ref.Name.ID {
	case "Boolean":
		return &V{Scalar: false}
	case "Integer":
		return &V{Scalar: 0}
	case "Long":
		return &V{Scalar: int64(0)}
	case "Float":
		return &V{Scalar: 0.0}
	case "Date":
		return &V{Scalar: time.Time{}}
	case "Interface":
		return &V{Scalar: nil}
	}
	return &V{Scalar: ""}
}

func checkPresence(e *Env) {
	e.eachType(func(w *World, t *spec.Type, key string) {
		e.Case(key+"/nil", func(r *rand.Rand) {
			x := reflect.Zero(w.Fn("type " + t.GoName()).Type())
			for _, a := range t.Attrs {
				if res := Method(x, a.GoName()).Call(nil)[0]; !res.IsZero() {
					e.Fail("getter %s of nil object returns %v", a.GoName(), res)
				}
				if res := Method(x, "Get"+a.GoName()).Call(nil); res[1].Bool() || !res[0].IsZero() {
					e.Fail("getter Get%s of nil object returns %v", a.GoName(), res[0])
				}
			}
			if !Method(x, "Empty").Call(nil)[0].Bool() {
				e.Fail("nil object isn't empty")
			}
			if t.Kind == spec.Class {
				if k := Method(x, "Kind").Call(nil)[0].String(); k != t.GoName()+"Nil" {
					e.Fail("kind of nil object is %q", k)
				}
				if Method(x, "Link").Call(nil)[0].Bool() || Method(x, "ID").Call(nil)[0].String() != "" ||
					Method(x, "HREF").Call(nil)[0].String() != "" || Method(x, "GetID").Call(nil)[1].Bool() ||
					Method(x, "GetHREF").Call(nil)[1].Bool() {
					e.Fail("nil object has link, id or href")
				}
			}
		})
		e.Case(key+"/single", func(r *rand.Rand) {
			// Each attribute alone, with zero and with random values, and all but one:
			all := w.Object(r, t, 1, 1)
			for _, a := range t.Attrs {
				for _, v := range []*V{zeroVal(w.At(a), a.Type), w.At(a).Val(r, a.Type, 1)} {
					o := &O{T: t, W: w, Attrs: map[string]*V{a.Name.ID: v}}
					e.checkObject("only "+a.Name.ID, o.MustBuild(r), o)
					e.Seen(o.Key())
					e.Count("objects", 1)
				}
				if _, ok := all.Attrs[a.Name.ID]; ok {
					o := all.Clone()
					delete(o.Attrs, a.Name.ID)
					e.checkObject("all but "+a.Name.ID, o.MustBuild(r), o)
					e.Count("objects", 1)
				}
			}
			if t.Kind == spec.Class {
				s := "x"
				for i := 0; i < 8; i++ {
					o := &O{T: t, W: w, Attrs: map[string]*V{}, Link: i&1 != 0}
					if i&2 != 0 {
						o.ID = &s
					}
					if i&4 != 0 {
						o.HREF = &s
					}
					e.checkObject("identity", o.MustBuild(r), o)
				}
			}
		})
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/history/%d", key, i), func(r *rand.Rand) { e.history(r, w, t) })
		}
	})
}

// history calls the setters in a random sequence, with overwrites and removals, and checks the
// results of building at random moments.
func (e *Env) history(r *rand.Rand, w *World, t *spec.Type) {
	b := w.Fn("New" + t.GoName()).Call(nil)[0]
	o := &O{T: t, W: w, Attrs: map[string]*V{}}
	steps := 1 + r.Intn(2*len(t.Attrs)+6)
	for s := 0; s < steps; s++ {
		k := r.Intn(len(t.Attrs) + 4)
		switch {
		case k < len(t.Attrs):
			a := t.Attrs[k]
			setter := Method(b, a.GoName())
			aw := w.At(a)
			nilable := a.Type.Kind == spec.Map || a.Type.Kind == spec.Plain && aw.V.IsObject(a.Type.Name)
			if nilable && r.Intn(4) == 0 {
				setter.Call([]reflect.Value{reflect.Zero(setter.Type().In(0))})
				delete(o.Attrs, a.Name.ID)
				continue
			}
			v := aw.Val(r, a.Type, 2)
			if r.Intn(5) == 0 {
				v = zeroVal(aw, a.Type)
			}
			setter.Call(w.BuilderArgs(r, a, v, setter))
			o.Attrs[a.Name.ID] = v
		case t.Kind == spec.Class && k == len(t.Attrs):
			x := randText(r)
			Method(b, "ID").Call([]reflect.Value{reflect.ValueOf(x)})
			o.ID = &x
		case t.Kind == spec.Class && k == len(t.Attrs)+1:
			x := randText(r)
			Method(b, "HREF").Call([]reflect.Value{reflect.ValueOf(x)})
			o.HREF = &x
		case t.Kind == spec.Class && k == len(t.Attrs)+2:
			x := r.Intn(2) == 0
			Method(b, "Link").Call([]reflect.Value{reflect.ValueOf(x)})
			o.Link = x
		default:
			x, err := Build(b)
			if err != nil {
				e.Fail("build failed: %v", err)
				return
			}
			e.checkObject("intermediate build", x, o)
		}
		e.Count("setter calls", 1)
	}
	empty := len(o.Attrs) == 0 && o.ID == nil && o.HREF == nil
	if got := Method(b, "Empty").Call(nil)[0].Bool(); got != empty {
		e.Fail("expected builder with empty flag %v but got %v", empty, got)
	}
	x, err := Build(b)
	if err != nil {
		e.Fail("build failed: %v", err)
		return
	}
	e.checkObject("final build", x, o)
	e.Seen(o.Key())
	e.Count("objects", 1)
}

// mutate changes in place all the slices and maps reachable from an object or builder argument.
func mutateObject(r *rand.Rand, w *World, t *spec.Type, x reflect.Value, depth int) {
	if x.IsNil() || depth > 4 {
		return
	}
	for _, a := range t.Attrs {
		y := Method(x, a.GoName()).Call(nil)[0]
		aw := w.At(a)
		mutateValue(r, aw, a.Type, y, depth)
	}
}

func mutateValue(r *rand.Rand, w *World, ref spec.Ref, y reflect.Value, depth int) {
	obj := w.V.IsObject(ref.Name)
	if y.Kind() == reflect.Ptr && ref.Kind == spec.List {
		if y.IsNil() {
			return
		}
		y = Method(y, "Items").Call(nil)[0]
	}
	switch {
	case ref.Kind == spec.List:
		for i := 0; i < y.Len(); i++ {
			if obj {
				mutateObject(r, w, w.Of(ref.Name), y.Index(i), depth+1)
			}
			y.Index(i).Set(reflect.Zero(y.Type().Elem()))
		}
	case ref.Kind == spec.Map:
		for _, k := range y.MapKeys() {
			if obj {
				mutateObject(r, w, w.Of(ref.Name), y.MapIndex(k), depth+1)
			}
			y.SetMapIndex(k, reflect.Value{})
		}
		if !y.IsNil() {
			y.SetMapIndex(reflect.ValueOf("mutated"), reflect.Zero(y.Type().Elem()))
		}
	case obj:
		mutateObject(r, w, w.Of(ref.Name), y, depth+1)
	}
}

type built struct {
	x    reflect.Value
	snap *V
	from string
}

func checkIsolation(e *Env) {
	e.eachType(func(w *World, t *spec.Type, key string) {
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/isolation/%d", key, i), func(r *rand.Rand) { e.isolation(r, w, t) })
		}
		if e.Only == "" || true {
			e.Case(key+"/copy", func(r *rand.Rand) {
				for i := 0; i < e.N; i++ {
					o := w.Object(r, t, 2, 0.6)
					// Copy to a builder that has other content:
					other := w.Object(r, t, 2, 0.6)
					b := other.Builder(r)
					src := o.MustBuild(r)
					Method(b, "Copy").Call([]reflect.Value{src})
					x, err := Build(b)
					if err != nil {
						e.Fail("build failed: %v", err)
						return
					}
					e.checkObject("copy", x, o)
					e.checkObject("source of copy", src, o)
					// Copies of objects that come from JSON, as these can be different internally:
					y, err := w.unmarshal(t, Text(r, o.Tree(), nil))
					if err != nil {
						e.Fail("can't unmarshal: %v", err)
						return
					}
					z, err := Build(Method(w.Fn("New" + t.GoName()).Call(nil)[0], "Copy").Call([]reflect.Value{y})[0])
					if err != nil {
						e.Fail("build failed: %v", err)
						return
					}
					if d := Diff(t.Name.ID, w.ObserveObject(y, t), w.ObserveObject(z, t)); d != "" {
						e.Fail("copy of object read from JSON: %s", d)
					}
					t1, err1 := w.marshal(t, y)
					t2, err2 := w.marshal(t, z)
					if err1 != nil || err2 != nil || !o.sameText(t1, t2) {
						e.Fail("copy is written as %q but original is written as %q", t2, t1)
					}
					e.Count("copies", 2)
					e.Seen(o.Key())
				}
			})
			e.Case(key+"/copy list", func(r *rand.Rand) {
				ref := spec.Ref{Kind: spec.List, Name: t.Name}
				some := func(n int) *V {
					v := &V{List: []*V{}}
					for ; n > 0; n-- {
						v.List = append(v.List, &V{Obj: w.Object(r, t, 1, 0.5)})
					}
					return v
				}
				for i := 0; i < e.N; i++ {
					for _, n := range []int{-1, 0, 1 + r.Intn(4)} {
						old := some(r.Intn(4))
						lb := w.ListBuilder(r, t, old.List)
						before, err := Build(lb)
						if err != nil {
							e.Fail("build failed: %v", err)
							return
						}
						v := some(n)
						src := reflect.Zero(before.Type())
						if n >= 0 {
							src, err = Build(w.ListBuilder(r, t, v.List))
							if err != nil {
								e.Fail("build failed: %v", err)
								return
							}
						}
						Method(lb, "Copy").Call([]reflect.Value{src})
						after, err := Build(lb)
						if err != nil {
							e.Fail("build failed: %v", err)
							return
						}
						if d := Diff("list", v, w.ObserveRef(after, ref, true)); d != "" {
							e.Fail("copy of list with %d items to builder with %d items: %s", n, len(old.List), d)
						}
						mutateValue(r, w, ref, after, 0)
						if n >= 0 {
							if d := Diff("list", v, w.ObserveRef(src, ref, true)); d != "" {
								e.Fail("list changed because of changes in copy: %s", d)
							}
						}
						if d := Diff("list", old, w.ObserveRef(before, ref, true)); d != "" {
							e.Fail("list changed because of copy to its builder: %s", d)
						}
						e.Count("copies of lists", 1)
					}
				}
			})
		}
	})
}

func (e *Env) isolation(r *rand.Rand, w *World, t *spec.Type) {
	type bld struct {
		b     reflect.Value
		ref   *O
		taint map[string]bool
		muts  map[string][]func()
	}
	newBld := func() *bld {
		return &bld{b: w.Fn("New" + t.GoName()).Call(nil)[0], ref: &O{T: t, W: w, Attrs: map[string]*V{}},
			taint: map[string]bool{}, muts: map[string][]func(){}}
	}
	blds := []*bld{newBld(), newBld()}
	var objs []*built
	// The builders that are given to the setters, which can be shared and which nobody should change:
	type sub struct {
		b            reflect.Value
		w            *World
		t            *spec.Type
		list         bool
		want         *V
		shared, dead bool
	}
	var subs []*sub
	verify := func(op string) bool {
		for i, x := range subs {
			if x.dead {
				continue
			}
			y, err := Build(x.b)
			if err != nil {
				e.Fail("builder %d of %s used as argument fails after %s: %v", i, x.t.Name.ID, op, err)
				return false
			}
			var got *V
			if x.list {
				got = x.w.ObserveRef(y, spec.Ref{Kind: spec.List, Name: x.t.Name}, true)
			} else {
				got = x.w.ObserveObject(y, x.t)
			}
			if d := Diff(x.t.Name.ID, x.want, got); d != "" {
				e.Fail("builder %d used as argument changed after %s: %s", i, op, d)
				return false
			}
			e.Count("builders used as arguments observed again", 1)
		}
		for i, x := range objs {
			if d := Diff(t.Name.ID, x.snap, w.ObserveObject(x.x, t)); d != "" {
				e.Fail("object %d (%s) changed after %s: %s", i, x.from, op, d)
				return false
			}
		}
		return true
	}
	steps := 10 + r.Intn(20)
	var trace []string
	for s := 0; s < steps; s++ {
		b := blds[r.Intn(len(blds))]
		op := ""
		switch k := r.Intn(10); {
		case k < 4 && len(t.Attrs) > 0:
			a := t.Attrs[r.Intn(len(t.Attrs))]
			v := w.At(a).Val(r, a.Type, 2)
			setter := Method(b.b, a.GoName())
			args := w.BuilderArgs(r, a, v, setter)
			op = "set " + a.Name.ID
			var mine []*sub
			if aw := w.At(a); aw.V.IsObject(a.Type.Name) {
				at := aw.Of(a.Type.Name)
				// Use again, if possible, a builder that is already used somewhere else:
				if a.Type.Kind == spec.Plain && r.Intn(2) == 0 {
					for _, i := range r.Perm(len(subs)) {
						if x := subs[i]; !x.dead && !x.list && x.t == at {
							x.shared = true
							v = x.want.Clone()
							args[0] = x.b
							op = "share " + a.Name.ID
							e.Count("builders shared", 1)
							break
						}
					}
				}
				switch {
				case op[0:3] != "set":
				case a.Type.Kind == spec.List && a.Link:
					mine = append(mine, &sub{b: args[0], w: aw, t: at, list: true, want: v.Clone()})
				case a.Type.Kind == spec.List:
					for i, x := range args {
						mine = append(mine, &sub{b: x, w: aw, t: at, want: v.List[i].Clone()})
					}
				case a.Type.Kind == spec.Map:
					for _, k := range v.Keys() {
						x := v.Map[k]
						mine = append(mine, &sub{b: args[0].MapIndex(reflect.ValueOf(k)), w: aw, t: at, want: x.Clone()})
					}
				default:
					mine = append(mine, &sub{b: args[0], w: aw, t: at, want: v.Clone()})
				}
				subs = append(subs, mine...)
			}
			if setter.Type().IsVariadic() {
				st := setter.Type().In(0)
				sl := reflect.MakeSlice(st, len(args), len(args)+2)
				for i, x := range args {
					sl.Index(i).Set(x)
				}
				setter.CallSlice([]reflect.Value{sl})
				b.muts[a.Name.ID] = append(b.muts[a.Name.ID], func() {
					for i := 0; i < sl.Len(); i++ {
						sl.Index(i).Set(reflect.Zero(st.Elem()))
					}
				})
			} else {
				setter.Call(args)
				if args[0].Kind() == reflect.Map {
					b.muts[a.Name.ID] = append(b.muts[a.Name.ID], func() {
						for _, k := range args[0].MapKeys() {
							args[0].SetMapIndex(k, reflect.Value{})
						}
					})
				}
			}
			for _, x := range mine {
				x := x
				b.muts[a.Name.ID] = append(b.muts[a.Name.ID], func() {
					if x.shared || x.dead {
						return
					}
					x.dead = true
					if x.list {
						Method(x.b, "Items").Call(nil)
					} else {
						x.w.Object(r, x.t, 1, 0.8).Fill(r, x.b)
					}
				})
			}
			b.ref.Attrs[a.Name.ID] = v.Clone()
			delete(b.taint, a.Name.ID)
		case k < 6:
			op = "build"
			x, err := Build(b.b)
			if err != nil {
				e.Fail("build failed: %v", err)
				return
			}
			snap := w.ObserveObject(x, t)
			if len(b.taint) == 0 {
				if d := Diff(t.Name.ID, &V{Obj: b.ref}, snap); d != "" {
					e.Fail("after %s: %s", strings.Join(trace, ", "), d)
					return
				}
			}
			objs = append(objs, &built{x: x, snap: snap, from: fmt.Sprintf("step %d", s)})
		case k < 8 && len(objs) > 0:
			src := objs[r.Intn(len(objs))]
			op = "copy"
			Method(b.b, "Copy").Call([]reflect.Value{src.x})
			b.ref = src.snap.Obj.Clone()
			b.taint = map[string]bool{}
			b.muts = map[string][]func(){}
		case k == 8:
			// Change the things that were used to fill the builder:
			op = "mutate arguments"
			for _, a := range t.Attrs {
				for _, f := range b.muts[a.Name.ID] {
					f()
					b.taint[a.Name.ID] = true
				}
			}
			b.muts = map[string][]func(){}
			// The content is now unknown, so don't use this builder again:
			for i := range blds {
				if blds[i] == b {
					blds[i] = newBld()
				}
			}
		case k == 9 && len(objs) > 1:
			// Change the content of another object:
			op = "mutate other object"
			i := r.Intn(len(objs))
			mutateObject(r, w, t, objs[i].x, 0)
			objs = append(objs[:i], objs[i+1:]...)
		}
		if op == "" {
			continue
		}
		trace = append(trace, op)
		e.Count("operations", 1)
		if !verify(strings.Join(trace, ", ")) {
			return
		}
	}
	e.Count("objects", len(objs))
	e.Seen(t.Name.ID + ":" + strings.Join(trace, ","))
}

func (w *World) marshal(t *spec.Type, x reflect.Value) (string, error) {
	var buf bytes.Buffer
	res := w.Fn("Marshal" + t.GoName()).Call([]reflect.Value{x, reflect.ValueOf(&buf)})
	if !res[0].IsNil() {
		return "", res[0].Interface().(error)
	}
	return buf.String(), nil
}

func errOf(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func (w *World) unmarshalFrom(fn string, source interface{}) (reflect.Value, error) {
	f := w.Fn(fn)
	arg := reflect.New(f.Type().In(0)).Elem()
	if source != nil {
		arg.Set(reflect.ValueOf(source))
	}
	res := f.Call([]reflect.Value{arg})
	return res[0], errOf(res[1])
}

func (w *World) unmarshal(t *spec.Type, source interface{}) (reflect.Value, error) {
	return w.unmarshalFrom("Unmarshal"+t.GoName(), source)
}

func (e *Env) source(r *rand.Rand, text string) (string, interface{}) {
	switch r.Intn(6) {
	case 0:
		return "string", text
	case 1:
		return "bytes", []byte(text)
	case 2:
		return "reader", strings.NewReader(text)
	case 3:
		return "one byte reader", iotest.OneByteReader(strings.NewReader(text))
	case 4:
		// Readers also accept an iterator that is already created:
		res := e.Fn("helpers/NewIterator").Call([]reflect.Value{anyValue(text)})
		if err := errOf(res[1]); err != nil {
			e.Fail("can't create iterator: %v", err)
			return "string", text
		}
		return "iterator", res[0].Interface()
	default:
		return "data error reader", iotest.DataErrReader(strings.NewReader(text))
	}
}

func checkRoundTrip(e *Env) {
	e.eachType(func(w *World, t *spec.Type, key string) {
		trip := func(r *rand.Rand, o *O) {
			x := o.MustBuild(r)
			text, err := w.marshal(t, x)
			if err != nil {
				e.Fail("can't marshal: %v", err)
				return
			}
			tree, err := ParseTree([]byte(text))
			if err != nil {
				e.Fail("marshalled text isn't valid: %v: %s", err, text)
				return
			}
			if d := DiffTree("$", o.Tree(), tree); d != "" {
				e.Fail("marshalled text: %s", d)
				return
			}
			texts := []string{text, Text(r, o.Tree(), nil)}
			if r.Intn(100) == 0 {
				texts = append(texts, padded(text, 1<<uint(12+r.Intn(9))))
				e.Count("large documents", 1)
			}
			for _, s := range texts {
				name, src := e.source(r, s)
				y, err := w.unmarshal(t, src)
				if err != nil {
					e.Fail("can't unmarshal from %s: %v: %s", name, err, s)
					return
				}
				if d := Diff(t.Name.ID, &V{Obj: o}, w.ObserveObject(y, t)); d != "" {
					e.Fail("unmarshalled from %s: %s", name, d)
					return
				}
				again, err := w.marshal(t, y)
				if err != nil || !o.sameText(text, again) {
					e.Fail("text is different after the round trip: %q but first was %q", again, text)
					return
				}
			}
			e.Count("documents", 3)
			e.Seen(o.Key())
		}
		e.Case(key+"/single", func(r *rand.Rand) {
			all := w.Object(r, t, 1, 1)
			for _, a := range t.Attrs {
				for _, v := range []*V{zeroVal(w.At(a), a.Type), w.At(a).Val(r, a.Type, 1)} {
					trip(r, &O{T: t, W: w, Attrs: map[string]*V{a.Name.ID: v}})
				}
				o := all.Clone()
				delete(o.Attrs, a.Name.ID)
				trip(r, o)
			}
			trip(r, &O{T: t, W: w, Attrs: map[string]*V{}})
			// Pairs of attributes, that exercise the separators:
			for i := range t.Attrs {
				j := (i + 1) % len(t.Attrs)
				o := &O{T: t, W: w, Attrs: map[string]*V{}}
				for _, k := range []int{i, j, 0, len(t.Attrs) - 1} {
					a := t.Attrs[k]
					o.Attrs[a.Name.ID] = w.At(a).Val(r, a.Type, 1)
				}
				trip(r, o)
			}
		})
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/roundtrip/%d", key, i), func(r *rand.Rand) {
				trip(r, w.Object(r, t, 3, r.Float64()))
			})
		}
		// Slices:
		if _, ok := e.Reg[key[:strings.LastIndex(key, "/")]+"/Marshal"+t.GoName()+"List"]; ok {
			e.Case(key+"/list", func(r *rand.Rand) {
				for i := 0; i < e.N; i++ {
					v := w.Val(r, spec.Ref{Kind: spec.List, Name: t.Name}, 2)
					sl := reflect.MakeSlice(reflect.SliceOf(w.Fn("type "+t.GoName()).Type()), 0, 0)
					for _, x := range v.List {
						sl = reflect.Append(sl, x.Obj.MustBuild(r))
					}
					e.listTrip(r, w, t.GoName(), v, sl, spec.Ref{Kind: spec.List, Name: t.Name})
				}
			})
		}
	})
	// Lists of scalars:
	for _, w := range e.Worlds {
		for _, name := range []string{"Boolean", "Integer", "Long", "Float", "String", "Date"} {
			if _, ok := e.Reg[w.S.Name.ID+"/"+w.V.Name.ID+"/Marshal"+name+"List"]; !ok {
				continue
			}
			w := w
			n := spec.MakeName(strings.ToLower(name))
			e.Case(w.S.Name.ID+"/"+w.V.Name.ID+"/list/"+name, func(r *rand.Rand) {
				for i := 0; i < e.N; i++ {
					ref := spec.Ref{Kind: spec.List, Name: n}
					v := w.Val(r, ref, 2)
					st := w.Fn("Marshal" + n.ID + "List").Type().In(0)
					sl := reflect.MakeSlice(st, 0, 0)
					for _, x := range v.List {
						sl = reflect.Append(sl, GoScalar(x.Scalar, st.Elem()))
					}
					e.listTrip(r, w, n.ID, v, sl, ref)
				}
			})
		}
	}
	// Failures of the writer have to be reported:
	e.eachType(func(w *World, t *spec.Type, key string) {
		e.Case(key+"/bad writer", func(r *rand.Rand) {
			x := w.Object(r, t, 2, 0.7).MustBuild(r)
			res := w.Fn("Marshal" + t.GoName()).Call([]reflect.Value{x, reflect.ValueOf(badWriter{})})
			if res[0].IsNil() {
				e.Fail("failure of the writer isn't reported")
			}
			text, err := w.marshal(t, x)
			if err != nil {
				e.Fail("can't marshal: %v", err)
				return
			}
			for i := 0; i < 3; i++ {
				bad := &fullWriter{room: r.Intn(len(text))}
				if w.Fn("Marshal" + t.GoName()).Call([]reflect.Value{x, reflect.ValueOf(bad)})[0].IsNil() {
					e.Fail("failure of the writer after %d bytes isn't reported", bad.room)
				}
			}
			if f, ok := e.Reg[key[:strings.LastIndex(key, "/")]+"/Marshal"+t.GoName()+"List"]; ok {
				sl := reflect.Append(reflect.MakeSlice(reflect.SliceOf(x.Type()), 0, 0), x, x)
				for _, bad := range []io.Writer{badWriter{}, &fullWriter{room: r.Intn(len(text))}} {
					if reflect.ValueOf(f).Call([]reflect.Value{sl, reflect.ValueOf(bad)})[0].IsNil() {
						e.Fail("failure of the writer of the list isn't reported")
					}
				}
			}
			e.Count("failing writers", 4)
		})
	})
	for _, w := range e.Worlds {
		w := w
		e.Case(w.Pkg()+"/metadata", func(r *rand.Rand) {
			for _, text := range []string{"{}", `{"server_version":""}`, `{"server_version":"1.2.3"}`, fmt.Sprintf(`{"server_version":%s}`, quoted(randText(r)))} {
				want, err := ParseTree([]byte(text))
				if err != nil {
					panic("harness: " + err.Error())
				}
				name, src := e.source(r, Text(r, want, nil))
				x, err := w.unmarshalFrom("UnmarshalMetadata", src)
				if err != nil {
					e.Fail("can't unmarshal metadata from %s: %v: %s", name, err, text)
					return
				}
				version, ok := want.(map[string]interface{})["server_version"]
				got := Method(x, "GetServerVersion").Call(nil)
				if got[1].Bool() != ok || ok && (got[0].String() != version.(string) || Method(x, "ServerVersion").Call(nil)[0].String() != version.(string)) {
					e.Fail("server version from %s is %v, %v", text, got[0], got[1])
				}
				var buf bytes.Buffer
				if err := errOf(w.Fn("MarshalMetadata").Call([]reflect.Value{x, reflect.ValueOf(&buf)})[0]); err != nil {
					e.Fail("can't marshal metadata: %v", err)
					return
				}
				tree, err := ParseTree(buf.Bytes())
				if err != nil {
					e.Fail("marshalled metadata isn't valid: %v: %s", err, buf.String())
					return
				}
				if d := DiffTree("metadata", want, tree); d != "" {
					e.Fail("marshalled metadata: %s", d)
				}
				if w.Fn("MarshalMetadata").Call([]reflect.Value{x, reflect.ValueOf(badWriter{})})[0].IsNil() {
					e.Fail("failure of the writer of metadata isn't reported")
				}
				e.Count("documents", 1)
			}
			e.Seen("metadata")
		})
	}
}

func quoted(s string) string {
	data, err := json.Marshal(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(data)
}

// fullWriter fails after a number of bytes.
type fullWriter struct {
	room int
	used int
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if w.used+len(p) > w.room {
		n := w.room - w.used
		w.used = w.room
		return n, errors.New("writer is full")
	}
	w.used += len(p)
	return len(p), nil
}

type badWriter struct{}

func (badWriter) Write([]byte) (int, error) { return 0, errors.New("bad writer") }

func (e *Env) listTrip(r *rand.Rand, w *World, name string, v *V, sl reflect.Value, ref spec.Ref) {
	var buf bytes.Buffer
	res := w.Fn("Marshal" + name + "List").Call([]reflect.Value{sl, reflect.ValueOf(&buf)})
	if err := errOf(res[0]); err != nil {
		e.Fail("can't marshal list: %v", err)
		return
	}
	tree, err := ParseTree(buf.Bytes())
	if err != nil {
		e.Fail("marshalled list isn't valid: %v: %s", err, buf.String())
		return
	}
	if d := DiffTree("$", v.Tree(), tree); d != "" {
		e.Fail("marshalled list: %s", d)
		return
	}
	for _, s := range []string{buf.String(), Text(r, v.Tree(), nil)} {
		_, src := e.source(r, s)
		y, err := w.unmarshalFrom("Unmarshal"+name+"List", src)
		if err != nil {
			e.Fail("can't unmarshal list: %v", err)
			return
		}
		if d := Diff(name, v, w.ObserveRef(y, ref, false)); d != "" {
			e.Fail("unmarshalled list: %s", d)
			return
		}
	}
	e.Count("lists", 2)
	e.Seen(fmt.Sprintf("list/%s/%d", name, len(v.List)))
}

func junkMaker(r *rand.Rand, forbidden map[string]bool) func() string {
	return func() string {
		keys := []string{"unknown", "", "Unknown_Field", "x-y", "zzz", "kind2", "ID", "Kind", "HREF", "ítem", "a b", "items2", "null", "$ref"}
		k := keys[r.Intn(len(keys))]
		for forbidden[k] {
			k += "_"
		}
		vals := []string{"null", "true", "false", "0", "-1.5e+10", `""`, `"text \" \\ \u0041"`, "[]", "{}", `[1,"a",null,{"b":[]}]`,
			`{"kind":"X","id":"1","items":[{"kind":"Y"}],"nested":{"deep":{"deeper":[[[]]]}}}`, "123456789012345678901234567890",
			strings.Repeat("[", 200) + strings.Repeat("]", 200), strings.Repeat(`{"a":`, 50) + "1" + strings.Repeat("}", 50), `"` + strings.Repeat("x", 9000) + `"`}
		return fmt.Sprintf("%q: %s", k, vals[r.Intn(len(vals))])
	}
}

func (w *World) wireNames(t *spec.Type) map[string]bool {
	m := map[string]bool{"kind": true, "id": true, "href": true, "items": true}
	for _, x := range w.All.Worlds {
		for _, t := range x.V.Types {
			for _, a := range t.Attrs {
				m[a.WireName()] = true
			}
		}
	}
	return m
}

// wrong returns JSON texts that are not acceptable for the type.
func (w *World) wrong(ref spec.Ref, link bool) []string {
	switch {
	case ref.Kind == spec.List && link:
		return []string{`"x"`, "1", "true", "[]", `{"items": {}}`, `{"items": 1}`, `{"items": [1]}`, `{"href": 1}`, "}", `{"items": ]}`, `{"items": [{}[{}]}`, `{"items": [{} {}]}`}
	case ref.Kind == spec.List:
		r := []string{`"x"`, "1", "true", "{}", "]", ",null]", "[,]", "[null,]", "[null[null]", "[null null]"}
		for _, x := range w.wrong(spec.Ref{Kind: spec.Plain, Name: ref.Name}, false) {
			r = append(r, "["+x+"]")
		}
		return r
	case ref.Kind == spec.Map:
		r := []string{`"x"`, "1", "true", "[]", "}", "{,}", `{"k" null}`, `{"k":null "j":null}`, `{"k":null,}`, `{"k":}`}
		for _, x := range w.wrong(spec.Ref{Kind: spec.Plain, Name: ref.Name}, false) {
			r = append(r, `{"k":`+x+"}")
		}
		return r
	case w.V.IsObject(ref.Name):
		return []string{`"x"`, "1", "true", "[]", "}", "{,}", `{"k" null}`, `{"k":null "j":null}`, `{"k":null,}`}
	}
	switch ref.Name.ID {
	case "Boolean":
		return []string{`"true"`, "1", "{}", "[]", "tru"}
	case "Integer", "Long":
		return []string{`"1"`, "true", "1.5", "{}", "[]", "99999999999999999999999"}
	case "Float":
		return []string{`"1.5"`, "true", "{}", "[]", "1.5.5"}
	case "Date":
		return []string{`"not a date"`, `""`, `"2020-13-45T00:00:00Z"`, `"2020-01-01"`, "1", "true", "{}", "[]"}
	case "Interface":
		return []string{"tru", "{]", "[1", `"x`}
	}
	return []string{"1", "true", "{}", "[]", `"unterminated`}
}

func checkHostileJSON(e *Env) {
	hostileLists(e)
	e.eachType(func(w *World, t *spec.Type, key string) {
		forbidden := w.wireNames(t)
		e.Case(key+"/unknown", func(r *rand.Rand) {
			for i := 0; i < e.N; i++ {
				o := w.Object(r, t, 2, 0.5)
				text := Text(r, o.Tree(), junkMaker(r, forbidden))
				name, src := e.source(r, text)
				y, err := w.unmarshal(t, src)
				if err != nil {
					e.Fail("unknown fields, from %s: %v: %.300s", name, err, text)
					return
				}
				if d := Diff(t.Name.ID, &V{Obj: o}, w.ObserveObject(y, t)); d != "" {
					e.Fail("unknown fields change the result: %s: %.300s", d, text)
					return
				}
				e.Count("documents with unknown fields", 1)
				e.Seen("unknown:" + o.Key())
			}
		})
		e.Case(key+"/truncated", func(r *rand.Rand) {
			for i := 0; i < 1+e.N/4; i++ {
				o := w.Object(r, t, 2, 0.5)
				x, err := w.marshal(t, o.MustBuild(r))
				if err != nil {
					e.Fail("can't marshal: %v", err)
					return
				}
				x = strings.TrimSpace(x)
				step := 1 + len(x)/400
				for k := 0; k < len(x); k += step {
					name, src := e.source(r, x[:k])
					if _, err := w.unmarshal(t, src); err == nil {
						e.Fail("truncated text is accepted from %s: %q", name, x[:k])
						return
					}
					if k%7 == 0 {
						bad := io.MultiReader(strings.NewReader(x[:k]), iotest.ErrReader(errors.New("broken reader")))
						if _, err := w.unmarshal(t, bad); err == nil {
							e.Fail("failure of the reader isn't reported after %q", x[:k])
							return
						}
					}
					e.Count("truncated documents", 1)
				}
				e.Seen("truncated:" + o.Key())
			}
		})
		e.Case(key+"/wrong", func(r *rand.Rand) {
			for _, a := range t.Attrs {
				for _, bad := range w.At(a).wrong(a.Type, a.Link) {
					texts := []string{fmt.Sprintf("{%q: %s}", a.WireName(), bad)}
					o := w.Object(r, t, 1, 0.4)
					delete(o.Attrs, a.Name.ID)
					rest := strings.TrimSpace(Text(r, o.Tree(), nil))
					if rest != "{}" && strings.HasPrefix(rest, "{") && len(o.Tree().(Typed)) > 0 {
						texts = append(texts, fmt.Sprintf("{%q: %s,%s", a.WireName(), bad, rest[1:]))
					}
					for _, text := range texts {
						name, src := e.source(r, text)
						if _, err := w.unmarshal(t, src); err == nil {
							e.Fail("wrong value for %s is accepted from %s: %.200s", a.Name.ID, name, text)
							return
						}
						e.Count("documents with wrong values", 1)
					}
				}
				e.Seen("wrong:" + key + "." + a.Name.ID)
			}
			for _, text := range []string{"", " ", "[]", `"x"`, "1", "true", "{", "not json", "{]", "}", ",", "]", `,"a":1}`, `"a":1}`, ":", `{"a"}`, `{"a":}`, `{"a":1,}`, "\xff\xfe", `{a:1}`, `{'a':1}`} {
				if _, err := w.unmarshal(t, text); err == nil {
					e.Fail("text %q is accepted", text)
				}
			}
			if t.Kind == spec.Class {
				for _, text := range []string{`{"id":1}`, `{"href":true}`, `{"kind":{}}`} {
					if _, err := w.unmarshal(t, text); err == nil {
						e.Fail("text %q is accepted", text)
					}
				}
			}
			for _, src := range []interface{}{1, nil, struct{}{}, []string{"{}"}, 1.5, map[string]string{}} {
				if _, err := w.unmarshal(t, src); err == nil {
					e.Fail("source of type %T is accepted", src)
				}
			}
		})
		e.Case(key+"/mutated", func(r *rand.Rand) {
			for i := 0; i < e.N*4; i++ {
				o := w.Object(r, t, 2, 0.5)
				text := []byte(Text(r, o.Tree(), junkMaker(r, forbidden)))
				for k := 0; k < 1+r.Intn(4) && len(text) > 0; k++ {
					p := r.Intn(len(text))
					switch r.Intn(3) {
					case 0:
						text[p] = byte(r.Intn(256))
					case 1:
						text = append(text[:p], text[p+1:]...)
					default:
						text = append(text[:p], append([]byte{`{}[]",:0tfn\`[r.Intn(12)]}, text[p:]...)...)
					}
				}
				// The only requirement here is that it doesn't crash:
				_, err := w.unmarshal(t, text)
				if err != nil {
					e.Count("mutated documents rejected", 1)
				} else {
					e.Count("mutated documents accepted", 1)
				}
			}
		})
	})
}

// hostileLists is like checkHostileJSON, but for the readers of lists and of metadata.
func hostileLists(e *Env) {
	e.eachType(func(w *World, t *spec.Type, key string) {
		if _, ok := e.Reg[key[:strings.LastIndex(key, "/")]+"/Unmarshal"+t.GoName()+"List"]; !ok {
			return
		}
		forbidden := w.wireNames(t)
		ref := spec.Ref{Kind: spec.List, Name: t.Name}
		fn := "Unmarshal" + t.GoName() + "List"
		e.Case(key+"/lists", func(r *rand.Rand) {
			for i := 0; i < e.N; i++ {
				v := w.Val(r, ref, 1)
				text := Text(r, v.Tree(), junkMaker(r, forbidden))
				name, src := e.source(r, text)
				y, err := w.unmarshalFrom(fn, src)
				if err != nil {
					e.Fail("list with unknown fields, from %s: %v: %.300s", name, err, text)
					return
				}
				if d := Diff(t.Name.ID, v, w.ObserveRef(y, ref, false)); d != "" {
					e.Fail("unknown fields change the list: %s: %.300s", d, text)
					return
				}
				e.Count("documents with unknown fields", 1)
			}
			text := strings.TrimSpace(Text(r, w.Val(r, ref, 1).Tree(), nil))
			for k := 0; k < len(text); k += 1 + len(text)/100 {
				name, src := e.source(r, text[:k])
				if _, err := w.unmarshalFrom(fn, src); err == nil {
					e.Fail("truncated list is accepted from %s: %q", name, text[:k])
					return
				}
				if k%7 == 0 {
					bad := io.MultiReader(strings.NewReader(text[:k]), iotest.ErrReader(errors.New("broken reader")))
					if _, err := w.unmarshalFrom(fn, bad); err == nil {
						e.Fail("failure of the reader of lists isn't reported after %q", text[:k])
						return
					}
				}
				e.Count("truncated documents", 1)
			}
			for _, text := range []string{"", " ", "{}", `"x"`, "1", "true", "[", "[1]", `["x"]`, "[[]]", "[{]", "[{},]", "[{} {}]", "[{}[{}]", ",{}]", "[{} null", "not json", "]", "[,]", "[true]", "\xff"} {
				name, src := e.source(r, text)
				if _, err := w.unmarshalFrom(fn, src); err == nil {
					e.Fail("text %q is accepted as list from %s", text, name)
				}
				e.Count("documents with wrong values", 1)
			}
			for _, src := range []interface{}{1, nil, struct{}{}, []string{"[]"}} {
				if _, err := w.unmarshalFrom(fn, src); err == nil {
					e.Fail("source of type %T is accepted for a list", src)
				}
			}
			e.Seen("lists:" + key)
		})
	})
	for _, w := range e.Worlds {
		w := w
		e.Case(w.Pkg()+"/metadata", func(r *rand.Rand) {
			junk := junkMaker(r, map[string]bool{"server_version": true})
			for i := 0; i < e.N; i++ {
				text := Text(r, Typed{"server_version": "1.2.3"}, junk)
				_, src := e.source(r, text)
				x, err := w.unmarshalFrom("UnmarshalMetadata", src)
				if err != nil || Method(x, "ServerVersion").Call(nil)[0].String() != "1.2.3" {
					e.Fail("metadata with unknown fields: %v: %.300s", err, text)
				}
			}
			for _, text := range []string{"", "[]", "1", `"x"`, "{", `{"server_version":1}`, `{"server_version":{}}`, `{"server_version":"1`, `{"server_version"}`, "x"} {
				_, src := e.source(r, text)
				if _, err := w.unmarshalFrom("UnmarshalMetadata", src); err == nil {
					e.Fail("text %q is accepted as metadata", text)
				}
				e.Count("documents with wrong values", 1)
			}
			if _, err := w.unmarshalFrom("UnmarshalMetadata", 1); err == nil {
				e.Fail("number is accepted as source of metadata")
			}
			e.Seen("metadata")
		})
	}
}

func checkLists(e *Env) {
	e.eachType(func(w *World, t *spec.Type, key string) {
		listType := w.Fn("type " + t.GoName() + "List").Type()
		verify := func(what string, l reflect.Value, items []reflect.Value, vals []*V) {
			n := len(items)
			if got := Method(l, "Len").Call(nil)[0].Int(); int(got) != n {
				e.Fail("%s: expected length %d but got %d", what, n, got)
			}
			if got := Method(l, "Empty").Call(nil)[0].Bool(); got != (n == 0) {
				e.Fail("%s: empty is %v with %d items", what, got, n)
			}
			for _, i := range []int{-1 << 62, -2, -1, 0, 1, 2, n - 1, n, n + 1, 1 << 40} {
				got := Method(l, "Get").Call([]reflect.Value{reflect.ValueOf(i)})[0]
				if i < 0 || i >= n {
					if !got.IsNil() {
						e.Fail("%s: item %d of %d isn't nil", what, i, n)
					}
				} else if got.Pointer() != items[i].Pointer() {
					e.Fail("%s: item %d of %d is wrong", what, i, n)
				}
			}
			same := func(name string, s reflect.Value) {
				if s.Len() != n {
					e.Fail("%s: %s has %d items instead of %d", what, name, s.Len(), n)
					return
				}
				for i := 0; i < n; i++ {
					if s.Index(i).Pointer() != items[i].Pointer() {
						e.Fail("%s: item %d of %s is wrong", what, i, name)
					}
				}
			}
			same("items", Method(l, "Items").Call(nil)[0])
			slice := Method(l, "Slice").Call(nil)[0]
			if slice.IsNil() {
				e.Fail("%s: slice is nil", what)
			}
			same("slice", slice)
			// Changing the slice doesn't change the list:
			for i := 0; i < n; i++ {
				slice.Index(i).Set(reflect.Zero(slice.Type().Elem()))
			}
			same("items after changing the slice", Method(l, "Items").Call(nil)[0])
			// Iteration, stopping at each position:
			for stop := 0; stop <= n+1; stop++ {
				var seen []uintptr
				each := Method(l, "Each")
				f := reflect.MakeFunc(each.Type().In(0), func(args []reflect.Value) []reflect.Value {
					seen = append(seen, args[0].Pointer())
					return []reflect.Value{reflect.ValueOf(len(seen) != stop)}
				})
				each.Call([]reflect.Value{f})
				want := n
				if stop > 0 && stop < n {
					want = stop
				}
				ok := len(seen) == want
				for i := 0; ok && i < want; i++ {
					ok = seen[i] == items[i].Pointer()
				}
				if !ok {
					e.Fail("%s: iteration over %d items stopping at %d visits %d", what, n, stop, len(seen))
				}
				seen = nil
				idx := []int{}
				rng := Method(l, "Range")
				f = reflect.MakeFunc(rng.Type().In(0), func(args []reflect.Value) []reflect.Value {
					idx = append(idx, int(args[0].Int()))
					seen = append(seen, args[1].Pointer())
					return []reflect.Value{reflect.ValueOf(len(seen) != stop)}
				})
				rng.Call([]reflect.Value{f})
				ok = len(seen) == want
				for i := 0; ok && i < want; i++ {
					ok = seen[i] == items[i].Pointer() && idx[i] == i
				}
				if !ok {
					e.Fail("%s: range over %d items stopping at %d visits %d", what, n, stop, len(seen))
				}
				e.Count("iterations", 2)
			}
			for i, x := range items {
				if d := Diff(t.Name.ID, vals[i], w.ObserveObject(x, t)); d != "" {
					e.Fail("%s: item %d: %s", what, i, d)
				}
			}
			e.Count("lists", 1)
		}
		e.Case(key+"/nil list", func(r *rand.Rand) {
			l := reflect.Zero(listType)
			verify("nil list", l, nil, nil)
			if t.Kind == spec.Class {
				if k := Method(l, "Kind").Call(nil)[0].String(); k != t.GoName()+"ListNil" {
					e.Fail("kind of nil list is %q", k)
				}
				if Method(l, "Link").Call(nil)[0].Bool() || Method(l, "HREF").Call(nil)[0].String() != "" || Method(l, "GetHREF").Call(nil)[1].Bool() {
					e.Fail("nil list has link or href")
				}
			}
			verify("zero list", reflect.New(listType.Elem()), nil, nil)
		})
		for i := 0; i < e.N; i++ {
			n := i
			density := 0.4
			if i > 5 {
				n = i * 3
			}
			if i >= 5 && i == e.N-1 {
				n, density = 300, 0.1
			}
			e.Case(fmt.Sprintf("%s/list/%d", key, i), func(r *rand.Rand) {
				var vals []*V
				for j := 0; j < n; j++ {
					vals = append(vals, &V{Obj: w.Object(r, t, 1, density)})
				}
				// Built with the builder:
				lb := w.ListBuilder(r, t, vals)
				if got := Method(lb, "Empty").Call(nil)[0].Bool(); got != (n == 0) {
					e.Fail("list builder: empty is %v with %d items", got, n)
				}
				l, err := Build(lb)
				if err != nil {
					e.Fail("can't build list: %v", err)
					return
				}
				items := func(l reflect.Value) []reflect.Value {
					s := Method(l, "Items").Call(nil)[0]
					var r []reflect.Value
					for i := 0; i < s.Len(); i++ {
						r = append(r, s.Index(i))
					}
					return r
				}
				its := items(l)
				if len(its) != n {
					e.Fail("built list has %d items instead of %d", len(its), n)
					return
				}
				verify("built list", l, its, vals)
				// Copied:
				other := w.ListBuilder(r, t, []*V{{Obj: w.Object(r, t, 1, 0.4)}})
				Method(other, "Copy").Call([]reflect.Value{l})
				c, err := Build(other)
				if err != nil {
					e.Fail("can't build list: %v", err)
					return
				}
				cits := items(c)
				if len(cits) != n {
					e.Fail("copied list has %d items instead of %d", len(cits), n)
					return
				}
				verify("copied list", c, cits, vals)
				for j := range cits {
					if cits[j].Pointer() == its[j].Pointer() {
						e.Fail("copied list shares item %d with the original", j)
					}
				}
				// The items of the builder can be changed without changing the list:
				Method(lb, "Items").Call(nil)
				mutateValue(r, w, spec.Ref{Kind: spec.List, Name: t.Name}, c, 0)
				verify("list after changing the builder and the copy", l, its, vals)
				// Set directly:
				d := reflect.New(listType.Elem())
				Method(d, "SetItems").Call([]reflect.Value{Method(l, "Slice").Call(nil)[0]})
				verify("list with items set", d, its, vals)
				link := r.Intn(2) == 0
				Method(d, "SetLink").Call([]reflect.Value{reflect.ValueOf(link)})
				href := []string{"", "/my/href"}[r.Intn(2)]
				Method(d, "SetHREF").Call([]reflect.Value{reflect.ValueOf(href)})
				verify("list with items, link and href set", d, its, vals)
				if t.Kind == spec.Class {
					kind := t.GoName() + "List"
					if link {
						kind += "Link"
					}
					if k := Method(d, "Kind").Call(nil)[0].String(); k != kind {
						e.Fail("expected list kind %q but got %q", kind, k)
					}
					if Method(d, "Link").Call(nil)[0].Bool() != link {
						e.Fail("wrong link flag of list")
					}
					if Method(d, "HREF").Call(nil)[0].String() != href {
						e.Fail("wrong href of list")
					}
					res := Method(d, "GetHREF").Call(nil)
					if res[1].Bool() != (href != "") || res[0].String() != href {
						e.Fail("wrong href of list")
					}
				}
				e.Seen(fmt.Sprintf("%s/%d/%v", key, n, link))
			})
		}
	})
	// List links read from JSON:
	e.eachType(func(w *World, t *spec.Type, key string) {
		for _, a := range t.Attrs {
			if !a.Link || a.Type.Kind != spec.List {
				continue
			}
			a := a
			e.Case(key+"/link/"+a.Name.ID, func(r *rand.Rand) {
				for i := 0; i < e.N; i++ {
					aw := w.At(a)
					et := aw.Of(a.Type.Name)
					v := aw.Val(r, a.Type, 1)
					link := r.Intn(2) == 0
					kind := et.GoName() + "List"
					if link {
						kind += "Link"
					}
					href := []string{"", "/my/href", "/my/ñ\"href"}[r.Intn(3)]
					list := Typed{"kind": kind, "items": v.Tree()}
					if href != "" {
						list["href"] = href
					}
					tree := Typed{a.WireName(): list}
					y, err := w.unmarshal(t, Text(r, tree, junkMaker(r, w.wireNames(t))))
					if err != nil {
						e.Fail("can't unmarshal list link: %v", err)
						return
					}
					l := Method(y, a.GoName()).Call(nil)[0]
					if d := Diff(a.Name.ID, v, aw.ObserveRef(l, a.Type, true)); d != "" {
						e.Fail("list link: %s", d)
					}
					if et.Kind == spec.Class {
						if k := Method(l, "Kind").Call(nil)[0].String(); k != kind {
							e.Fail("expected list link kind %q but got %q", kind, k)
						}
						if h := Method(l, "HREF").Call(nil)[0].String(); h != href {
							e.Fail("wrong href of list link %q", h)
						}
						// The link is preserved when the object is written or copied:
						text, err := w.marshal(t, y)
						if err != nil {
							e.Fail("can't marshal list link: %v", err)
							return
						}
						again, err := w.unmarshal(t, text)
						if err != nil {
							e.Fail("can't unmarshal list link: %v: %s", err, text)
							return
						}
						copied, err := Build(Method(w.Fn("New" + t.GoName()).Call(nil)[0], "Copy").Call([]reflect.Value{y})[0])
						if err != nil {
							e.Fail("can't copy list link: %v", err)
							return
						}
						for what, z := range map[string]reflect.Value{"written": again, "copied": copied} {
							x := Method(z, a.GoName()).Call(nil)[0]
							if k := Method(x, "Kind").Call(nil)[0].String(); k != kind {
								e.Fail("kind of list link is %q instead of %q after being %s", k, kind, what)
							}
							if h := Method(x, "HREF").Call(nil)[0].String(); h != href {
								e.Fail("href of list link is %q instead of %q after being %s", h, href, what)
							}
							if d := Diff(a.Name.ID, v, aw.ObserveRef(x, a.Type, true)); d != "" {
								e.Fail("list link after being %s: %s", what, d)
							}
						}
					}
					e.Count("list links", 1)
				}
			})
		}
	})
}
