// Package drv contains the monitors that drive the generated code through its public interface and
// compare what they observe with a reference model. It uses reflection, so that it can be linked
// with the code generated from any model.
package drv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/spec"
)

// V is a reference value.
type V struct {
	Nil    bool
	Scalar interface{}
	Obj    *O
	List   []*V
	Map    map[string]*V
}

// O is a reference object. Absent attributes aren't in the map.
type O struct {
	T     *spec.Type
	W     *World // Version that the type belongs to
	Link  bool
	ID    *string
	HREF  *string
	Attrs map[string]*V
}

// World is a version of a service, together with the generated functions.
type World struct {
	S   *spec.Service
	V   *spec.Version
	Reg map[string]interface{}
	All *Env
}

// Fn returns a registered function or value of the package of the version.
func (w *World) Fn(name string) reflect.Value {
	return w.All.Fn(w.Pkg() + "/" + name)
}

// Pkg returns the path of the Go package of the version, relative to the base.
func (w *World) Pkg() string {
	return w.S.Name.GoPackage() + "/" + w.V.Name.GoPackage()
}

// Fn returns a registered function or value.
func (e *Env) Fn(key string) reflect.Value {
	x, ok := e.Reg[key]
	if !ok {
		panic(Missing("the generated code doesn't have the expected name " + key))
	}
	return reflect.ValueOf(x)
}

// Objects returns the classes and structs of the version.
func (w *World) Objects() []*spec.Type {
	var r []*spec.Type
	for _, t := range w.V.Types {
		if t.Kind != spec.Enum {
			r = append(r, t)
		}
	}
	return r
}

// At returns the world where the type of the attribute is defined.
func (w *World) At(a *spec.Attr) *World {
	if a.Owner == "" {
		return w
	}
	return w.All.Find(a.Owner)
}

// Of finds the type, and the world it belongs to.
func (w *World) Of(n spec.Name) *spec.Type { return w.V.FindType(n) }

var textPool = []string{"", "a", "hello", "with space", "ñandú", "日本語", "😀 emoji", "\"quoted\"", "back\\slash",
	"line\nbreak", "tab\t", "<tag>&amp;", "\u0000\u0001\u001f", "\u2028\u2029", "/slash", "null", "true", "123", "{}", "'single'",
	strings.Repeat("long ", 1000), "\u007f", "%d%s", "a,b", "\uFFFD", "\r\n", "kind", "C:\\path", "\b\f"}

func randText(r *rand.Rand) string {
	if r.Intn(600) == 0 {
		// Around the size of the buffers used to read and write:
		return strings.Repeat("x", []int{100, 511, 512, 4090 + r.Intn(12), 4096, 8192, 20000}[r.Intn(7)])
	}
	if r.Intn(3) == 0 {
		n := r.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			c := rune(r.Intn(0x2fff))
			if r.Intn(3) > 0 {
				c = rune(32 + r.Intn(95))
			}
			if c >= 0xd800 && c <= 0xdfff {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return b.String()
	}
	return textPool[r.Intn(len(textPool))]
}

func randDate(r *rand.Rand) time.Time {
	switch r.Intn(8) {
	case 0:
		return time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)
	case 1:
		return time.Unix(0, 0).UTC()
	case 2:
		return time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	case 3:
		return time.Unix(r.Int63n(4000000000), 0).In(time.FixedZone("", (r.Intn(57)-28)*1800))
	}
	return time.Unix(r.Int63n(4000000000), 0).UTC()
}

// nz returns true when zero values should be produced.
func zero(r *rand.Rand) bool { return r.Intn(4) == 0 }

func randScalar(r *rand.Rand, w *World, n spec.Name) interface{} {
	if w != nil && w.All != nil && w.All.Strict {
		switch n.ID {
		case "Integer":
			return []int{0, 1, -1, r.Intn(1000), math.MaxInt32, math.MinInt32}[r.Intn(6)]
		case "Interface":
			return map[string]interface{}{randKey(r): randAny(r, 2)}
		}
		if t := w.Of(n); t != nil && len(t.Values) > 0 {
			return t.Values[r.Intn(len(t.Values))].WireName()
		}
	}
	switch n.ID {
	case "Boolean":
		return r.Intn(2) == 0
	case "Integer":
		if zero(r) {
			return 0
		}
		return []int{1, -1, r.Intn(1000), -r.Intn(1000), math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, int(r.Uint64())}[r.Intn(10)]
	case "Long":
		if zero(r) {
			return int64(0)
		}
		return []int64{1, -1, r.Int63n(1000), -r.Int63n(1000), math.MaxInt32, math.MaxInt64, math.MinInt64, 1<<53 + 1, int64(r.Uint64())}[r.Intn(9)]
	case "Float":
		if zero(r) {
			return 0.0
		}
		return []float64{1, -1, 0.5, 1.25, -2.75, 1e6, 123456.789, 0.001, 1e-7, 1e21, -1e21, r.Float64(), math.MaxFloat64, math.SmallestNonzeroFloat64, 100, 0.1, 1.0 / 3, math.Pi * 1e9, r.NormFloat64() * 1e5}[r.Intn(19)]
	case "String":
		return randText(r)
	case "Date":
		return randDate(r)
	case "Interface":
		return randAny(r, 2)
	}
	t := w.Of(n)
	if t == nil || len(t.Values) == 0 || r.Intn(4) == 0 {
		return []string{"", "unknown", "other value", randText(r)}[r.Intn(4)]
	}
	return t.Values[r.Intn(len(t.Values))].WireName()
}

func randAny(r *rand.Rand, depth int) interface{} {
	k := r.Intn(7)
	if depth == 0 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(100000)) / 4
	case 3, 4:
		return randText(r)
	case 5:
		l := []interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, randAny(r, depth-1))
		}
		return l
	default:
		m := map[string]interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			m[randKey(r)] = randAny(r, depth-1)
		}
		return m
	}
}

func randKey(r *rand.Rand) string {
	keys := []string{"", "a", "b", "key", "with space", "ñ", "quo\"te", "kind", "id", "items", "A", "z9", "\u2028", "back\\", "new\nline", "<&>"}
	if r.Intn(4) == 0 {
		return randText(r)
	}
	return keys[r.Intn(len(keys))]
}

// padded adds white space, which has no meaning, inside of an object, so that the text has more than the given size.
func padded(text string, size int) string {
	if i := strings.IndexByte(text, '{'); i >= 0 {
		return text[:i+1] + strings.Repeat(" \n", size/2) + text[i+1:]
	}
	return text
}

// Val creates a random value for the reference to a type.
func (w *World) Val(r *rand.Rand, ref spec.Ref, depth int) *V {
	if ref.Kind == spec.List {
		v := &V{List: []*V{}}
		for n := listLen(r, depth); n > 0; n-- {
			v.List = append(v.List, w.elem(r, ref.Name, depth-1))
		}
		return v
	}
	if ref.Kind == spec.Map {
		v := &V{Map: map[string]*V{}}
		for n := listLen(r, depth); n > 0; n-- {
			key := randKey(r)
			if _, ok := v.Map[key]; ok {
				key = fmt.Sprintf("%s %d", key, n)
			}
			v.Map[key] = w.elem(r, ref.Name, depth-1)
		}
		return v
	}
	return w.elem(r, ref.Name, depth)
}

func listLen(r *rand.Rand, depth int) int {
	if depth <= 1 && r.Intn(400) == 0 {
		return 100 + r.Intn(300)
	}
	if depth <= 1 && r.Intn(30) == 0 {
		return 10 + r.Intn(30)
	}
	return []int{0, 0, 1, 1, 1, 2, 2, 3, 4}[r.Intn(9)]
}

func (w *World) elem(r *rand.Rand, n spec.Name, depth int) *V {
	if w.V.IsObject(n) {
		d := 0.5
		if depth <= 0 {
			d = 0
		}
		return &V{Obj: w.Object(r, w.Of(n), depth-1, d)}
	}
	return &V{Scalar: randScalar(r, w, n)}
}

// Object creates a random object with the given density of attributes.
func (w *World) Object(r *rand.Rand, t *spec.Type, depth int, density float64) *O {
	o := &O{T: t, W: w, Attrs: map[string]*V{}}
	if t.Kind == spec.Class {
		o.Link = r.Intn(4) == 0
		if r.Float64() < density+0.2 {
			x := randText(r)
			o.ID = &x
		}
		if r.Float64() < density+0.2 {
			x := randText(r)
			o.HREF = &x
		}
	}
	for _, a := range t.Attrs {
		if r.Float64() < density {
			aw := w.At(a)
			if depth <= 0 && aw.V.IsObject(a.Type.Name) && r.Intn(3) > 0 {
				continue
			}
			o.Attrs[a.Name.ID] = aw.Val(r, a.Type, depth)
		}
	}
	return o
}

// Clone makes a deep copy.
func (v *V) Clone() *V {
	if v == nil {
		return nil
	}
	c := *v
	if v.Obj != nil {
		c.Obj = v.Obj.Clone()
	}
	if v.List != nil {
		c.List = []*V{}
		for _, x := range v.List {
			c.List = append(c.List, x.Clone())
		}
	}
	if v.Map != nil {
		c.Map = map[string]*V{}
		for k, x := range v.Map {
			c.Map[k] = x.Clone()
		}
	}
	return &c
}

// Keys returns the keys of a map, sorted.
func (v *V) Keys() []string {
	var keys []string
	for k := range v.Map {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Clone makes a deep copy.
func (o *O) Clone() *O {
	c := &O{T: o.T, W: o.W, Link: o.Link, ID: o.ID, HREF: o.HREF, Attrs: map[string]*V{}}
	for k, v := range o.Attrs {
		c.Attrs[k] = v.Clone()
	}
	return c
}

// GoScalar converts a scalar to a value of the given Go type.
func GoScalar(x interface{}, typ reflect.Type) reflect.Value {
	if typ.Kind() == reflect.Interface {
		v := reflect.New(typ).Elem()
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return v
	}
	v := reflect.ValueOf(x)
	if v.Type() != typ {
		if v.Kind() != typ.Kind() {
			panic(fmt.Sprintf("unexpected Go type %s for value of type %s", typ, v.Type()))
		}
		v = v.Convert(typ)
	}
	return v
}

// BuilderArgs calculates the arguments for the setter of the attribute.
func (w *World) BuilderArgs(r *rand.Rand, a *spec.Attr, v *V, setter reflect.Value) []reflect.Value {
	typ := setter.Type()
	w = w.At(a)
	obj := w.V.IsObject(a.Type.Name)
	switch {
	case a.Type.Kind == spec.List && a.Link:
		lb := w.ListBuilder(r, w.Of(a.Type.Name), v.List)
		return []reflect.Value{lb}
	case a.Type.Kind == spec.List:
		elem := typ.In(typ.NumIn() - 1).Elem()
		var args []reflect.Value
		for _, x := range v.List {
			if obj {
				args = append(args, x.Obj.Builder(r))
			} else {
				args = append(args, GoScalar(x.Scalar, elem))
			}
		}
		return args
	case a.Type.Kind == spec.Map:
		mt := typ.In(0)
		m := reflect.MakeMap(mt)
		for _, k := range v.Keys() {
			x := v.Map[k]
			if obj {
				m.SetMapIndex(reflect.ValueOf(k), x.Obj.Builder(r))
			} else {
				m.SetMapIndex(reflect.ValueOf(k), GoScalar(x.Scalar, mt.Elem()))
			}
		}
		return []reflect.Value{m}
	case obj:
		return []reflect.Value{v.Obj.Builder(r)}
	}
	return []reflect.Value{GoScalar(v.Scalar, typ.In(0))}
}

// ListBuilder creates a builder of lists.
func (w *World) ListBuilder(r *rand.Rand, t *spec.Type, items []*V) reflect.Value {
	lb := w.Fn("New" + t.GoName() + "List").Call(nil)[0]
	var args []reflect.Value
	for _, x := range items {
		args = append(args, x.Obj.Builder(r))
	}
	lb.MethodByName("Items").Call(args)
	return lb
}

// Method finds a method or fails in a way that is reported as violation.
func Method(v reflect.Value, name string) reflect.Value {
	m := v.MethodByName(name)
	if !m.IsValid() {
		panic(Missing(fmt.Sprintf("type %s doesn't have the expected method %s", v.Type(), name)))
	}
	return m
}

// Missing is the panic used when the generated code doesn't have an expected name.
type Missing string

// Builder creates a builder and calls all the setters, in random order, sometimes setting first some
// other value that is later overwritten.
func (o *O) Builder(r *rand.Rand) reflect.Value {
	b := o.W.Fn("New" + o.T.GoName()).Call(nil)[0]
	o.Fill(r, b)
	return b
}

// Fill calls the setters of the builder.
func (o *O) Fill(r *rand.Rand, b reflect.Value) {
	type step func()
	var steps []step
	if o.T.Kind == spec.Class {
		if o.ID != nil {
			steps = append(steps, func() { Method(b, "ID").Call([]reflect.Value{reflect.ValueOf(*o.ID)}) })
		}
		if o.HREF != nil {
			steps = append(steps, func() { Method(b, "HREF").Call([]reflect.Value{reflect.ValueOf(*o.HREF)}) })
		}
		if o.Link {
			steps = append(steps, func() { Method(b, "Link").Call([]reflect.Value{reflect.ValueOf(true)}) })
		}
	}
	for _, a := range o.T.Attrs {
		v, ok := o.Attrs[a.Name.ID]
		if !ok {
			continue
		}
		a := a
		steps = append(steps, func() {
			setter := Method(b, a.GoName())
			args := o.W.BuilderArgs(r, a, v, setter)
			res := setter.Call(args)
			if len(res) != 1 || res[0].Pointer() != b.Pointer() {
				panic("the setter " + a.GoName() + " doesn't return the builder")
			}
		})
	}
	for _, i := range r.Perm(len(steps)) {
		steps[i]()
	}
}

// Build calls the Build method.
func Build(b reflect.Value) (reflect.Value, error) {
	res := Method(b, "Build").Call(nil)
	if !res[1].IsNil() {
		return res[0], res[1].Interface().(error)
	}
	return res[0], nil
}

// MustBuild builds the object.
func (o *O) MustBuild(r *rand.Rand) reflect.Value {
	x, err := Build(o.Builder(r))
	if err != nil {
		panic("build failed: " + err.Error())
	}
	return x
}

var timeType = reflect.TypeOf(time.Time{})

// ObserveScalar converts a Go value into the reference scalar, checking its Go type.
func (w *World) ObserveScalar(x reflect.Value, n spec.Name) *V {
	want := reflect.Invalid
	switch n.ID {
	case "Boolean":
		want = reflect.Bool
	case "Integer":
		want = reflect.Int
	case "Long":
		want = reflect.Int64
	case "Float":
		want = reflect.Float64
	case "String":
		want = reflect.String
	case "Date":
		if x.Type() != timeType {
			panic(fmt.Sprintf("unexpected Go type %s for Date", x.Type()))
		}
		return &V{Scalar: x.Interface()}
	case "Interface":
		if x.Kind() == reflect.Interface && x.IsNil() {
			return &V{Scalar: nil}
		}
		return &V{Scalar: x.Interface()}
	default:
		if x.Kind() != reflect.String {
			panic(fmt.Sprintf("unexpected Go type %s for enum", x.Type()))
		}
		return &V{Scalar: x.String()}
	}
	if x.Kind() != want {
		panic(fmt.Sprintf("unexpected Go type %s for %s", x.Type(), n.ID))
	}
	return &V{Scalar: x.Interface()}
}

// ObserveRef observes a value of the given type.
func (w *World) ObserveRef(x reflect.Value, ref spec.Ref, link bool) *V {
	obj := w.V.IsObject(ref.Name)
	elem := func(y reflect.Value) *V {
		if obj {
			return w.ObserveObject(y, w.Of(ref.Name))
		}
		return w.ObserveScalar(y, ref.Name)
	}
	switch ref.Kind {
	case spec.List:
		if x.Kind() == reflect.Ptr {
			if x.IsNil() {
				return &V{Nil: true}
			}
			x = Method(x, "Slice").Call(nil)[0]
		}
		if x.Kind() != reflect.Slice {
			panic(fmt.Sprintf("unexpected Go type %s for list", x.Type()))
		}
		if x.IsNil() {
			return &V{Nil: true}
		}
		v := &V{List: []*V{}}
		for i := 0; i < x.Len(); i++ {
			v.List = append(v.List, elem(x.Index(i)))
		}
		return v
	case spec.Map:
		if x.Kind() != reflect.Map {
			panic(fmt.Sprintf("unexpected Go type %s for map", x.Type()))
		}
		if x.IsNil() {
			return &V{Nil: true}
		}
		v := &V{Map: map[string]*V{}}
		for _, k := range x.MapKeys() {
			v.Map[k.String()] = elem(x.MapIndex(k))
		}
		return v
	}
	return elem(x)
}

// ObserveObject observes an object using only the getters.
func (w *World) ObserveObject(x reflect.Value, t *spec.Type) *V {
	if x.IsNil() {
		return &V{Nil: true}
	}
	o := &O{T: t, W: w, Attrs: map[string]*V{}}
	if t.Kind == spec.Class {
		o.Link = Method(x, "Link").Call(nil)[0].Bool()
		if res := Method(x, "GetID").Call(nil); res[1].Bool() {
			s := res[0].String()
			o.ID = &s
		}
		if res := Method(x, "GetHREF").Call(nil); res[1].Bool() {
			s := res[0].String()
			o.HREF = &s
		}
	}
	for _, a := range t.Attrs {
		res := Method(x, "Get"+a.GoName()).Call(nil)
		if res[1].Bool() {
			o.Attrs[a.Name.ID] = w.At(a).ObserveRef(res[0], a.Type, a.Link)
		}
	}
	return &V{Obj: o}
}

// Diff compares two values and returns a description of the first difference, or an empty string.
func Diff(path string, a, b *V) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: expected %s but got %s", path, a, b)
	}
	if a.Nil != b.Nil {
		return fmt.Sprintf("%s: expected %s but got %s", path, a, b)
	}
	if a.Nil {
		return ""
	}
	switch {
	case a.Obj != nil:
		if b.Obj == nil {
			return fmt.Sprintf("%s: expected object", path)
		}
		return DiffObj(path, a.Obj, b.Obj)
	case a.List != nil:
		if b.List == nil || len(a.List) != len(b.List) {
			return fmt.Sprintf("%s: expected list of %d items but got %s", path, len(a.List), b)
		}
		for i := range a.List {
			if d := Diff(fmt.Sprintf("%s[%d]", path, i), a.List[i], b.List[i]); d != "" {
				return d
			}
		}
		return ""
	case a.Map != nil:
		if b.Map == nil || len(a.Map) != len(b.Map) {
			return fmt.Sprintf("%s: expected map of %d entries but got %s", path, len(a.Map), b)
		}
		for k := range a.Map {
			if d := Diff(fmt.Sprintf("%s[%q]", path, k), a.Map[k], b.Map[k]); d != "" {
				return d
			}
		}
		return ""
	}
	if !scalarEqual(a.Scalar, b.Scalar) {
		return fmt.Sprintf("%s: expected %s but got %s", path, short(a.Scalar), short(b.Scalar))
	}
	return ""
}

func scalarEqual(a, b interface{}) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

func short(x interface{}) string {
	s := fmt.Sprintf("%T(%v)", x, x)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return strconv.Quote(s)
}

func (v *V) String() string {
	switch {
	case v == nil:
		return "absent"
	case v.Nil:
		return "nil"
	case v.Obj != nil:
		return "object " + v.Obj.T.Name.ID
	case v.List != nil:
		return fmt.Sprintf("list of %d", len(v.List))
	case v.Map != nil:
		return fmt.Sprintf("map of %d", len(v.Map))
	}
	return short(v.Scalar)
}

// DiffObj compares two objects.
func DiffObj(path string, a, b *O) string {
	if a.Link != b.Link {
		return fmt.Sprintf("%s: expected link flag %v but got %v", path, a.Link, b.Link)
	}
	sp := func(s *string) string {
		if s == nil {
			return "absent"
		}
		return short(*s)
	}
	if sp(a.ID) != sp(b.ID) {
		return fmt.Sprintf("%s: expected id %s but got %s", path, sp(a.ID), sp(b.ID))
	}
	if sp(a.HREF) != sp(b.HREF) {
		return fmt.Sprintf("%s: expected href %s but got %s", path, sp(a.HREF), sp(b.HREF))
	}
	for _, at := range a.T.Attrs {
		if d := Diff(path+"."+at.Name.ID, a.Attrs[at.Name.ID], b.Attrs[at.Name.ID]); d != "" {
			return d
		}
	}
	return ""
}

// Key returns a string that identifies the shape of the object: which attributes are present.
func (o *O) Key() string {
	var parts []string
	for k, v := range o.Attrs {
		s := k
		switch {
		case v.List != nil && len(v.List) == 0, v.Map != nil && len(v.Map) == 0:
			s += "0"
		case v.List != nil, v.Map != nil:
			s += "+"
		}
		parts = append(parts, s)
	}
	sort.Strings(parts)
	return fmt.Sprintf("%s/%s/%s:%v%v%v:%s", o.W.S.Name.ID, o.W.V.Name.ID, o.T.Name.ID, o.Link, o.ID != nil, o.HREF != nil, strings.Join(parts, ","))
}

// Tree converts the object to the expected JSON tree, in the shape produced by the standard decoder
// with numbers as json.Number.
func (o *O) Tree() interface{} {
	m := Typed{}
	if o.T.Kind == spec.Class {
		m["kind"] = o.T.GoName()
		if o.Link {
			m["kind"] = o.T.GoName() + "Link"
		}
		if o.ID != nil {
			m["id"] = *o.ID
		}
		if o.HREF != nil {
			m["href"] = *o.HREF
		}
	}
	for _, a := range o.T.Attrs {
		v, ok := o.Attrs[a.Name.ID]
		if !ok {
			continue
		}
		if a.Link && a.Type.Kind == spec.List {
			m[a.WireName()] = Typed{"items": v.Tree()}
		} else {
			m[a.WireName()] = v.Tree()
		}
	}
	return m
}

// Tree converts the value to a JSON tree.
func (v *V) Tree() interface{} {
	switch {
	case v.Obj != nil:
		return v.Obj.Tree()
	case v.List != nil:
		l := []interface{}{}
		for _, x := range v.List {
			l = append(l, x.Tree())
		}
		return l
	case v.Map != nil:
		m := map[string]interface{}{}
		for k, x := range v.Map {
			m[k] = x.Tree()
		}
		return m
	}
	return scalarTree(v.Scalar)
}

func scalarTree(x interface{}) interface{} {
	switch s := x.(type) {
	case int:
		return json.Number(strconv.Itoa(s))
	case int64:
		return json.Number(strconv.FormatInt(s, 10))
	case float64:
		return json.Number(strconv.FormatFloat(s, 'g', -1, 64))
	case time.Time:
		return s.Format(time.RFC3339)
	case []interface{}:
		l := []interface{}{}
		for _, y := range s {
			l = append(l, scalarTree(y))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range s {
			m[k] = scalarTree(y)
		}
		return m
	}
	return x
}

// ParseTree parses JSON text, strictly.
func ParseTree(text []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err == nil {
		return nil, fmt.Errorf("there is text after the document")
	}
	return x, dupKeys(text)
}

// dupKeys checks that there are no duplicated keys in the objects of the document.
func dupKeys(text []byte) error {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var walk func() error
	walk = func() error {
		t, err := d.Token()
		if err != nil {
			return err
		}
		if delim, ok := t.(json.Delim); ok {
			keys := map[string]bool{}
			for d.More() {
				if delim == '{' {
					k, err := d.Token()
					if err != nil {
						return err
					}
					if keys[k.(string)] {
						return fmt.Errorf("key %q is duplicated", k)
					}
					keys[k.(string)] = true
				}
				if err := walk(); err != nil {
					return err
				}
			}
			_, err := d.Token()
			return err
		}
		return nil
	}
	return walk()
}

// DiffTree compares two JSON trees.
func DiffTree(path string, a, b interface{}) string {
	switch x := a.(type) {
	case Typed:
		return DiffTree(path, map[string]interface{}(x), b)
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: expected object but got %s", path, short(b))
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				return fmt.Sprintf("%s: field %q is missing", path, k)
			}
			if d := DiffTree(path+"."+k, x[k], y[k]); d != "" {
				return d
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s: unexpected field %q with value %s", path, k, short(y[k]))
			}
		}
		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: expected array of %d but got %s", path, len(x), short(b))
		}
		for i := range x {
			if d := DiffTree(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		y, ok := b.(json.Number)
		if ok && x != y {
			f, err1 := x.Float64()
			g, err2 := y.Float64()
			ok = err1 == nil && err2 == nil && f == g
			if ok {
				// Integers have to be exactly equal:
				i, err1 := strconv.ParseInt(string(x), 10, 64)
				j, err2 := strconv.ParseInt(string(y), 10, 64)
				if err1 == nil && err2 == nil {
					ok = i == j
				}
			}
		}
		if !ok {
			return fmt.Sprintf("%s: expected number %s but got %s", path, x, short(b))
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%s: expected %s but got %s", path, short(a), short(b))
	}
	return ""
}

// Text writes a JSON tree with random order of fields, white space and escapes, optionally adding
// unknown fields to the objects that correspond to declared types (those that aren't free form).
func Text(r *rand.Rand, x interface{}, junk func() string) string {
	var b strings.Builder
	ws := func() {
		if r.Intn(20000) == 0 {
			b.WriteString(strings.Repeat(" ", 4000+r.Intn(200)))
		}
		if r.Intn(4) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "  ", "\r\n "}[r.Intn(5)])
		}
	}
	str := func(s string) {
		switch r.Intn(3) {
		case 0:
			t, _ := json.Marshal(s)
			b.Write(t)
		case 1:
			var buf bytes.Buffer
			e := json.NewEncoder(&buf)
			e.SetEscapeHTML(false)
			_ = e.Encode(s)
			b.WriteString(strings.TrimSuffix(buf.String(), "\n"))
		default:
			b.WriteByte('"')
			for _, c := range s {
				if c > 0xffff {
					c -= 0x10000
					fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
				} else if c < 32 || c == '"' || c == '\\' || r.Intn(3) == 0 {
					fmt.Fprintf(&b, `\u%04x`, c)
				} else {
					b.WriteRune(c)
				}
			}
			b.WriteByte('"')
		}
	}
	var walk func(x interface{}, allow bool)
	walk = func(x interface{}, allow bool) {
		ws()
		switch y := x.(type) {
		case Typed:
			walk(map[string]interface{}(y), true)
		case map[string]interface{}:
			b.WriteByte('{')
			keys := make([]string, 0, len(y))
			for k := range y {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			first := true
			sep := func() {
				if !first {
					b.WriteByte(',')
				}
				first = false
				ws()
			}
			for _, i := range r.Perm(len(keys)) {
				if junk != nil && r.Intn(2) == 0 && allow {
					sep()
					b.WriteString(junk())
				}
				sep()
				str(keys[i])
				ws()
				b.WriteByte(':')
				walk(y[keys[i]], false)
			}
			if junk != nil && r.Intn(2) == 0 && allow {
				sep()
				b.WriteString(junk())
			}
			ws()
			b.WriteByte('}')
		case []interface{}:
			b.WriteByte('[')
			for i, z := range y {
				if i > 0 {
					b.WriteByte(',')
				}
				walk(z, false)
			}
			ws()
			b.WriteByte(']')
		case json.Number:
			b.WriteString(string(y))
		case string:
			str(y)
		default:
			t, _ := json.Marshal(y)
			b.Write(t)
		}
		ws()
	}
	walk(x, false)
	return b.String()
}

// Typed is a JSON object of a declared type, where unknown fields are allowed.
type Typed map[string]interface{}

// FreeForm returns true if the object contains values without a declared type.
func (o *O) FreeForm() bool {
	for _, a := range o.T.Attrs {
		if v, ok := o.Attrs[a.Name.ID]; ok && (a.Type.Name.ID == "Interface" || v.freeForm()) {
			return true
		}
	}
	return false
}

func (v *V) freeForm() bool {
	if v.Obj != nil {
		return v.Obj.FreeForm()
	}
	for _, x := range v.List {
		if x.freeForm() {
			return true
		}
	}
	for _, x := range v.Map {
		if x.freeForm() {
			return true
		}
	}
	return false
}

// sameText checks if two documents that represent the object are equal. The order of the fields of
// the free form values isn't specified.
func (o *O) sameText(a, b string) bool {
	if a == b {
		return true
	}
	if !o.FreeForm() {
		return false
	}
	x, err1 := ParseTree([]byte(a))
	y, err2 := ParseTree([]byte(b))
	return err1 == nil && err2 == nil && DiffTree("$", x, y) == ""
}
