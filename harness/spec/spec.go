// Package spec is an independent description of an API model. It is the reference against which the
// behaviour of the tool (and of the code that the tool generates) is judged, and it deliberately
// shares no code with the tool.
package spec

import (
	"sort"
	"strings"
	"unicode"
)

// Name is a name described by the words that form it. The expected spelling of the name in each
// artifact is calculated from these words, never by parsing the identifier.
type Name struct {
	ID    string   // Identifier as it appears in the source of the model.
	Words []string // Words, initialisms in upper case and the rest in lower case.
	Init  []bool   // Which words are initialisms.
}

// MakeName creates a name from words; a word that starts with an upper case letter or a digit is
// an initialism.
func MakeName(words ...string) Name {
	n := Name{}
	for _, w := range words {
		r := rune(w[0])
		n.Words = append(n.Words, w)
		n.Init = append(n.Init, unicode.IsUpper(r) || unicode.IsDigit(r))
	}
	n.ID = n.Camel()
	return n
}

// LowerFirst makes the identifier start with a lower case letter, like `myName`, if the first word
// isn't an initialism.
func (n Name) LowerFirst() Name {
	if len(n.Init) > 0 && !n.Init[0] {
		n.ID = n.Words[0] + n.ID[len(n.Words[0]):]
	}
	return n
}

// Camel returns the camel case spelling.
func (n Name) Camel() string {
	var b strings.Builder
	for i, w := range n.Words {
		if n.Init[i] {
			b.WriteString(w)
		} else {
			b.WriteString(strings.ToUpper(w[:1]) + w[1:])
		}
	}
	return b.String()
}

// Snake returns the snake case spelling.
func (n Name) Snake() string {
	chunks := make([]string, len(n.Words))
	for i, w := range n.Words {
		chunks[i] = strings.ToLower(w)
	}
	return strings.Join(chunks, "_")
}

// Key is the canonical spelling: words as they are separated by underscores.
func (n Name) Key() string {
	return strings.Join(n.Words, "_")
}

// Ann is the set of annotations of a concept.
type Ann struct {
	Go    string     `json:",omitempty"`
	JSON  string     `json:",omitempty"`
	HTTP  string     `json:",omitempty"`
	Ref   string     `json:",omitempty"`
	Other []OtherAnn `json:",omitempty"`
}

// OtherAnn is an annotation that has no meaning for the generators.
type OtherAnn struct {
	Name   string
	Params []AnnParam
}

// AnnParam is a parameter of an annotation.
type AnnParam struct {
	Name  string
	Value interface{} // bool, int or string
}

// Kinds of type references.
const (
	Plain = "plain"
	List  = "list"
	Map   = "map"
)

// Ref is a reference to a type.
type Ref struct {
	Kind  string // plain, list or map
	Name  Name   // name of the type, or of the element type for lists and maps
	Index Name   // name of the index type of maps
}

// Attr is an attribute of a struct or class.
type Attr struct {
	Name Name
	Link bool
	Type Ref
	Doc  string
	Ann  Ann

	// Owner is the 'service/version' that the type of the attribute belongs to, when it isn't the
	// version that contains the attribute. This happens only with classes that are references.
	Owner string `json:",omitempty"`
}

// Value is a value of an enumerated type.
type Value struct {
	Name Name
	Doc  string
	Ann  Ann
}

// Kinds of types.
const (
	Class     = "class"
	Struct    = "struct"
	Enum      = "enum"
	Scalar    = "scalar"
	Interface = "interface"
)

// Type is a type explicitly declared in the model.
type Type struct {
	Name   Name
	Kind   string // class, struct or enum
	Attrs  []*Attr
	Values []*Value
	Doc    string
	Ann    Ann

	// Origin is empty for types that are defined in this version, RefClass for classes that are
	// declared as references to a class of another service, and Brought for types that aren't
	// declared in this version but are needed by one of those references.
	Origin string `json:",omitempty"`
}

// Origins of types.
const (
	RefClass = "ref"
	Brought  = "brought"
)

// Param is a parameter of a method.
type Param struct {
	Name    Name
	In      bool
	Out     bool
	Type    Ref
	Default interface{} // nil, bool, int or string
	Doc     string
	Ann     Ann
}

// Method is a method of a resource.
type Method struct {
	Name   Name
	Params []*Param
	Doc    string
	Ann    Ann
}

// Locator is a locator of a resource.
type Locator struct {
	Name     Name
	Variable bool
	Target   Name
	Doc      string
	Ann      Ann
}

// Resource is a resource.
type Resource struct {
	Name     Name
	Methods  []*Method
	Locators []*Locator
	Doc      string
	Ann      Ann
}

// Error is a category of errors.
type Error struct {
	Name Name
	Code int
	Doc  string
	Ann  Ann
}

// Version is a version of a service.
type Version struct {
	Name      Name // ID is the name of the directory
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
}

// Service is a service.
type Service struct {
	Name     Name // ID is the name of the directory
	Versions []*Version
}

// Model is a complete model.
type Model struct {
	Label    string
	Services []*Service
}

// DirName makes a name from a directory name where words are separated by underscores.
func DirName(dir string) Name {
	n := Name{ID: dir}
	for _, w := range strings.Split(dir, "_") {
		n.Words = append(n.Words, w)
		n.Init = append(n.Init, false)
	}
	return n
}

// GoPackage calculates the last segment of the Go package of a service or version.
func (n Name) GoPackage() string {
	var chunks []string
	for _, w := range n.Words {
		chunks = append(chunks, strings.ToLower(w))
	}
	return strings.Join(chunks, "")
}

// Scalars is the set of builtin types.
var Scalars = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

// IsBuiltin returns true for the names of the builtin types.
func IsBuiltin(n Name) bool {
	for _, s := range Scalars {
		if n.ID == s {
			return true
		}
	}
	return false
}

// FindType finds a declared type of the version.
func (v *Version) FindType(n Name) *Type {
	for _, t := range v.Types {
		if t.Name.Key() == n.Key() {
			return t
		}
	}
	return nil
}

// FindResource finds a resource of the version.
func (v *Version) FindResource(n Name) *Resource {
	for _, r := range v.Resources {
		if r.Name.Key() == n.Key() {
			return r
		}
	}
	return nil
}

// KindOf returns the kind of the named type: class, struct, enum, scalar or interface.
func (v *Version) KindOf(n Name) string {
	if n.ID == "Interface" {
		return Interface
	}
	if IsBuiltin(n) {
		return Scalar
	}
	t := v.FindType(n)
	if t == nil {
		return ""
	}
	return t.Kind
}

// IsScalarRef returns true if the reference is to a scalar, enum or interface.
func (v *Version) IsScalarRef(r Ref) bool {
	if r.Kind != Plain {
		return false
	}
	k := v.KindOf(r.Name)
	return k == Scalar || k == Enum || k == Interface
}

// IsObject returns true if the name is that of a class or struct.
func (v *Version) IsObject(n Name) bool {
	k := v.KindOf(n)
	return k == Class || k == Struct
}

// Or returns the first non empty string.
func Or(values ...string) string {
	for _, v := range values {
		if v != "" {
			return v
		}
	}
	return ""
}

// Go and wire names of the concepts.

func (t *Type) GoName() string     { return Or(t.Ann.Go, t.Name.Camel()) }
func (a *Attr) GoName() string     { return Or(a.Ann.Go, a.Name.Camel()) }
func (a *Attr) WireName() string   { return Or(a.Ann.JSON, a.Name.Snake()) }
func (x *Value) GoName() string    { return Or(x.Ann.Go, x.Name.Camel()) }
func (x *Value) WireName() string  { return Or(x.Ann.JSON, x.Name.Snake()) }
func (p *Param) GoName() string    { return Or(p.Ann.Go, p.Name.Camel()) }
func (p *Param) QueryName() string { return Or(p.Ann.HTTP, p.Ann.JSON, p.Name.Snake()) }
func (p *Param) BodyName() string  { return Or(p.Ann.JSON, p.Name.Snake()) }
func (m *Method) GoName() string   { return Or(m.Ann.Go, m.Name.Camel()) }
func (l *Locator) GoName() string  { return Or(l.Ann.Go, l.Name.Camel()) }
func (l *Locator) Segment() string { return Or(l.Ann.HTTP, l.Name.Snake()) }
func (r *Resource) GoName() string { return Or(r.Ann.Go, r.Name.Camel()) }
func (r *Resource) IsRoot() bool   { return r.Name.ID == "Root" }
func (e *Error) GoName() string    { return e.Name.Camel() + "Error" }

// IsAction returns true if the method isn't one of the predefined ones.
func (m *Method) IsAction() bool {
	switch m.Name.ID {
	case "Add", "Delete", "AsyncDelete", "Get", "List", "Post", "Search", "Update", "AsyncUpdate":
		return false
	}
	return true
}

// Segment returns the additional URL segment of the method.
func (m *Method) Segment() string {
	if m.IsAction() {
		return Or(m.Ann.HTTP, m.Name.Snake())
	}
	return ""
}

// Verb returns the HTTP verb of the method.
func (m *Method) Verb() string {
	switch m.Name.ID {
	case "Delete", "AsyncDelete":
		return "DELETE"
	case "Get", "List":
		return "GET"
	case "Update", "AsyncUpdate":
		return "PATCH"
	}
	return "POST"
}

// Status returns the default status of the method.
func (m *Method) Status() int {
	switch m.Name.ID {
	case "Post", "Add":
		return 201
	case "AsyncUpdate", "AsyncDelete":
		return 202
	case "Delete":
		return 204
	}
	return 200
}

// QueryParams returns the parameters that travel in the URL query.
func (v *Version) QueryParams(m *Method) []*Param {
	var r []*Param
	if m.IsAction() {
		return nil
	}
	for _, p := range m.Params {
		if p.In && v.IsScalarRef(p.Type) {
			r = append(r, p)
		}
	}
	return r
}

// BodyParams returns the parameters that travel in the body of the request.
func (v *Version) BodyParams(m *Method) []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.In && (m.IsAction() || !v.IsScalarRef(p.Type)) {
			r = append(r, p)
		}
	}
	return r
}

// OutParams returns the parameters that travel in the response.
func (m *Method) OutParams() []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.Out {
			r = append(r, p)
		}
	}
	return r
}

// InParams returns the parameters that travel in the request.
func (m *Method) InParams() []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.In {
			r = append(r, p)
		}
	}
	return r
}

// Step is a step of a path.
type Path struct {
	Locators []*Locator
	Target   *Resource
}

// Paths returns all the paths of the version, starting with the root.
func (v *Version) Paths() []Path {
	root := v.FindResource(MakeName("root"))
	if root == nil {
		return nil
	}
	result := []Path{{Target: root}}
	for i := 0; i < len(result); i++ {
		for _, l := range result[i].Target.Locators {
			next := append(append([]*Locator{}, result[i].Locators...), l)
			result = append(result, Path{Locators: next, Target: v.FindResource(l.Target)})
		}
	}
	return result
}

// URL returns the OpenAPI template of the path.
func (p Path) URL(s *Service, v *Version) string {
	segs := []string{"", "api", s.Name.Snake(), v.Name.Snake()}
	for _, l := range p.Locators {
		if l.Variable {
			segs = append(segs, "{"+l.Segment()+"_id}")
		} else {
			segs = append(segs, l.Segment())
		}
	}
	return strings.Join(segs, "/")
}

// SortedKeys returns the sorted keys of the map.
func SortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Each calls the function for each version of the model.
func (m *Model) Each(f func(s *Service, v *Version)) {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			f(s, v)
		}
	}
}

// FindVersion finds the version with the given 'service/version' name.
func (m *Model) FindVersion(key string) *Version {
	var found *Version
	m.Each(func(s *Service, v *Version) {
		if s.Name.ID+"/"+v.Name.ID == key {
			found = v
		}
	})
	return found
}

// HasRefs returns true if some of the classes are references to others.
func (m *Model) HasRefs() bool {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if t.Origin != "" {
					return true
				}
			}
		}
	}
	return false
}
