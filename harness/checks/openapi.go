package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C15"] = Check{
		Rule: "Models are the hand written ones, very wide ones, models with references and random ones. A case is the document of one version: " +
			"its paths, operations, parameters, bodies, schemas, properties and descriptions are compared in both directions with the expected " +
			"ones; distinct ones are the operations and schemas.",
		Run: checkOpenAPI,
	}
}

type object = map[string]interface{}

// decodeStrict decodes a JSON document, reporting the duplicated fields.
func decodeStrict(data []byte) (interface{}, []string, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var duplicates []string
	var read func(where string) (interface{}, error)
	read = func(where string) (interface{}, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'):
			r := object{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				name := k.(string)
				if _, ok := r[name]; ok {
					duplicates = append(duplicates, where+"."+name)
				}
				r[name], err = read(where + "." + name)
				if err != nil {
					return nil, err
				}
			}
			_, err = d.Token()
			return r, err
		case json.Delim('['):
			r := []interface{}{}
			for d.More() {
				x, err := read(where + "[]")
				if err != nil {
					return nil, err
				}
				r = append(r, x)
			}
			_, err = d.Token()
			return r, err
		}
		return t, nil
	}
	result, err := read("")
	if err != nil {
		return nil, nil, err
	}
	if d.More() {
		return nil, nil, fmt.Errorf("there is something after the end of the document")
	}
	return result, duplicates, nil
}

// any is the expected value of texts that are fixed, whose exact content isn't relevant.
type anyText struct{}

// compareJSON compares a value with the expected one.
func compareJSON(where string, expected, actual interface{}, report func(format string, args ...interface{})) {
	switch e := expected.(type) {
	case anyText:
		if s, ok := actual.(string); !ok || s == "" {
			report("%s should be a text but is %v", where, brief(actual))
		}
	case object:
		a, ok := actual.(object)
		if !ok {
			report("%s should be an object but is %v", where, brief(actual))
			return
		}
		for k, x := range e {
			y, ok := a[k]
			if !ok {
				report("%s doesn't contain %q, expected %v", where, k, brief(x))
				continue
			}
			compareJSON(where+" "+k, x, y, report)
		}
		for k, y := range a {
			if _, ok := e[k]; !ok {
				report("%s contains unexpected %q with value %v", where, k, brief(y))
			}
		}
	case []interface{}:
		a, ok := actual.([]interface{})
		if !ok {
			report("%s should be an array but is %v", where, brief(actual))
			return
		}
		// The order isn't relevant.
		e, a = sortedValues(e), sortedValues(a)
		if len(e) != len(a) {
			report("%s should contain %v but contains %v", where, brief(e), brief(a))
			return
		}
		for i := range e {
			compareJSON(fmt.Sprintf("%s[%d]", where, i), e[i], a[i], report)
		}
	default:
		if !reflect.DeepEqual(expected, actual) {
			report("%s should be %v but is %v", where, brief(expected), brief(actual))
		}
	}
}

func sortedValues(l []interface{}) []interface{} {
	l = append([]interface{}{}, l...)
	key := func(x interface{}) string {
		if o, ok := x.(object); ok {
			return fmt.Sprintf("%v %v", o["in"], o["name"])
		}
		return fmt.Sprintf("%v", x)
	}
	sort.SliceStable(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
	return l
}

func brief(x interface{}) string {
	data, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%v", x)
	}
	return clip(string(data), 300)
}

// schemaRef is the expected reference to a type.
func schemaRef(v *spec.Version, r spec.Ref, owner string) object {
	one := func(n spec.Name) object {
		switch n.ID {
		case "Boolean":
			return object{"type": "boolean"}
		case "Integer":
			return object{"type": "integer", "format": "int32"}
		case "Long":
			return object{"type": "integer", "format": "int64"}
		case "Float":
			return object{"type": "number", "format": "float"}
		case "String":
			return object{"type": "string"}
		case "Date":
			return object{"type": "string", "format": "date-time"}
		case "Interface":
			return object{"type": "object"}
		}
		return object{"$ref": "#/components/schemas/" + n.Camel()}
	}
	switch r.Kind {
	case spec.List:
		return object{"type": "array", "items": one(r.Name)}
	case spec.Map:
		return object{"type": "object", "additionalProperties": one(r.Name)}
	}
	return one(r.Name)
}

func describe2(o object, doc string) object {
	if doc != "" {
		o["description"] = doc
	}
	return o
}

func content(schema object) object {
	return object{"application/json": object{"schema": schema}}
}

func bodySchema(v *spec.Version, m *spec.Method, params []*spec.Param) object {
	if len(params) == 1 && !m.IsAction() && params[0].Name.ID != "Items" {
		return schemaRef(v, params[0].Type, "")
	}
	props := object{}
	for _, p := range params {
		props[p.BodyName()] = describe2(schemaRef(v, p.Type, ""), p.Doc)
	}
	return object{"type": "object", "properties": props}
}

// expectedPaths calculates the expected paths.
func expectedPaths(s *spec.Service, v *spec.Version) object {
	paths := object{}
	failure := object{"description": anyText{}, "content": content(object{"$ref": "#/components/schemas/Error"})}
	paths[spec.Path{}.URL(s, v)] = object{"get": object{"description": anyText{}, "responses": object{
		"200":     object{"description": anyText{}, "content": content(object{"$ref": "#/components/schemas/Metadata"})},
		"default": failure,
	}}}
	for _, p := range v.Paths() {
		for _, m := range p.Target.Methods {
			url := p.URL(s, v)
			if seg := m.Segment(); seg != "" {
				url += "/" + seg
			}
			op := describe2(object{}, m.Doc)
			params := []interface{}{}
			for _, l := range p.Locators {
				if l.Variable {
					params = append(params, object{"name": l.Segment() + "_id", "in": "path", "required": true, "schema": object{"type": "string"}})
				}
			}
			for _, x := range v.QueryParams(m) {
				params = append(params, describe2(object{"name": x.QueryName(), "in": "query", "schema": schemaRef(v, x.Type, "")}, x.Doc))
			}
			if len(params) > 0 {
				op["parameters"] = params
			}
			if l := v.BodyParams(m); len(l) > 0 {
				op["requestBody"] = object{"content": content(bodySchema(v, m, l))}
			}
			success := object{"description": anyText{}}
			if l := m.OutParams(); len(l) > 0 {
				success["content"] = content(bodySchema(v, m, l))
			}
			op["responses"] = object{fmt.Sprintf("%d", m.Status()): success, "default": failure}
			item, ok := paths[url].(object)
			if !ok {
				item = object{}
				paths[url] = item
			}
			item[strings.ToLower(m.Verb())] = op
		}
	}
	return paths
}

// expectedSchemas calculates the expected schemas.
func expectedSchemas(m *spec.Model, v *spec.Version) object {
	schemas := object{}
	// The types of other versions that are linked, and those that they need, are also included:
	types := append([]*spec.Type{}, v.Types...)
	owners := map[*spec.Type]*spec.Version{}
	names := map[string]bool{}
	for _, t := range types {
		names[t.Name.Key()] = true
		owners[t] = v
	}
	for i := 0; i < len(types); i++ {
		for _, a := range types[i].Attrs {
			owner := owners[types[i]]
			if a.Owner != "" {
				owner = m.FindVersion(a.Owner)
			}
			if t := owner.FindType(a.Type.Name); t != nil && !names[t.Name.Key()] {
				names[t.Name.Key()] = true
				owners[t] = owner
				types = append(types, t)
			}
		}
	}
	for _, t := range types {
		x := describe2(object{}, t.Doc)
		if t.Kind == spec.Enum {
			x["type"] = "string"
			l := []interface{}{}
			for _, y := range t.Values {
				l = append(l, y.WireName())
			}
			x["enum"] = l
		} else {
			props := object{}
			if t.Kind == spec.Class {
				for _, n := range []string{"kind", "id", "href"} {
					props[n] = object{"type": "string", "description": anyText{}}
				}
			}
			for _, a := range t.Attrs {
				x := schemaRef(v, a.Type, a.Owner)
				if a.Link && a.Type.Kind == spec.List {
					x = object{"type": "object", "properties": object{"kind": object{"type": "string"}, "href": object{"type": "string"}, "items": x}}
				}
				props[a.WireName()] = describe2(x, a.Doc)
			}
			x["properties"] = props
		}
		schemas[t.Name.Camel()] = x
	}
	return schemas
}

// openAPIFile returns the path of the document of a version, relative to the output directory.
func openAPIFile(s *spec.Service, v *spec.Version) string {
	return filepath.Join(s.Name.Snake(), v.Name.Snake(), "openapi.json")
}

// inspectOpenAPI compares the documents with the expected ones, and returns the problems.
func (c *Ctx) inspectOpenAPI(p *run.Project, dir string) []string {
	m := p.Model
	var problems []string
	report := func(format string, args ...interface{}) {
		problems = append(problems, fmt.Sprintf(format, args...))
	}
	expected := map[string]bool{}
	m.Each(func(s *spec.Service, v *spec.Version) {
		file := openAPIFile(s, v)
		expected[file] = true
		where := m.Label + " " + file
		data, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			report("%s doesn't exist: %v", where, err)
			return
		}
		value, duplicates, err := decodeStrict(data)
		if err != nil {
			report("%s isn't valid JSON: %v", where, err)
			return
		}
		for _, d := range duplicates {
			report("%s contains the duplicated field %s", where, d)
		}
		doc, ok := value.(object)
		if !ok {
			report("%s isn't an object", where)
			return
		}
		if x, _ := doc["openapi"].(string); !strings.HasPrefix(x, "3.") {
			report("%s doesn't have the version of the specification", where)
		}
		info, _ := doc["info"].(object)
		if info["title"] != s.Name.ID || info["version"] != v.Name.ID {
			report("%s has the wrong title and version: %v", where, brief(info))
		}
		components, _ := doc["components"].(object)
		schemas, _ := components["schemas"].(object)
		for name, props := range map[string]map[string]string{
			"Metadata": {"server_version": "string"},
			"Error":    {"kind": "string", "id": "string", "href": "string", "code": "string", "reason": "string", "details": "object"},
		} {
			x, _ := schemas[name].(object)
			y, _ := x["properties"].(object)
			for prop, typ := range props {
				z, _ := y[prop].(object)
				if z["type"] != typ || z["format"] != nil || z["enum"] != nil {
					report("%s has %s for the %s property of the %s schema", where, brief(y[prop]), prop, name)
				}
			}
			if len(y) != len(props) {
				report("%s has %d properties in the %s schema", where, len(y), name)
			}
			delete(schemas, name)
		}
		if servers, _ := doc["servers"].([]interface{}); servers != nil {
			for _, x := range servers {
				y, _ := x.(object)
				if z, err := url.Parse(fmt.Sprint(y["url"])); err != nil || z.Host == "" {
					report("%s has a server without URL: %s", where, brief(x))
				}
			}
		}
		paths := expectedPaths(s, v)
		wanted := expectedSchemas(m, v)
		compareJSON(where+" paths", paths, doc["paths"], report)
		compareJSON(where+" schemas", wanted, schemas, report)
		c.Count("documents", 1)
		c.Count("paths", len(paths))
		c.Count("schemas", len(wanted))
		for path, item := range paths {
			for verb := range item.(object) {
				c.Count("operations", 1)
				c.Eval(1)
				c.Seen(where + " " + verb + " " + path)
			}
		}
		for name, x := range wanted {
			c.Eval(1)
			c.Seen(where + " schema " + name)
			props, _ := x.(object)["properties"].(object)
			c.Count("properties", len(props))
		}
		// All the references should be resolved:
		var visit func(x interface{})
		visit = func(x interface{}) {
			switch y := x.(type) {
			case object:
				if ref, ok := y["$ref"].(string); ok {
					c.Count("references", 1)
					name := strings.TrimPrefix(ref, "#/components/schemas/")
					if name != "Metadata" && name != "Error" && schemas[name] == nil {
						report("%s contains the reference %q that doesn't exist", where, ref)
					}
				}
				if security, ok := y["security"].([]interface{}); ok {
					for _, z := range security {
						names, _ := z.(object)
						for name := range names {
							c.Count("references to security schemes", 1)
							if schemes, _ := components["securitySchemes"].(object); schemes[name] == nil {
								report("%s contains the security scheme %q that doesn't exist", where, name)
							}
						}
					}
				}
				for _, z := range y {
					visit(z)
				}
			case []interface{}:
				for _, z := range y {
					visit(z)
				}
			}
		}
		visit(doc)
	})
	_ = filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			rel, _ := filepath.Rel(dir, path)
			if !expected[rel] {
				report("%s contains the unexpected file %s", m.Label, rel)
			}
		}
		return nil
	})
	sort.Strings(problems)
	return problems
}

// openAPI generates the OpenAPI documents and inspects them.
func (c *Ctx) openAPI(p *run.Project) bool {
	res := p.OpenAPI()
	if res.Timeout || res.Code != 0 || res.Crashed() {
		c.Fail(p.Model.Label, p.Dir, res.Out, "generation of OpenAPI from a valid model fails with code %d: %s", res.Code, run.Tail(res.Out, 5))
		return false
	}
	if l := c.inspectOpenAPI(p, filepath.Join(p.Dir, "openapi")); len(l) > 0 {
		c.Fail(p.Model.Label, p.Dir, strings.Join(l, "\n"), "%s", strings.Join(firsts(l, 5), "\n"))
		return false
	}
	return true
}

func firsts(l []string, n int) []string {
	if len(l) > n {
		return append(l[:n:n], fmt.Sprintf("and %d more", len(l)-n))
	}
	return l
}

func checkOpenAPI(c *Ctx) {
	models := append(c.suite(60, 600), c.refModels(c.Pick(10, 100))...)
	c.models(models, c.style, func(i int, p *run.Project) {
		if c.openAPI(p) {
			c.Sample(p.Model.Label + ": " + describe(p.Model))
		}
	})
}
