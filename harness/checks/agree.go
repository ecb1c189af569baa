package checks

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/drv"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C16"] = Check{
		Rule: modelRule + "A case is one exchange performed by a generated client (success or error) and recorded by the transport; it is checked offline " +
			"against the generated OpenAPI document (path, verb, query parameters, request and response bodies) and against the metrics tree. " +
			"Distinct ones are the operations of the documents, and all of them have to be exercised.",
		Run: checkAgreement,
	}
}

// document is a loaded OpenAPI document.
type document struct {
	paths   object
	schemas object
	used    map[string]bool
	text    []byte
}

func loadDocument(file string) (*document, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	value, _, err := decodeStrict(data)
	if err != nil {
		return nil, err
	}
	doc, _ := value.(object)
	d := &document{used: map[string]bool{}, text: data}
	d.paths, _ = doc["paths"].(object)
	components, _ := doc["components"].(object)
	d.schemas, _ = components["schemas"].(object)
	return d, nil
}

// match finds the template that corresponds to a path, preferring the ones with more literals.
func (d *document) match(path string) []string {
	segments := strings.Split(path, "/")
	best := -1
	var result []string
	for template := range d.paths {
		chunks := strings.Split(template, "/")
		if len(chunks) != len(segments) {
			continue
		}
		score := 0
		for i, chunk := range chunks {
			switch {
			case strings.HasPrefix(chunk, "{") && strings.HasSuffix(chunk, "}") && segments[i] != "":
			case chunk == segments[i]:
				score++
			default:
				score = -1000000
			}
		}
		switch {
		case score < 0:
		case score > best:
			best = score
			result = []string{template}
		case score == best:
			result = append(result, template)
		}
	}
	sort.Strings(result)
	return result
}

// validate checks that a value is valid according to a schema, and returns a description of what isn't.
func (d *document) validate(where string, schema, value interface{}) string {
	s, ok := schema.(object)
	if !ok {
		return fmt.Sprintf("%s: there is no schema", where)
	}
	strict := true
	if ref, ok := s["$ref"].(string); ok {
		name := strings.TrimPrefix(ref, "#/components/schemas/")
		s, ok = d.schemas[name].(object)
		if !ok {
			return fmt.Sprintf("%s: schema %q doesn't exist", where, name)
		}
		strict = name != "Error"
	}
	kind, _ := s["type"].(string)
	if kind == "" && s["properties"] != nil {
		kind = "object"
	}
	format, _ := s["format"].(string)
	bad := func() string {
		return fmt.Sprintf("%s: value %s isn't valid for schema %s", where, brief(value), brief(s))
	}
	switch kind {
	case "boolean":
		if _, ok := value.(bool); !ok {
			return bad()
		}
	case "integer", "number":
		n, ok := value.(json.Number)
		if !ok {
			return bad()
		}
		if kind == "integer" {
			i, ok := new(big.Int).SetString(n.String(), 10)
			if !ok || format == "int32" && (!i.IsInt64() || i.Int64() != int64(int32(i.Int64()))) || format == "int64" && !i.IsInt64() {
				return bad()
			}
		}
	case "string":
		text, ok := value.(string)
		if !ok {
			return bad()
		}
		if format == "date-time" {
			if _, err := time.Parse(time.RFC3339, text); err != nil {
				return bad()
			}
		}
		if values, ok := s["enum"].([]interface{}); ok {
			found := false
			for _, v := range values {
				found = found || v == text
			}
			if !found {
				return bad()
			}
		}
	case "array":
		l, ok := value.([]interface{})
		if !ok {
			return bad()
		}
		for i, x := range l {
			if p := d.validate(fmt.Sprintf("%s[%d]", where, i), s["items"], x); p != "" {
				return p
			}
		}
	case "object":
		o, ok := value.(object)
		if !ok {
			return bad()
		}
		props, hasProps := s["properties"].(object)
		extra, hasExtra := s["additionalProperties"]
		for k, x := range o {
			if prop, ok := props[k]; ok {
				if p := d.validate(where+"."+k, prop, x); p != "" {
					return p
				}
				continue
			}
			if m, ok := extra.(object); ok {
				if p := d.validate(where+"."+k, m, x); p != "" {
					return p
				}
				continue
			}
			if hasProps && strict && !hasExtra {
				return fmt.Sprintf("%s: field %q isn't in the schema %s", where, k, brief(s))
			}
		}
	default:
		return fmt.Sprintf("%s: schema %s has no type", where, brief(s))
	}
	return ""
}

// validateText checks the value of a query parameter.
func (d *document) validateText(where string, schema interface{}, text string) string {
	s, _ := schema.(object)
	if ref, ok := s["$ref"].(string); ok {
		s, _ = d.schemas[strings.TrimPrefix(ref, "#/components/schemas/")].(object)
	}
	var value interface{} = text
	switch s["type"] {
	case "boolean":
		if b, err := strconv.ParseBool(text); err == nil {
			value = b
		}
	case "integer", "number":
		value = json.Number(text)
		if _, err := strconv.ParseFloat(text, 64); err != nil {
			value = text
		}
	}
	return d.validate(where, schema, value)
}

// body checks the body of a request or response.
func (d *document) body(where string, content interface{}, text string) string {
	c, _ := content.(object)
	if len(c) == 0 {
		if strings.TrimSpace(text) != "" {
			return fmt.Sprintf("%s: there is a body but the document doesn't have it: %s", where, clip(text, 200))
		}
		return ""
	}
	media, ok := c["application/json"].(object)
	if !ok {
		return fmt.Sprintf("%s: the document doesn't have a JSON body", where)
	}
	value, _, err := decodeStrict([]byte(text))
	if err != nil {
		return fmt.Sprintf("%s: %v: %s", where, err, clip(text, 200))
	}
	return d.validate(where, media["schema"], value)
}

// accepts checks that the exchange is described by the document.
func (d *document) accepts(x *drv.Event) string {
	templates := d.match(x.Path)
	if len(templates) != 1 {
		return fmt.Sprintf("path %q of %s matches %d paths of the document: %v", x.Path, x.Site, len(templates), templates)
	}
	item, _ := d.paths[templates[0]].(object)
	verb := strings.ToLower(x.Verb)
	op, ok := item[verb].(object)
	if !ok {
		return fmt.Sprintf("path %q of the document doesn't have the %s verb", templates[0], verb)
	}
	d.used[verb+" "+templates[0]] = true
	where := verb + " " + templates[0]
	params, _ := op["parameters"].([]interface{})
	declared := object{}
	inPath := map[string]bool{}
	for _, y := range params {
		p, _ := y.(object)
		name, _ := p["name"].(string)
		if p["in"] == "query" {
			declared[name] = p["schema"]
		} else {
			inPath[name] = true
		}
	}
	for _, chunk := range strings.Split(templates[0], "/") {
		if strings.HasPrefix(chunk, "{") {
			if !inPath[strings.Trim(chunk, "{}")] {
				return fmt.Sprintf("%s: path parameter %s isn't declared", where, chunk)
			}
		}
	}
	for name, values := range x.Query {
		schema, ok := declared[name]
		if !ok {
			return fmt.Sprintf("%s: query parameter %q isn't declared", where, name)
		}
		for _, v := range values {
			if p := d.validateText(where+" parameter "+name, schema, v); p != "" {
				return p
			}
		}
	}
	request, _ := op["requestBody"].(object)
	if p := d.body(where+" request", request["content"], x.Body); p != "" {
		return p
	}
	responses, _ := op["responses"].(object)
	response, ok := responses[strconv.Itoa(x.Status)].(object)
	if !ok {
		if x.Status < 400 {
			return fmt.Sprintf("%s: status %d isn't declared", where, x.Status)
		}
		response, ok = responses["default"].(object)
		if !ok {
			return fmt.Sprintf("%s: there is no default response", where)
		}
	}
	return d.body(where+" response", response["content"], x.Answer)
}

// metricsTree finds the tree of paths in the generated code.
func metricsTree(dir string) (object, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	var found object
	for _, file := range files {
		f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
		if err != nil {
			return nil, err
		}
		var text func(x ast.Expr) string
		text = func(x ast.Expr) string {
			switch y := x.(type) {
			case *ast.BasicLit:
				if y.Kind == token.STRING {
					s, _ := strconv.Unquote(y.Value)
					return s
				}
			case *ast.BinaryExpr:
				return text(y.X) + text(y.Y)
			case *ast.ParenExpr:
				return text(y.X)
			case *ast.CallExpr:
				if len(y.Args) == 1 {
					return text(y.Args[0])
				}
			}
			return ""
		}
		ast.Inspect(f, func(n ast.Node) bool {
			v, ok := n.(*ast.ValueSpec)
			if !ok {
				return true
			}
			for _, x := range v.Values {
				value, _, err := decodeStrict([]byte(text(x)))
				if err != nil {
					continue
				}
				if o, ok := value.(object); ok && o["api"] != nil {
					found = o
				}
			}
			return true
		})
	}
	if found == nil {
		return nil, fmt.Errorf("there is no tree of paths in the metrics package")
	}
	return found, nil
}

// inTree checks that the path is recognised by the metrics tree.
func inTree(tree object, path string) bool {
	var at interface{} = tree
	for _, s := range strings.Split(strings.Trim(path, "/"), "/") {
		o, ok := at.(object)
		if !ok {
			return false
		}
		next, ok := o[s]
		if !ok {
			next, ok = o["-"]
		}
		if !ok {
			return false
		}
		at = next
	}
	return true
}

// treePaths returns all the paths of the tree.
func treePaths(prefix string, x interface{}, f func(path string)) {
	o, _ := x.(object)
	for k, y := range o {
		f(prefix + "/" + k)
		treePaths(prefix+"/"+k, y, f)
	}
}

func (c *Ctx) checkTree(p *run.Project) object {
	tree, err := metricsTree(filepath.Join(p.Dir, "gen", "metrics"))
	if err != nil {
		c.Fail(p.Model.Label, p.Dir, "", "metrics: %v", err)
		return nil
	}
	expected := map[string]bool{"/api": true}
	p.Model.Each(func(s *spec.Service, v *spec.Version) {
		expected["/api/"+s.Name.Snake()] = true
		for _, x := range v.Paths() {
			path := "/api/" + s.Name.Snake() + "/" + v.Name.Snake()
			for _, l := range x.Locators {
				if l.Variable {
					path += "/-"
				} else {
					path += "/" + l.Segment()
				}
			}
			expected[path] = true
			for _, m := range x.Target.Methods {
				if m.IsAction() {
					expected[path+"/"+m.Segment()] = true
				}
			}
		}
	})
	c.Count("paths of the metrics trees", len(expected))
	treePaths("", tree, func(path string) {
		if !expected[path] {
			c.Fail(p.Model.Label, p.Dir, "", "metrics: unexpected path %q", path)
		}
		delete(expected, path)
	})
	for path := range expected {
		c.Fail(p.Model.Label, p.Dir, "", "metrics: path %q is missing", path)
	}
	return tree
}

func checkAgreement(c *Ctx) {
	c.models(c.suite(12, 120), c.style, func(i int, p *run.Project) { c.agreement(p, c.Pick(10, 40)) })
}

// agreement checks the agreement between the artifacts generated for a model.
func (c *Ctx) agreement(p *run.Project, n int) {
	if !c.generate(p) {
		return
	}
	bin, err := p.Driver(run.Normal)
	if err != nil {
		c.Problem(p.Model.Label, p.Dir, err)
		return
	}
	res := p.OpenAPI()
	if res.Code != 0 || res.Crashed() || res.Timeout {
		c.Fail(p.Model.Label, p.Dir, res.Out, "generation of OpenAPI fails with code %d: %s", res.Code, run.Tail(res.Out, 5))
		return
	}
	docs := map[string]*document{}
	p.Model.Each(func(s *spec.Service, v *spec.Version) {
		d, err := loadDocument(filepath.Join(p.Dir, "openapi", openAPIFile(s, v)))
		if err != nil {
			c.Fail(p.Model.Label, p.Dir, "", "document of %s/%s: %v", s.Name.ID, v.Name.ID, err)
			return
		}
		docs[s.Name.ID+"/"+v.Name.ID] = d
	})
	tree := c.checkTree(p)
	result := c.drive(p, bin, "C16", n)
	if result == nil || tree == nil {
		return
	}
	embedded := map[string]bool{}
	for _, data := range result.Events {
		x := &drv.Event{}
		if err := json.Unmarshal(data, x); err != nil {
			c.Problem(p.Model.Label, "", run.Infra{Err: err})
			return
		}
		key := x.Service + "/" + x.Version
		d := docs[key]
		if d == nil {
			return
		}
		c.Eval(1)
		if x.Embedded != "" || x.Site == "" {
			embedded[key] = true
			if x.Embedded != string(d.text) {
				c.Fail(p.Model.Label+" "+key, p.Dir, "", "the document embedded in the code isn't the generated one")
			}
			c.Count("embedded documents", 1)
			continue
		}
		if problem := d.accepts(x); problem != "" {
			c.Fail(p.Model.Label+" "+x.Site, p.Dir, string(data), "%s", problem)
			return
		}
		if !inTree(tree, x.Path) {
			c.Fail(p.Model.Label+" "+x.Site, p.Dir, string(data), "path %q isn't recognised by the metrics tree", x.Path)
			return
		}
		c.Count("exchanges checked", 1)
		c.Sample(fmt.Sprintf("%s: %s %s?%s -> %d", p.Model.Label, x.Verb, clip(x.Path, 100), clip(url.Values(x.Query).Encode(), 100), x.Status))
	}
	for key, d := range docs {
		if !embedded[key] {
			c.Problem(p.Model.Label, "", run.Infra{Err: fmt.Errorf("no embedded document for %s", key)})
		}
		for path, x := range d.paths {
			item, _ := x.(object)
			for verb := range item {
				c.Eval(1)
				c.Seen(p.Model.Label + ":" + key + ":" + verb + " " + path)
				if !d.used[verb+" "+path] {
					c.Fail(p.Model.Label+" "+key, p.Dir, "", "operation %s %s can't be performed with the generated clients", verb, path)
				}
			}
		}
	}
}
