package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"path"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"verif.local/harness/spec"
)

func init() {
	checks["C16"] = recordExchanges
	checks["C11"] = checkRequests
	checks["C12"] = checkResponses
}

// Exchange is an HTTP exchange observed by the recorder.
type Exchange struct {
	Verb    string
	Path    string
	Query   url.Values
	RawURL  string
	Header  http.Header
	Body    []byte
	HasBody bool
	Ctx     context.Context
}

// Recorder is the transport used to observe the requests.
type Recorder struct {
	Exchanges []*Exchange
	Answer    func(x *Exchange) (*http.Response, error)
	Opened    int
	Closed    int
}

// RoundTrip implements the transport.
func (t *Recorder) RoundTrip(request *http.Request) (*http.Response, error) {
	x := &Exchange{Verb: request.Method, Path: request.URL.Path, RawURL: request.URL.String(), Ctx: request.Context()}
	x.Header = http.Header{}
	for k, v := range request.Header {
		x.Header[k] = append([]string{}, v...)
	}
	q, err := url.ParseQuery(request.URL.RawQuery)
	if err != nil {
		return nil, fmt.Errorf("query isn't valid: %v", err)
	}
	x.Query = q
	if request.Body != nil {
		x.HasBody = true
		x.Body, err = io.ReadAll(request.Body)
		if err != nil {
			return nil, err
		}
		_ = request.Body.Close()
	}
	t.Exchanges = append(t.Exchanges, x)
	// Transport wrappers usually modify the request; that shouldn't affect the next one:
	if request.Header != nil {
		request.Header.Set("Authorization", "Bearer secret")
		for k := range request.Header {
			request.Header[k][0] = "modified"
		}
	}
	request.URL.Path = "/modified"
	return t.Answer(x)
}

type trackedBody struct {
	io.Reader
	t      *Recorder
	closed bool
}

func (b *trackedBody) Close() error {
	if !b.closed {
		b.closed = true
		b.t.Closed++
	}
	return nil
}

// Respond creates a response.
func (t *Recorder) Respond(status int, header http.Header, body io.Reader) *http.Response {
	t.Opened++
	if header == nil {
		header = http.Header{}
	}
	return &http.Response{StatusCode: status, Header: header, Body: &trackedBody{Reader: body, t: t}, ContentLength: -1}
}

// site is a place where a method can be called.
type site struct {
	w      *World
	path   spec.Path
	method *spec.Method // nil for the metadata
	key    string
}

func (e *Env) sites() []*site {
	var r []*site
	for _, w := range e.Worlds {
		for _, p := range w.V.Paths() {
			prefix := p.URL(w.S, w.V)
			if len(p.Locators) == 0 {
				r = append(r, &site{w: w, path: p, key: prefix + "/metadata"})
			}
			for _, m := range p.Target.Methods {
				r = append(r, &site{w: w, path: p, method: m, key: prefix + ":" + m.Name.ID})
			}
		}
	}
	return r
}

func randID(r *rand.Rand) string {
	ids := []string{"123", "abc", "a-b_c", "with space", "ñandú", "a%20b", "a?b", "a#b", "a&b=c", "1.2.3", "日本", "~", "a:b", "A", strings.Repeat("x", 300), "+", "a;b", "%", "\"q\"",
		" x ", "\tx", "UPPER", "...", "-", "_", "0", "00123", "v1", "null", "a,b", "a@b", "a*b", "a$b", "a!b", "(a)", "[a]", "{a}", "a|b", "a\\b", "a^b", "a`b", "a'b", "<a>"}
	if r.Intn(4) == 0 {
		// Anything that is one segment of a path:
		runes := []rune(" !#$%&'()*+,-.0123456789:;<=>?@ABCZ[\\]^_`abcz{|}~\t\u00a0ñé日\u200b😀")
		var id []rune
		for n := 1 + r.Intn(12); n > 0; n-- {
			id = append(id, runes[r.Intn(len(runes))])
		}
		if x := string(id); x != "." && x != ".." {
			return x
		}
	}
	return ids[r.Intn(len(ids))]
}

// locate finds the client of the resource, and returns the expected path.
func (s *site) locate(r *rand.Rand, transport http.RoundTripper) (client reflect.Value, p string) {
	client, segments := s.root(r, transport)
	client, segments = s.descend(r, client, segments, s.path.Locators)
	return client, s.full(segments)
}

// root creates the client of the version.
func (s *site) root(r *rand.Rand, transport http.RoundTripper) (client reflect.Value, segments []string) {
	prefixes := []string{"/api/" + s.w.S.Name.Snake(), "/", "/my/prefix", "/a b/c", ""}
	prefix := prefixes[r.Intn(len(prefixes))]
	if s.w.All.Strict {
		prefix = prefixes[0]
	}
	segments = []string{prefix, s.w.V.Name.Snake()}
	svc := s.w.All.Fn(s.w.S.Name.GoPackage() + "/NewClient")
	t := reflect.ValueOf(&transport).Elem()
	client = svc.Call([]reflect.Value{t, reflect.ValueOf(prefix)})[0]
	return Method(client, s.w.V.Name.Camel()).Call(nil)[0], segments
}

// descend calls the locators.
func (s *site) descend(r *rand.Rand, client reflect.Value, segments []string, locators []*spec.Locator) (reflect.Value, []string) {
	segments = append([]string{}, segments...)
	for _, l := range locators {
		var args []reflect.Value
		if l.Variable {
			id := randID(r)
			segments = append(segments, id)
			args = append(args, reflect.ValueOf(id))
		} else {
			segments = append(segments, l.Segment())
		}
		m := Method(client, l.GoName())
		if m.Type().NumIn() != len(args) {
			panic(Missing(fmt.Sprintf("method %s of %s should have %d arguments", l.GoName(), client.Type(), len(args))))
		}
		client = m.Call(args)[0]
	}
	return client, segments
}

// full is the expected path of the requests.
func (s *site) full(segments []string) string {
	if s.method != nil && s.method.IsAction() {
		segments = append(append([]string{}, segments...), s.method.Segment())
	}
	return path.Join(segments...)
}

// request creates the request.
func (s *site) request(client reflect.Value) reflect.Value {
	if s.method == nil {
		return Method(client, "Get").Call(nil)[0]
	}
	return Method(client, s.method.GoName()).Call(nil)[0]
}

// GoVal converts a reference value to a Go value.
func (w *World) GoVal(r *rand.Rand, v *V, ref spec.Ref, typ reflect.Type) reflect.Value {
	elem := func(x *V, t reflect.Type) reflect.Value {
		if x.Obj != nil {
			return x.Obj.MustBuild(r)
		}
		return GoScalar(x.Scalar, t)
	}
	switch ref.Kind {
	case spec.List:
		if typ.Kind() == reflect.Ptr {
			lb := w.ListBuilder(r, w.Of(ref.Name), v.List)
			l, err := Build(lb)
			if err != nil {
				panic(err)
			}
			return l
		}
		s := reflect.MakeSlice(typ, 0, len(v.List))
		for _, x := range v.List {
			s = reflect.Append(s, elem(x, typ.Elem()))
		}
		return s
	case spec.Map:
		m := reflect.MakeMap(typ)
		for k, x := range v.Map {
			m.SetMapIndex(reflect.ValueOf(k), elem(x, typ.Elem()))
		}
		return m
	}
	return elem(v, typ)
}

// isNull returns true if the value of the parameter is a free form null, which is like not having a value.
func isNull(p *spec.Param, v *V) bool {
	return p.Type.Kind == spec.Plain && p.Type.Name.ID == "Interface" && v.Scalar == nil
}

// plan is what is put in a request.
type plan struct {
	params  map[string]*V // by identifier
	extra   [][2]string
	headers [][2]string
}

// isQuery returns true if the parameter travels in the query.
func (s *site) isQuery(p *spec.Param) bool {
	for _, q := range s.w.V.QueryParams(s.method) {
		if q == p {
			return true
		}
	}
	return false
}

// makePlan decides what will be put in the request.
func (s *site) makePlan(r *rand.Rand, density float64) *plan {
	pl := &plan{params: map[string]*V{}}
	if s.method != nil {
		for _, p := range s.method.InParams() {
			if r.Float64() >= density && (s.method.IsAction() || s.isQuery(p)) {
				continue
			}
			if v := s.w.Val(r, p.Type, 2); !isNull(p, v) {
				pl.params[p.Name.ID] = v
			}
		}
	}
	return pl
}

// apply calls the setters.
func (s *site) apply(r *rand.Rand, pl *plan, req reflect.Value, noise bool) {
	var steps []func()
	if s.method != nil {
		for _, p := range s.method.InParams() {
			v, ok := pl.params[p.Name.ID]
			if !ok {
				continue
			}
			p := p
			steps = append(steps, func() {
				m := Method(req, p.GoName())
				if r.Intn(3) == 0 {
					// The last value is the one that matters:
					m.Call([]reflect.Value{s.w.GoVal(r, s.w.Val(r, p.Type, 1), p.Type, m.Type().In(0))})
				}
				res := m.Call([]reflect.Value{s.w.GoVal(r, v, p.Type, m.Type().In(0))})
				if res[0].Pointer() != req.Pointer() {
					panic("the setter " + p.GoName() + " doesn't return the request")
				}
			})
		}
	}
	if noise {
		n := r.Intn(4)
		if r.Intn(20) == 0 {
			n += r.Intn(30)
		}
		for i := 0; i < n; i++ {
			name := []string{"extra", "other param", "x", "ñ&=", "extra", "", "X", "a[b]", "a;b", "%41", "+"}[r.Intn(11)]
			if s.method != nil && r.Intn(4) == 0 {
				if qs := s.w.V.QueryParams(s.method); len(qs) > 0 {
					name = qs[r.Intn(len(qs))].QueryName()
				}
			}
			var value interface{}
			var text string
			switch r.Intn(4) {
			case 0:
				text = randText(r)
				value = text
			case 1:
				value = r.Intn(1000)
				text = fmt.Sprintf("%d", value)
			case 2:
				value = r.Intn(2) == 0
				text = fmt.Sprintf("%v", value)
			default:
				d := randDate(r)
				value = d
				text = d.UTC().Format("2006-01-02T15:04:05Z07:00")
			}
			steps = append(steps, func() {
				pl.extra = append(pl.extra, [2]string{name, text})
				Method(req, "Parameter").Call([]reflect.Value{reflect.ValueOf(name), reflect.ValueOf(value)})
			})
		}
		n = r.Intn(4)
		for i := 0; i < n; i++ {
			name := []string{"X-One", "x-two", "X-One", "Accept", "content-TYPE", "Authorization", "User-Agent", "Cookie", "x"}[r.Intn(9)]
			value := []interface{}{fmt.Sprintf("value %d", r.Intn(100)), r.Intn(100), r.Intn(2) == 0, "", " x ", "a, b; c=\"d\"", "%41+"}[r.Intn(7)]
			steps = append(steps, func() {
				pl.headers = append(pl.headers, [2]string{name, fmt.Sprint(value)})
				Method(req, "Header").Call([]reflect.Value{reflect.ValueOf(name), reflect.ValueOf(value)})
			})
		}
		if s.method != nil && r.Intn(3) == 0 {
			user := []string{"some user", "x", "user@example.com", "ñ"}[r.Intn(4)]
			steps = append(steps, func() {
				pl.headers = append(pl.headers, [2]string{"Impersonate-User", user})
				Method(req, "Impersonate").Call([]reflect.Value{reflect.ValueOf(user)})
			})
		}
	}
	for _, i := range r.Perm(len(steps)) {
		steps[i]()
	}
}

// textMatches checks that the text is the representation of the value of a query parameter.
func textMatches(text string, x interface{}) bool {
	switch v := x.(type) {
	case float64:
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && f == v
	case time.Time:
		t, err := time.Parse(time.RFC3339, text)
		return err == nil && t.Equal(v)
	case string:
		return text == v
	}
	return text == fmt.Sprintf("%v", x)
}

// verify checks that the exchange is the expected one.
func (s *site) verify(e *Env, pl *plan, x *Exchange, expectedPath string) {
	verb := "GET"
	if s.method != nil {
		verb = s.method.Verb()
	}
	if x.Verb != verb {
		e.Fail("expected verb %s but got %s", verb, x.Verb)
	}
	if x.Path != expectedPath {
		e.Fail("expected path %q but got %q", expectedPath, x.Path)
	}
	// Query:
	rest := map[string][]string{}
	for k, v := range x.Query {
		rest[k] = append([]string{}, v...)
	}
	take := func(name string, f func(string) bool) bool {
		for i, text := range rest[name] {
			if f(text) {
				rest[name] = append(append([]string{}, rest[name][:i]...), rest[name][i+1:]...)
				if len(rest[name]) == 0 {
					delete(rest, name)
				}
				return true
			}
		}
		return false
	}
	declared := map[string]bool{}
	if s.method != nil {
		for _, p := range s.w.V.QueryParams(s.method) {
			v, ok := pl.params[p.Name.ID]
			if !ok {
				continue
			}
			declared[p.QueryName()] = true
			if !take(p.QueryName(), func(t string) bool { return textMatches(t, v.Scalar) }) {
				e.Fail("query parameter %q with value %s isn't in %v", p.QueryName(), short(v.Scalar), x.Query)
			}
		}
	}
	explicit := map[string][]string{}
	for _, y := range pl.extra {
		explicit[y[0]] = append(explicit[y[0]], y[1])
	}
	for name, values := range explicit {
		// Values given explicitly are sent in the same order:
		if got := x.Query[name]; !declared[name] && sameSet(got, values) && !reflect.DeepEqual([]string(got), values) {
			e.Fail("values of explicit query parameter %q are sent in the order %q instead of %q", name, got, values)
		}
	}
	for _, y := range pl.extra {
		if !take(y[0], func(t string) bool { return t == y[1] }) {
			e.Fail("explicit query parameter %q with value %q isn't in %v", y[0], y[1], x.Query)
		}
	}
	if len(rest) > 0 {
		e.Fail("unexpected query parameters %v", rest)
	}
	// Headers:
	want := http.Header{}
	for _, h := range pl.headers {
		want.Add(h[0], h[1])
	}
	for k, v := range x.Header {
		if len(v) == 0 {
			continue
		}
		if !reflect.DeepEqual(v, want[k]) {
			e.Fail("header %q is %v instead of %v", k, v, want[k])
		}
		delete(want, k)
	}
	if len(want) > 0 {
		e.Fail("headers %v haven't been sent", want)
	}
	// Body:
	s.verifyBody(e, pl, x)
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	counts := map[string]int{}
	for _, x := range a {
		counts[x]++
	}
	for _, x := range b {
		counts[x]--
		if counts[x] < 0 {
			return false
		}
	}
	return true
}

func (s *site) verifyBody(e *Env, pl *plan, x *Exchange) {
	var params []*spec.Param
	if s.method != nil {
		params = s.w.V.BodyParams(s.method)
	}
	if len(params) == 0 {
		if len(bytes.TrimSpace(x.Body)) > 0 {
			e.Fail("unexpected body %.200q", x.Body)
		}
		return
	}
	var want interface{}
	if s.method.IsAction() {
		m := map[string]interface{}{}
		for _, p := range params {
			if v, ok := pl.params[p.Name.ID]; ok {
				m[p.BodyName()] = v.Tree()
			}
		}
		want = m
	} else {
		want = pl.params[params[0].Name.ID].Tree()
	}
	got, err := ParseTree(x.Body)
	if err != nil {
		e.Fail("body isn't valid: %v: %.200q", err, x.Body)
		return
	}
	if d := DiffTree("body", want, got); d != "" {
		e.Fail("wrong body: %s", d)
	}
}

type ctxKey struct{}

// send sends the request.
func (s *site) send(req reflect.Value, ctx context.Context, useCtx bool) (reflect.Value, error) {
	var res []reflect.Value
	if useCtx {
		c := reflect.New(reflect.TypeOf((*context.Context)(nil)).Elem()).Elem()
		if ctx != nil {
			c.Set(reflect.ValueOf(ctx))
		}
		res = Method(req, "SendContext").Call([]reflect.Value{c})
	} else {
		res = Method(req, "Send").Call(nil)
	}
	return res[0], errOf(res[1])
}

func checkRequests(e *Env) {
	for _, s := range e.sites() {
		s := s
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/request/%d", s.key, i), func(r *rand.Rand) {
				rec := &Recorder{}
				rec.Answer = func(x *Exchange) (*http.Response, error) {
					return rec.Respond(204, nil, strings.NewReader("")), nil
				}
				root, segments := s.root(r, rec)
				client, segs := s.descend(r, root, segments, s.path.Locators)
				p := s.full(segs)
				// Another client created from the same root, probably with other identifiers:
				sibling, segs := s.descend(r, root, segments, s.path.Locators)
				p3 := s.full(segs)
				density := []float64{0, 0.5, 1}[i%3]
				pl := s.makePlan(r, density)
				req := s.request(client)
				// Another request created from the same client, that shouldn't interfere:
				other := s.request(client)
				pl2 := s.makePlan(r, 0.7)
				s.apply(r, pl2, other, true)
				s.apply(r, pl, req, true)
				if len(rec.Exchanges) != 0 {
					e.Fail("creating a request performs an exchange")
				}
				ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
				switch i % 3 {
				case 0:
					_, err := s.send(req, nil, false)
					if err != nil {
						e.Fail("send fails: %v", err)
					}
				case 1:
					_, err := s.send(req, ctx, true)
					if err != nil {
						e.Fail("send fails: %v", err)
					}
				default:
					_, err := s.send(req, nil, true)
					if err != nil {
						e.Fail("send fails: %v", err)
					}
				}
				if len(rec.Exchanges) != 1 {
					e.Fail("expected one exchange but there were %d", len(rec.Exchanges))
					return
				}
				if i%3 == 1 && rec.Exchanges[0].Ctx.Value(ctxKey{}) != "mine" {
					e.Fail("the context isn't passed to the transport")
				}
				s.verify(e, pl, rec.Exchanges[0], p)
				// Send again:
				if _, err := s.send(req, ctx, true); err != nil {
					e.Fail("sending again fails: %v", err)
				}
				if len(rec.Exchanges) != 2 {
					e.Fail("sending again performs %d exchanges", len(rec.Exchanges)-1)
					return
				}
				s.verify(e, pl, rec.Exchanges[1], p)
				if _, err := s.send(other, ctx, true); err != nil {
					e.Fail("sending the other request fails: %v", err)
				}
				if len(rec.Exchanges) != 3 {
					e.Fail("sending the other request performs %d exchanges", len(rec.Exchanges)-2)
					return
				}
				s.verify(e, pl2, rec.Exchanges[2], p)
				third := s.request(sibling)
				pl3 := s.makePlan(r, 0.3)
				s.apply(r, pl3, third, true)
				if _, err := s.send(third, ctx, true); err != nil {
					e.Fail("sending with another client fails: %v", err)
				}
				if len(rec.Exchanges) != 4 {
					e.Fail("sending with another client performs %d exchanges", len(rec.Exchanges)-3)
					return
				}
				s.verify(e, pl3, rec.Exchanges[3], p3)
				e.Count("exchanges", 4)
				var set []string
				if s.method != nil {
					for _, x := range s.method.Params {
						if _, ok := pl.params[x.Name.ID]; ok {
							set = append(set, x.Name.ID)
						}
					}
				}
				e.Seen(s.key + "(" + strings.Join(set, ",") + ")")
			})
		}
	}
}

// answer is what the server sends.
type answer struct {
	params map[string]*V
	tree   interface{}
}

func (s *site) makeAnswer(r *rand.Rand, density float64) *answer {
	a := &answer{params: map[string]*V{}}
	if s.method == nil {
		m := Typed{}
		if r.Float64() < density {
			v := randText(r)
			m["server_version"] = v
			a.params["ServerVersion"] = &V{Scalar: v}
		}
		a.tree = m
		return a
	}
	outs := s.method.OutParams()
	if len(outs) == 0 {
		return a
	}
	switch {
	case s.method.IsAction(), s.method.Name.ID == "List", s.method.Name.ID == "Search":
		m := Typed{}
		for _, p := range outs {
			if r.Float64() < density {
				v := s.w.Val(r, p.Type, 2)
				if !isNull(p, v) {
					a.params[p.Name.ID] = v
				}
				m[p.BodyName()] = v.Tree()
			}
		}
		a.tree = m
	default:
		p := outs[0]
		v := s.w.Val(r, p.Type, 2)
		a.params[p.Name.ID] = v
		a.tree = v.Tree()
	}
	return a
}

// checkAnswer checks that the response contains the given output parameters.
func (s *site) checkAnswer(e *Env, what string, res reflect.Value, params map[string]*V) {
	if s.method == nil {
		body := Method(res, "Body").Call(nil)[0]
		v, ok := params["ServerVersion"]
		got := Method(body, "GetServerVersion").Call(nil)
		if got[1].Bool() != ok || (ok && got[0].String() != v.Scalar.(string)) {
			e.Fail("%s: wrong server version %q", what, got[0].String())
		}
		if plain := Method(body, "ServerVersion").Call(nil)[0].String(); plain != got[0].String() {
			e.Fail("%s: wrong server version %q", what, plain)
		}
		return
	}
	for _, p := range s.method.OutParams() {
		got := Method(res, "Get"+p.GoName()).Call(nil)
		plain := Method(res, p.GoName()).Call(nil)[0]
		v, ok := params[p.Name.ID]
		if !ok {
			if got[1].Bool() {
				e.Fail("%s: parameter %s should be absent", what, p.Name.ID)
			}
			if !got[0].IsZero() || !plain.IsZero() {
				e.Fail("%s: absent parameter %s has value %v", what, p.Name.ID, plain)
			}
			continue
		}
		if !got[1].Bool() {
			e.Fail("%s: parameter %s is absent", what, p.Name.ID)
			continue
		}
		for _, x := range []reflect.Value{got[0], plain} {
			if d := Diff(p.Name.ID, v, s.w.ObserveRef(x, p.Type, false)); d != "" {
				e.Fail("%s: %s", what, d)
			}
		}
	}
}

// failures collected while looking at an error object.
func (e *Env) errorMatches(err error, want map[string]interface{}) string {
	x := reflect.ValueOf(err)
	if x.Type() != e.Fn("errors/type Error").Type() {
		return fmt.Sprintf("error has type %s", x.Type())
	}
	for _, f := range errorFields {
		got := Method(x, "Get"+f.goName).Call(nil)
		v, ok := want[f.wire]
		if got[1].Bool() != ok {
			return fmt.Sprintf("presence of %s is %v instead of %v", f.wire, got[1].Bool(), ok)
		}
		plain := Method(x, f.goName).Call(nil)[0]
		if !ok {
			if !plain.IsZero() {
				return fmt.Sprintf("absent %s has value %v", f.wire, plain)
			}
			continue
		}
		for _, y := range []reflect.Value{got[0], plain} {
			obs := y.Interface()
			if t, ok := obs.(*time.Time); ok && t != nil {
				obs = *t
			}
			if !scalarEqual(v, obs) {
				return fmt.Sprintf("%s is %s instead of %s", f.wire, short(obs), short(v))
			}
		}
	}
	return ""
}

type errorField struct {
	wire   string
	goName string
	rand   func(r *rand.Rand) interface{}
}

func text(r *rand.Rand) interface{} { return randText(r) }

var errorFields = []errorField{
	{"status", "Status", func(r *rand.Rand) interface{} { return []int{0, 200, 400, 404, 500, 503, -1, 1 << 40}[r.Intn(8)] }},
	{"id", "ID", text}, {"href", "HREF", text}, {"code", "Code", text}, {"reason", "Reason", text},
	{"operation_id", "OperationID", text},
	{"details", "Details", func(r *rand.Rand) interface{} {
		for {
			if x := randAny(r, 2); x != nil {
				return x
			}
		}
	}},
	{"timestamp", "Timestamp", func(r *rand.Rand) interface{} { return randDate(r) }},
}

func randError(r *rand.Rand, density float64) map[string]interface{} {
	m := map[string]interface{}{}
	for _, f := range errorFields {
		if r.Float64() < density {
			m[f.wire] = f.rand(r)
		}
	}
	return m
}

func errorTree(m map[string]interface{}) Typed {
	t := Typed{"kind": "Error"}
	for k, v := range m {
		t[k] = scalarTree(v)
	}
	return t
}

func (s *site) hasOutput() bool {
	return s.method == nil || len(s.method.OutParams()) > 0
}

func checkResponses(e *Env) {
	for _, s := range e.sites() {
		s := s
		run := func(r *rand.Rand, answer func(rec *Recorder) (*http.Response, error)) (*Recorder, reflect.Value, error) {
			rec := &Recorder{}
			rec.Answer = func(x *Exchange) (*http.Response, error) { return answer(rec) }
			client, _ := s.locate(r, rec)
			req := s.request(client)
			s.apply(r, s.makePlan(r, 0.5), req, false)
			res, err := s.send(req, context.Background(), true)
			if rec.Opened != rec.Closed {
				e.Fail("the body of the response hasn't been closed")
			}
			if len(rec.Exchanges) != 1 {
				e.Fail("expected one exchange but there were %d", len(rec.Exchanges))
			}
			e.Count("exchanges", 1)
			return rec, res, err
		}
		common := func(what string, res reflect.Value, status int, header http.Header) bool {
			if res.IsNil() {
				e.Fail("%s: response is nil", what)
				return false
			}
			if got := Method(res, "Status").Call(nil)[0].Int(); int(got) != status {
				e.Fail("%s: status is %d instead of %d", what, got, status)
			}
			got := Method(res, "Header").Call(nil)[0].Interface().(http.Header)
			e.Count("headers compared", len(header))
			if !reflect.DeepEqual(got, header) {
				e.Fail("%s: headers are %v instead of %v", what, got, header)
			}
			return true
		}
		forbidden := s.w.wireNames(nil)
		if s.method != nil {
			for _, p := range s.method.Params {
				forbidden[p.BodyName()] = true
			}
		}
		forbidden["server_version"] = true
		for i := 0; i < e.N; i++ {
			var header http.Header
			e.Case(fmt.Sprintf("%s/ok/%d", s.key, i), func(r *rand.Rand) {
				header = answerHeader(r)
				a := s.makeAnswer(r, []float64{1, 0, 0.5}[i%3])
				status := []int{200, 201, 202, 204, 299, 304, 200 + r.Intn(200)}[r.Intn(7)]
				body := "ignored"
				if s.hasOutput() {
					body = Text(r, a.tree, junkMaker(r, forbidden))
				}
				large := r.Intn(100) == 0
				if large {
					body = padded(body, 1<<uint(14+r.Intn(9)))
					e.Count("large responses", 1)
				}
				var reader io.Reader = strings.NewReader(body)
				if r.Intn(2) == 0 && !large {
					reader = iotest.OneByteReader(reader)
				}
				_, res, err := run(r, func(rec *Recorder) (*http.Response, error) { return rec.Respond(status, header, reader), nil })
				if err != nil {
					e.Fail("unexpected error: %v: %.300s", err, body)
					return
				}
				if !common("success", res, status, header) {
					return
				}
				if !Method(res, "Error").Call(nil)[0].IsNil() {
					e.Fail("success: response has an error")
				}
				s.checkAnswer(e, "success", res, a.params)
				var set []string
				for k := range a.params {
					set = append(set, k)
				}
				e.Seen(fmt.Sprintf("%s/%d/%d", s.key, len(set), status))
			})
			e.Case(fmt.Sprintf("%s/error/%d", s.key, i), func(r *rand.Rand) {
				header = answerHeader(r)
				status := []int{400, 401, 403, 404, 409, 429, 500, 503, 599, 400 + r.Intn(200)}[r.Intn(10)]
				m := randError(r, []float64{0.6, 0, 1}[i%3])
				body := Text(r, errorTree(m), junkMaker(r, map[string]bool{"kind": true}))
				_, res, err := run(r, func(rec *Recorder) (*http.Response, error) {
					return rec.Respond(status, header, strings.NewReader(body)), nil
				})
				if err == nil {
					e.Fail("status %d doesn't give an error", status)
					return
				}
				m["status"] = status
				if d := e.errorMatches(err, m); d != "" {
					e.Fail("returned error: %s", d)
				}
				if !common("error", res, status, header) {
					return
				}
				x := Method(res, "Error").Call(nil)[0]
				if x.IsNil() {
					e.Fail("error: the response doesn't have the error")
				} else if d := e.errorMatches(x.Interface().(error), m); d != "" {
					e.Fail("error of the response: %s", d)
				}
				s.checkAnswer(e, "error", res, nil)
				e.Count("error responses", 1)
			})
			e.Case(fmt.Sprintf("%s/empty/%d", s.key, i), func(r *rand.Rand) {
				header = answerHeader(r)
				statuses := []int{200, 201, 202, 204, 301, 400, 404, 500}
				status := append(statuses, 200+r.Intn(400))[(i+r.Intn(3)*4)%(len(statuses)+1)]
				_, res, err := run(r, func(rec *Recorder) (*http.Response, error) {
					return rec.Respond(status, header, strings.NewReader("")), nil
				})
				if err != nil {
					e.Fail("empty body with status %d gives error: %v", status, err)
					return
				}
				if common("empty", res, status, header) {
					if !Method(res, "Error").Call(nil)[0].IsNil() {
						e.Fail("empty: response has an error")
					}
					s.checkAnswer(e, "empty", res, nil)
				}
				e.Count("empty responses", 1)
			})
			e.Case(fmt.Sprintf("%s/malformed/%d", s.key, i), func(r *rand.Rand) {
				header = answerHeader(r)
				bads := []string{"not json", "{", "[", "{]", `"x"`, "1", `{"a":`, "\xff", "<html></html>", "{\"kind\": \"X\""}
				bad := bads[r.Intn(len(bads))]
				status := []int{200, 201, 404, 500, 200 + r.Intn(400)}[r.Intn(5)]
				if status < 400 && !s.hasOutput() {
					status = 500
				}
				_, res, err := run(r, func(rec *Recorder) (*http.Response, error) {
					return rec.Respond(status, header, strings.NewReader(bad)), nil
				})
				if err == nil {
					e.Fail("malformed body %q with status %d gives no error", bad, status)
				}
				common("malformed", res, status, header)
				e.Count("malformed responses", 1)
			})
		}
		e.Case(s.key+"/broken", func(r *rand.Rand) {
			// Failure of the transport:
			mine := errors.New("my transport error")
			_, res, err := run(r, func(rec *Recorder) (*http.Response, error) { return nil, mine })
			if err == nil || !errors.Is(err, mine) {
				e.Fail("transport error is returned as %v", err)
			}
			if !res.IsNil() {
				e.Fail("transport error gives a response")
			}
			// Failure while reading the body:
			for _, status := range []int{200, 500} {
				for _, start := range []string{"", "{", `{"kind":`} {
					_, res, err = run(r, func(rec *Recorder) (*http.Response, error) {
						return rec.Respond(status, nil, io.MultiReader(strings.NewReader(start), iotest.ErrReader(mine))), nil
					})
					if err == nil && (status >= 400 || s.hasOutput() || start == "") {
						e.Fail("failure while reading the body after %q with status %d isn't reported", start, status)
					}
				}
			}
			// Nil responses:
			nothing := reflect.Zero(res.Type())
			for i := 0; i < nothing.NumMethod(); i++ {
				m := nothing.Method(i)
				if m.Type().NumIn() > 0 {
					continue
				}
				for _, out := range m.Call(nil) {
					if !out.IsZero() {
						e.Fail("method %s of nil response returns %v", nothing.Type().Method(i).Name, out)
					}
				}
				e.Count("accessors of nil responses", 1)
			}
			e.Seen(s.key + "/broken")
		})
	}
}

// answerHeader creates random headers for an answer, including the ones that have a meaning in HTTP.
func answerHeader(r *rand.Rand) http.Header {
	header := http.Header{"Content-Type": {[]string{"application/json", "application/json; charset=utf-8", "text/html", ""}[r.Intn(4)]}}
	names := []string{"X-One", "Etag", "Location", "Retry-After", "Set-Cookie", "Date", "Server", "Vary", "Last-Modified",
		"Cache-Control", "Content-Encoding", "Content-Length", "Connection", "Transfer-Encoding", "Www-Authenticate", "Warning",
		"X-Operation-Id", "X-Request-Id", "X-Ratelimit-Remaining", "Authorization", "Age", "Expires", "Link", "Allow",
		"Content-Location", "Content-Language", "Strict-Transport-Security", "Via", "Deprecation", "x-lower", "X_Strange.Name"}
	for _, name := range names {
		if r.Intn(3) > 0 {
			continue
		}
		for n := []int{1, 1, 2, 3}[r.Intn(4)]; n > 0; n-- {
			header[name] = append(header[name], []string{"", "1", "0", "gzip", "chunked", "/my/location", "same", "same", "a, b", "ñ"}[r.Intn(10)])
		}
	}
	return header
}

// checkConstants checks the constants for kinds, enumerated values and errors.
func checkConstants(e *Env) {
	for _, w := range e.Worlds {
		w := w
		e.Case(w.Pkg()+"/constants", func(r *rand.Rand) {
			want := func(name string, value interface{}) {
				got := w.Fn(name)
				x := got.Interface()
				if got.Kind() == reflect.String {
					x = got.String()
				}
				if !reflect.DeepEqual(x, value) {
					e.Fail("constant %s is %v instead of %v", name, x, value)
				}
				e.Count("constants", 1)
				e.Seen("constant:" + name)
			}
			for _, t := range w.V.Types {
				switch t.Kind {
				case spec.Class:
					want(t.GoName()+"Kind", t.GoName())
					want(t.GoName()+"LinkKind", t.GoName()+"Link")
					want(t.GoName()+"NilKind", t.GoName()+"Nil")
				case spec.Enum:
					for _, x := range t.Values {
						name := t.GoName() + x.GoName()
						want(name, x.WireName())
						if w.Fn(name).Type() != w.Fn("type "+t.GoName()).Type() {
							e.Fail("constant %s has type %s", name, w.Fn(name).Type())
						}
					}
				}
			}
			for _, x := range w.V.Errors {
				want(x.GoName(), x.Code)
			}
		})
	}
}

// Event is what is recorded for each exchange, to be checked later.
type Event struct {
	Service, Version string
	Site             string
	Verb             string
	Path             string
	Query            url.Values
	Body             string
	Status           int
	Answer           string
	Embedded         string // Only for the document embedded in the code.
}

func (e *Env) record(x *Event) {
	data, err := json.Marshal(x)
	if err != nil {
		panic("harness: " + err.Error())
	}
	e.R.Events = append(e.R.Events, data)
}

// recordExchanges performs exchanges and records them.
func recordExchanges(e *Env) {
	e.Strict = true
	for _, w := range e.Worlds {
		w := w
		e.Case(w.Pkg()+"/embedded", func(r *rand.Rand) {
			data := w.Fn("OpenAPI").Bytes()
			e.record(&Event{Service: w.S.Name.ID, Version: w.V.Name.ID, Embedded: string(data)})
		})
	}
	for _, s := range e.sites() {
		s := s
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/exchange/%d", s.key, i), func(r *rand.Rand) {
				a := s.makeAnswer(r, []float64{1, 0.5}[i%2])
				x := &Event{Service: s.w.S.Name.ID, Version: s.w.V.Name.ID, Site: s.key, Status: 200}
				if s.method != nil {
					x.Status = s.method.Status()
				}
				if s.hasOutput() {
					x.Answer = Text(r, a.tree, nil)
				}
				failed := i%5 == 4
				if failed {
					m := randError(r, 1)
					x.Status = 400 + r.Intn(100)
					m["details"] = map[string]interface{}{"some": "details"}
					m["status"] = x.Status
					x.Answer = Text(r, errorTree(m), nil)
				}
				rec := &Recorder{}
				rec.Answer = func(*Exchange) (*http.Response, error) {
					return rec.Respond(x.Status, http.Header{"Content-Type": {"application/json"}}, strings.NewReader(x.Answer)), nil
				}
				client, _ := s.locate(r, rec)
				req := s.request(client)
				s.apply(r, s.makePlan(r, []float64{1, 0.5, 0}[i%3]), req, false)
				res, err := s.send(req, context.Background(), true)
				if (err != nil) != failed {
					e.Fail("status %d with body %.300s gives error: %v", x.Status, x.Answer, err)
					return
				}
				if !failed {
					s.checkAnswer(e, "answer", res, a.params)
				}
				for _, y := range rec.Exchanges {
					z := *x
					z.Verb, z.Path, z.Query, z.Body = y.Verb, y.Path, y.Query, string(y.Body)
					e.record(&z)
					e.Count("exchanges recorded", 1)
				}
			})
		}
	}
}
