package drv

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/spec"
)

func init() {
	checks["C14"] = checkErrors
	checks["C23"] = checkHelpers
}

// buildError builds an error object.
func (e *Env) buildError(r *rand.Rand, m map[string]interface{}) reflect.Value {
	b := e.Fn("errors/NewError").Call(nil)[0]
	e.fillError(r, b, m)
	x, err := Build(b)
	if err != nil {
		panic(err)
	}
	return x
}

func (e *Env) fillError(r *rand.Rand, b reflect.Value, m map[string]interface{}) {
	for _, i := range r.Perm(len(errorFields)) {
		f := errorFields[i]
		v, ok := m[f.wire]
		if !ok {
			continue
		}
		arg := reflect.ValueOf(v)
		if f.wire == "timestamp" {
			t := v.(time.Time)
			arg = reflect.ValueOf(&t)
		}
		Method(b, f.goName).Call([]reflect.Value{arg})
	}
}

func (e *Env) marshalError(x reflect.Value) (string, error) {
	var buf bytes.Buffer
	err := errOf(e.Fn("errors/MarshalError").Call([]reflect.Value{x, reflect.ValueOf(&buf)})[0])
	return buf.String(), err
}

func (e *Env) checkErrorText(x reflect.Value, m map[string]interface{}) {
	text := x.Interface().(error).Error()
	for _, f := range []string{"status", "id", "code", "reason", "operation_id"} {
		if v, ok := m[f]; ok && !strings.Contains(text, fmt.Sprintf("%v", v)) {
			e.Fail("text of the error doesn't contain the %s %s: %.300q", f, short(v), text)
		}
	}
	if v, ok := m["timestamp"]; ok && !strings.Contains(text, v.(time.Time).Format(time.RFC3339)) {
		e.Fail("text of the error doesn't contain the timestamp: %.300q", text)
	}
	if text == "" && m["reason"] == nil {
		e.Fail("text of the error is empty")
	}
	if got := Method(x, "String").Call(nil)[0].String(); got != text {
		e.Fail("string of the error is %q but text is %q", got, text)
	}
	for f, label := range map[string]string{"status": "status is", "id": "identifier is '", "code": "code is", "operation_id": "operation identifier is", "timestamp": "at '"} {
		_, ok := m[f]
		if f == "id" {
			// The label is also part of the label of the operation:
			_, op := m["operation_id"]
			ok = ok || op
		}
		if !ok && onlySimple(m) && strings.Contains(text, label) {
			e.Fail("text of the error mentions %s, but it is absent: %q", f, text)
		}
	}
}

// onlySimple returns true if the texts inside the error can't be confused with the labels.
func onlySimple(m map[string]interface{}) bool {
	for _, v := range m {
		if s, ok := v.(string); ok && (strings.Contains(s, " is") || strings.Contains(s, "at ")) {
			return false
		}
	}
	return true
}

func checkErrors(e *Env) {
	checkConstants(e)
	for i := 0; i < e.N*4; i++ {
		density := []float64{0.5, 1, 0, 0.2, 0.8}[i%5]
		e.Case(fmt.Sprintf("object/%d", i), func(r *rand.Rand) {
			m := randError(r, density)
			x := e.buildError(r, m)
			if d := e.errorMatches(x.Interface().(error), m); d != "" {
				e.Fail("built error: %s", d)
			}
			if k := Method(x, "Kind").Call(nil)[0].String(); k != "Error" {
				e.Fail("kind is %q", k)
			}
			e.checkErrorText(x, m)
			// Later use of the builder doesn't change the object:
			b := e.Fn("errors/NewError").Call(nil)[0]
			e.fillError(r, b, m)
			first, _ := Build(b)
			e.fillError(r, b, randError(r, 1))
			if d := e.errorMatches(first.Interface().(error), m); d != "" {
				e.Fail("error after using the builder again: %s", d)
			}
			// Copy:
			b = e.Fn("errors/NewError").Call(nil)[0]
			e.fillError(r, b, randError(r, 0.7))
			Method(b, "Copy").Call([]reflect.Value{x})
			c, err := Build(b)
			if err != nil {
				e.Fail("can't build copy: %v", err)
				return
			}
			if d := e.errorMatches(c.Interface().(error), m); d != "" {
				e.Fail("copy of error: %s", d)
			}
			// Setting again replaces only what is set:
			b = e.Fn("errors/NewError").Call(nil)[0]
			merged := map[string]interface{}{}
			for k := 0; k < 3; k++ {
				n := randError(r, 0.5)
				e.fillError(r, b, n)
				for f, v := range n {
					merged[f] = v
				}
				if r.Intn(3) == 0 {
					var none *time.Time
					Method(b, "Timestamp").Call([]reflect.Value{reflect.ValueOf(none)})
					delete(merged, "timestamp")
				}
				c, _ = Build(b)
				if d := e.errorMatches(c.Interface().(error), merged); d != "" {
					e.Fail("error built after setting attributes several times: %s", d)
				}
			}
			if text, err := e.marshalError(c); err != nil {
				e.Fail("can't marshal error: %v", err)
			} else if tree, err := ParseTree([]byte(text)); err != nil {
				e.Fail("error isn't valid JSON: %v: %s", err, text)
			} else if d := DiffTree("$", errorTree(merged), tree); d != "" {
				e.Fail("JSON of error built after setting attributes several times: %s", d)
			}
			e.checkErrorText(c, merged)
			// Empty details replace the previous ones:
			b = e.Fn("errors/NewError").Call(nil)[0]
			none := reflect.Zero(reflect.TypeOf((*interface{})(nil)).Elem())
			Method(b, "Details").Call([]reflect.Value{none})
			c, _ = Build(b)
			b = e.Fn("errors/NewError").Call(nil)[0]
			e.fillError(r, b, randError(r, 1))
			Method(b, "Copy").Call([]reflect.Value{c})
			c, _ = Build(b)
			if v := Method(c, "Details").Call(nil)[0]; !v.IsNil() {
				e.Fail("copy of error with nil details has details %v", v)
			}
			// Copy of nothing:
			b = e.Fn("errors/NewError").Call(nil)[0]
			e.fillError(r, b, m)
			Method(b, "Copy").Call([]reflect.Value{reflect.Zero(x.Type())})
			c, _ = Build(b)
			if d := e.errorMatches(c.Interface().(error), m); d != "" {
				e.Fail("copy of nil error: %s", d)
			}
			// JSON:
			text, err := e.marshalError(x)
			if err != nil {
				e.Fail("can't marshal error: %v", err)
				return
			}
			for _, bad := range []io.Writer{badWriter{}, &fullWriter{room: r.Intn(len(text))}} {
				if e.Fn("errors/MarshalError").Call([]reflect.Value{x, reflect.ValueOf(bad)})[0].IsNil() {
					e.Fail("failure of the writer of the error isn't reported")
				}
			}
			tree, err := ParseTree([]byte(text))
			if err != nil {
				e.Fail("error isn't valid JSON: %v: %s", err, text)
				return
			}
			want := errorTree(m)
			if d := DiffTree("$", want, tree); d != "" {
				e.Fail("JSON of error: %s", d)
			}
			for _, s := range []string{text, Text(r, want, nil), Text(r, want, junkMaker(r, map[string]bool{"kind": true, "status": true}))} {
				name, src := e.source(r, s)
				res := e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue(src)})
				if err := errOf(res[1]); err != nil {
					e.Fail("can't unmarshal error from %s: %v: %.300s", name, err, s)
					return
				}
				if d := e.errorMatches(res[0].Interface().(error), m); d != "" {
					e.Fail("unmarshalled error: %s", d)
				}
				status := []int{400, 404, 500, 0}[r.Intn(4)]
				_, src = e.source(r, s)
				res = e.Fn("errors/UnmarshalErrorStatus").Call([]reflect.Value{anyValue(src), reflect.ValueOf(status)})
				if err := errOf(res[1]); err != nil {
					e.Fail("can't unmarshal error: %v", err)
					return
				}
				n := map[string]interface{}{}
				for k, v := range m {
					n[k] = v
				}
				n["status"] = status
				if d := e.errorMatches(res[0].Interface().(error), n); d != "" {
					e.Fail("unmarshalled error with status: %s", d)
				}
			}
			// Truncated and wrong:
			trimmed := strings.TrimSpace(text)
			for k := 0; k < len(trimmed); k += 1 + len(trimmed)/100 {
				_, src := e.source(r, trimmed[:k])
				if err := errOf(e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue(src)})[1]); err == nil {
					e.Fail("truncated error is accepted: %q", trimmed[:k])
					break
				}
			}
			// Sending:
			e.sendError(r, x, m)
			var keys []string
			for _, f := range errorFields {
				if _, ok := m[f.wire]; ok {
					keys = append(keys, f.wire)
				}
			}
			e.Seen("error:" + strings.Join(keys, ","))
			e.Count("errors", 1)
		})
	}
	e.Case("wrong", func(r *rand.Rand) {
		for _, s := range []string{`{"status":"x"}`, `{"id":1}`, `{"href":1}`, `{"code":1}`, `{"reason":{}}`, `{"operation_id":[]}`,
			`{"timestamp":"junk"}`, `{"timestamp":1}`, `[]`, `"x"`, ``, `{"details":}`} {
			if err := errOf(e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue(s)})[1]); err == nil {
				e.Fail("wrong error %q is accepted", s)
			}
			if err := errOf(e.Fn("errors/UnmarshalErrorStatus").Call([]reflect.Value{anyValue(s), reflect.ValueOf(500)})[1]); err == nil {
				e.Fail("wrong error %q is accepted", s)
			}
		}
	})
	e.Case("nil", func(r *rand.Rand) {
		x := reflect.Zero(e.Fn("errors/type Error").Type())
		if k := Method(x, "Kind").Call(nil)[0].String(); k != "ErrorNil" {
			e.Fail("kind of nil error is %q", k)
		}
		for _, f := range errorFields {
			if !Method(x, f.goName).Call(nil)[0].IsZero() || Method(x, "Get"+f.goName).Call(nil)[1].Bool() {
				e.Fail("nil error has %s", f.wire)
			}
		}
		// A nil timestamp is the same as no timestamp:
		b := e.Fn("errors/NewError").Call(nil)[0]
		Method(b, "ID").Call([]reflect.Value{reflect.ValueOf("1")})
		var none *time.Time
		Method(b, "Timestamp").Call([]reflect.Value{reflect.ValueOf(none)})
		y, _ := Build(b)
		e.checkErrorText(y, map[string]interface{}{"id": "1"})
		text, err := e.marshalError(y)
		if err != nil {
			e.Fail("can't marshal error without timestamp: %v", err)
		}
		res := e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue(text)})
		if err := errOf(res[1]); err != nil {
			e.Fail("can't read back error without timestamp: %v", err)
		}
	})
	e.Case("helpers", func(r *rand.Rand) {
		for name, status := range map[string]int{"SendNotFound": 404, "SendMethodNotAllowed": 405, "SendInternalServerError": 500} {
			w := httptest.NewRecorder()
			request := httptest.NewRequest("PUT", "/my/path%20x?q=1", nil)
			e.Fn("errors/" + name).Call([]reflect.Value{reflect.ValueOf(w), reflect.ValueOf(request)})
			if w.Code != status {
				e.Fail("%s sends status %d", name, w.Code)
			}
			x := e.decodeSent(name, w)
			if !x.IsValid() {
				continue
			}
			if id := Method(x, "ID").Call(nil)[0].String(); id != strconv.Itoa(status) {
				e.Fail("%s sends identifier %q", name, id)
			}
			reason := Method(x, "Reason").Call(nil)[0].String()
			if !strings.Contains(reason, "/my/path x") {
				e.Fail("%s sends reason %q, without the path", name, reason)
			}
			if status != 404 && !strings.Contains(reason, "PUT") {
				e.Fail("%s sends reason %q, without the method", name, reason)
			}
			e.Seen("helper:" + name)
		}
		w := httptest.NewRecorder()
		e.Fn("errors/SendPanic").Call([]reflect.Value{reflect.ValueOf(w), reflect.ValueOf(httptest.NewRequest("GET", "/x", nil))})
		if w.Code < 500 {
			e.Fail("SendPanic sends status %d", w.Code)
		}
		if x := e.decodeSent("SendPanic", w); x.IsValid() && Method(x, "Reason").Call(nil)[0].String() == "" {
			e.Fail("SendPanic doesn't send a reason")
		}
		for id, status := range map[string]int{"400": 400, "404": 404, "409": 409, "503": 503, "599": 599} {
			m := randError(r, 0.5)
			m["id"] = id
			x := e.buildError(r, m)
			w := e.sendError(r, x, m)
			if w.Code != status {
				e.Fail("error with identifier %q is sent with status %d", id, w.Code)
			}
			e.Seen("sent:" + id)
		}
		for _, id := range []string{"", "abc", "CLUSTERS-MGMT-404", "4 04", "99", "-1", "1000", "999999999999999999999"} {
			x := e.buildError(r, map[string]interface{}{"id": id, "reason": "bad"})
			w := httptest.NewRecorder()
			e.Fn("errors/SendError").Call([]reflect.Value{reflect.ValueOf(w), reflect.ValueOf(httptest.NewRequest("GET", "/x", nil)), x})
			if w.Code < 400 {
				e.Fail("error with identifier %q is sent with status %d", id, w.Code)
			}
			e.decodeSent("SendError", w)
		}
	})
}

// sendError sends the error, when it has an identifier that can be used as status.
func (e *Env) sendError(r *rand.Rand, x reflect.Value, m map[string]interface{}) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	id, _ := m["id"].(string)
	n, err := strconv.Atoi(id)
	if err == nil && n >= 100 && n < 400 {
		// Not a status for errors, and some of these don't allow a body.
		return w
	}
	e.Fn("errors/SendError").Call([]reflect.Value{reflect.ValueOf(w), reflect.ValueOf(httptest.NewRequest("GET", "/x", nil)), x})
	y := e.decodeSent("SendError", w)
	if err == nil && n >= 400 && n <= 999 && y.IsValid() {
		if w.Code != n {
			e.Fail("error with identifier %q is sent with status %d", id, w.Code)
		}
		if d := e.errorMatches(y.Interface().(error), m); d != "" {
			e.Fail("sent error: %s", d)
		}
	}
	return w
}

func (e *Env) decodeSent(name string, w *httptest.ResponseRecorder) reflect.Value {
	if t := w.Header().Get("Content-Type"); !strings.HasPrefix(t, "application/json") {
		e.Fail("%s sends content type %q", name, t)
	}
	if _, err := ParseTree(w.Body.Bytes()); err != nil {
		e.Fail("%s sends invalid JSON: %v: %s", name, err, w.Body.Bytes())
		return reflect.Value{}
	}
	res := e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue(w.Body.Bytes())})
	if err := errOf(res[1]); err != nil {
		e.Fail("%s sends an error that can't be read: %v", name, err)
		return reflect.Value{}
	}
	e.Count("sent errors", 1)
	return res[0]
}

func anyValue(x interface{}) reflect.Value {
	v := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
	if x != nil {
		v.Set(reflect.ValueOf(x))
	}
	return v
}

// mutateText changes, inserts or deletes one character of the text of a value.
func mutateText(r *rand.Rand, text string) string {
	const chars = " +-_.,:TtZzeEx0159\x00\n/"
	i := r.Intn(len(text) + 1)
	c := string(chars[r.Intn(len(chars))])
	switch {
	case r.Intn(3) == 0:
		return text[:i] + c + text[i:]
	case i == len(text):
		return text + text
	case r.Intn(2) == 0:
		return text[:i] + c + text[i+1:]
	default:
		return text[:i] + text[i+1:]
	}
}

// validText says if a text is the representation of a value of a scalar type.
func validText(typ, text string) bool {
	var err error
	switch typ {
	case "Integer":
		_, err = strconv.ParseInt(text, 10, 64)
	case "Float":
		_, err = strconv.ParseFloat(text, 64)
	case "Boolean":
		_, err = strconv.ParseBool(text)
	case "Date":
		_, err = time.Parse(time.RFC3339, text)
	}
	return err == nil
}

func checkHelpers(e *Env) {
	type parser struct {
		name string
		typ  string
		bad  []string
	}
	parsers := []parser{
		{"ParseInteger", "Integer", []string{"", "x", "1.5", "1e3", "0x10", "99999999999999999999", " 1", "1 ", "true"}},
		{"ParseFloat", "Float", []string{"", "x", "1,5", "1.5.5", " 1", "true"}},
		{"ParseBoolean", "Boolean", []string{"", "x", "yes", "no", "2", "truee", " true"}},
		{"ParseDate", "Date", []string{"", "x", "2020-01-01", "2020-13-01T00:00:00Z", "1577836800", "2020-01-01T00:00:00", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00 02:00", "2020-01-01T00:00:00+0200"}},
		{"ParseString", "String", nil},
	}
	parse := func(p parser, q url.Values, name string) (reflect.Value, error) {
		res := e.Fn("helpers/" + p.name).Call([]reflect.Value{reflect.ValueOf(q), reflect.ValueOf(name)})
		return res[0], errOf(res[1])
	}
	snapshot := func(q map[string][]string) map[string][]string {
		c := map[string][]string{}
		for k, v := range q {
			c[k] = append([]string{}, v...)
		}
		return c
	}
	for _, p := range parsers {
		p := p
		for i := 0; i < e.N*4; i++ {
			e.Case(fmt.Sprintf("%s/%d", p.name, i), func(r *rand.Rand) {
				x := randScalar(r, nil, spec.MakeName(strings.ToLower(p.typ)))
				q := url.Values{"other": {"1", "2"}, "my_paramx": {"wrong"}}
				e.Fn("helpers/AddValue").Call([]reflect.Value{reflect.ValueOf(&q), reflect.ValueOf("my_param"), anyValue(x)})
				// Travel in the URL:
				q, err := url.ParseQuery(q.Encode())
				if err != nil {
					e.Fail("encoded query isn't valid: %v", err)
					return
				}
				before := snapshot(q)
				got, err := parse(p, q, "my_param")
				if err != nil || got.IsNil() || !scalarEqual(x, got.Elem().Interface()) {
					e.Fail("%s reads %v (error %v) instead of %s from %v", p.name, got, err, short(x), q["my_param"])
				}
				got, err = parse(p, q, "absent")
				if err != nil || !got.IsNil() {
					e.Fail("%s of absent parameter gives %v and %v", p.name, got, err)
				}
				got, err = parse(p, nil, "absent")
				if err != nil || !got.IsNil() {
					e.Fail("%s of absent query gives %v and %v", p.name, got, err)
				}
				got, err = parse(p, url.Values{"empty": {}}, "empty")
				if err != nil || !got.IsNil() {
					e.Fail("%s of parameter without values gives %v and %v", p.name, got, err)
				}
				_, err = parse(p, url.Values{"twice": {q["my_param"][0], q["my_param"][0]}}, "twice")
				if err == nil || !strings.Contains(err.Error(), "twice") {
					e.Fail("%s of parameter with two values gives error %v", p.name, err)
				}
				bads := append([]string{}, p.bad...)
				for j := 0; p.bad != nil && j < 20; j++ {
					if text := mutateText(r, q["my_param"][0]); !validText(p.typ, text) {
						bads = append(bads, text)
						e.Count("mutated values", 1)
					}
				}
				for _, bad := range bads {
					got, err := parse(p, url.Values{"wrong": {bad}}, "wrong")
					if err == nil {
						e.Fail("%s accepts %q as %v", p.name, bad, got.Elem())
					} else if !strings.Contains(err.Error(), "wrong") {
						e.Fail("error of %s doesn't mention the parameter: %v", p.name, err)
					} else if !got.IsNil() {
						e.Fail("%s returns a value and an error for %q", p.name, bad)
					}
				}
				if !reflect.DeepEqual(before, snapshot(q)) {
					e.Fail("%s modifies the query", p.name)
				}
				e.Count("values", 1)
				e.Seen(p.name + ":" + short(x))
			})
		}
	}
	for i := 0; i < e.N*4; i++ {
		e.Case(fmt.Sprintf("copies/%d", i), func(r *rand.Rand) {
			src := map[string][]string{}
			for j := 0; j < i%5; j++ {
				name := []string{"One", "Two", "Three", "Four", "one", "ñ x"}[r.Intn(6)]
				for k := 0; k < r.Intn(4); k++ {
					src[name] = append(src[name], randText(r))
				}
				if r.Intn(5) == 0 {
					src[name] = []string{}
				}
			}
			before := snapshot(src)
			q := e.Fn("helpers/CopyQuery").Call([]reflect.Value{reflect.ValueOf(url.Values(src))})[0].Interface().(url.Values)
			h := e.Fn("helpers/CopyHeader").Call([]reflect.Value{reflect.ValueOf(http.Header(src))})[0].Interface().(http.Header)
			if !reflect.DeepEqual(snapshot(q), before) {
				e.Fail("copied query is %v instead of %v", q, before)
			}
			if !reflect.DeepEqual(snapshot(h), before) {
				e.Fail("copied header is %v instead of %v", h, before)
			}
			// Changing the copies doesn't change the original:
			for k := range q {
				for j := range q[k] {
					q[k][j] = "changed"
				}
				q[k] = append(q[k], "more")
				delete(q, k)
			}
			for k := range h {
				for j := range h[k] {
					h[k][j] = "changed"
				}
				_ = append(h[k][:0], "x", "y", "z")
			}
			h.Add("new", "value")
			if !reflect.DeepEqual(snapshot(src), before) {
				e.Fail("changing the copies changes the original")
			}
			// Adding:
			query := url.Values(snapshot(src))
			header := http.Header(snapshot(src))
			if i%7 == 0 {
				query, header, before = nil, nil, map[string][]string{}
			}
			type add struct {
				v interface{}
				t string
			}
			d := randDate(r)
			adds := []add{{"text", "text"}, {1, "1"}, {true, "true"}, {1.5, "1.5"}, {int64(7), "7"}, {[]string{"a"}, "[a]"}}
			a := adds[r.Intn(len(adds))]
			name := []string{"One", "New", "Two"}[r.Intn(3)]
			e.Fn("helpers/AddValue").Call([]reflect.Value{reflect.ValueOf(&query), reflect.ValueOf(name), anyValue(a.v)})
			e.Fn("helpers/AddValue").Call([]reflect.Value{reflect.ValueOf(&query), reflect.ValueOf(name), anyValue(d)})
			wq := append(append([]string{}, before[name]...), a.t, d.UTC().Format(time.RFC3339))
			if !reflect.DeepEqual(query[name], wq) {
				e.Fail("after adding the values of %s are %q instead of %q", name, query[name], wq)
			}
			e.Fn("helpers/AddHeader").Call([]reflect.Value{reflect.ValueOf(&header), reflect.ValueOf(strings.ToLower(name)), anyValue(a.v)})
			wh := append(append([]string{}, before[name]...), a.t)
			if !reflect.DeepEqual(header[name], wh) {
				e.Fail("after adding the headers %s are %q instead of %q", name, header[name], wh)
			}
			e.Fn("helpers/AddImpersonationHeader").Call([]reflect.Value{reflect.ValueOf(&header), reflect.ValueOf("me")})
			if !reflect.DeepEqual(header["Impersonate-User"], []string{"me"}) {
				e.Fail("impersonation header is %q", header["Impersonate-User"])
			}
			delete(query, name)
			delete(header, name)
			delete(header, "Impersonate-User")
			delete(before, name)
			if !reflect.DeepEqual(snapshot(query), before) || !reflect.DeepEqual(snapshot(header), before) {
				e.Fail("adding changes other values")
			}
			list := []string{"a", "b", "c"}[:i%4]
			c := e.Fn("helpers/CopyValues").Call([]reflect.Value{reflect.ValueOf(list)})[0].Interface().([]string)
			if len(c) != len(list) || strings.Join(c, ",") != strings.Join(list, ",") {
				e.Fail("copy of %q is %q", list, c)
			}
			for j := range c {
				c[j] = "changed"
			}
			if len(list) > 0 && list[0] != "a" {
				e.Fail("changing the copy changes the original list")
			}
			e.Count("copies", 1)
			e.Seen(fmt.Sprintf("copy:%d/%d", len(src), i%7))
		})
	}
	e.Case("nils", func(r *rand.Rand) {
		if x := e.Fn("helpers/CopyQuery").Call([]reflect.Value{reflect.ValueOf(url.Values(nil))})[0]; x.Len() != 0 {
			e.Fail("copy of nil query isn't empty")
		}
		if x := e.Fn("helpers/CopyHeader").Call([]reflect.Value{reflect.ValueOf(http.Header(nil))})[0]; x.Len() != 0 || x.IsNil() {
			e.Fail("copy of nil header isn't an empty header")
		}
		if x := e.Fn("helpers/CopyValues").Call([]reflect.Value{reflect.ValueOf([]string(nil))})[0]; x.Len() != 0 {
			e.Fail("copy of nil values isn't empty")
		}
		// Segments:
		for _, parts := range [][]string{{"a"}, {"a", "b"}, {"api", "v1", "things", "123"}, {"a b", "ñ"}, {"a", "", "b"}} {
			for _, prefix := range []string{"", "/", "//", "////"} {
				for _, suffix := range []string{"", "/", "//"} {
					got := e.Fn("helpers/Segments").Call([]reflect.Value{reflect.ValueOf(prefix + strings.Join(parts, "/") + suffix)})[0].Interface().([]string)
					if !reflect.DeepEqual(got, parts) {
						e.Fail("segments of %q with prefix %q and suffix %q are %q", parts, prefix, suffix, got)
					}
				}
			}
		}
		// Constructors of pointers:
		now := time.Unix(1577836800, 0)
		for name, x := range map[string]interface{}{"NewBoolean": true, "NewInteger": 42, "NewFloat": 1.5, "NewString": "x", "NewDate": now} {
			a := e.Fn("helpers/" + name).Call([]reflect.Value{reflect.ValueOf(x)})[0]
			b := e.Fn("helpers/" + name).Call([]reflect.Value{reflect.ValueOf(x)})[0]
			if a.Elem().Interface() != x || a.Pointer() == b.Pointer() {
				e.Fail("%s doesn't return a new pointer to the value", name)
			}
			e.Seen(name)
		}
	})
	// What the clients of the model send is what the helpers read:
	for _, s := range e.sites() {
		s := s
		if s.method == nil || len(s.w.V.QueryParams(s.method)) == 0 {
			continue
		}
		for i := 0; i < e.N; i++ {
			e.Case(fmt.Sprintf("%s/query/%d", s.key, i), func(r *rand.Rand) {
				rec := &Recorder{}
				rec.Answer = func(x *Exchange) (*http.Response, error) {
					return rec.Respond(204, nil, strings.NewReader("")), nil
				}
				client, _ := s.locate(r, rec)
				req := s.request(client)
				pl := s.makePlan(r, 0.6)
				s.apply(r, pl, req, false)
				if _, err := s.send(req, nil, false); err != nil || len(rec.Exchanges) != 1 {
					e.Fail("can't send request: %v", err)
					return
				}
				q := rec.Exchanges[0].Query
				for _, p := range s.w.V.QueryParams(s.method) {
					name := "ParseString"
					switch p.Type.Name.ID {
					case "Boolean", "Integer", "Float", "Date":
						name = "Parse" + p.Type.Name.ID
					case "Long":
						name = "ParseInteger"
					}
					got, err := parse(parser{name: name}, q, p.QueryName())
					v, ok := pl.params[p.Name.ID]
					if err != nil {
						e.Fail("can't read parameter %s: %v", p.Name.ID, err)
						continue
					}
					if got.IsNil() != !ok {
						e.Fail("presence of parameter %s is %v instead of %v", p.Name.ID, !got.IsNil(), ok)
						continue
					}
					if !ok {
						continue
					}
					want := v.Scalar
					if x, ok := want.(int64); ok {
						want = int(x)
					}
					if !scalarEqual(want, got.Elem().Interface()) {
						e.Fail("parameter %s is read as %v instead of %s", p.Name.ID, got.Elem(), short(want))
					}
					e.Count("query parameters", 1)
					e.Seen(s.key + "." + p.Name.ID)
				}
			})
		}
	}
}
