package drv

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/harness/spec"
)

func init() {
	checks["C19"] = checkConcurrency
}

// actor is what one goroutine does: a sequence of operations. It uses its own environment, so that the
// monitors don't add synchronisation that would hide races.
type actor struct {
	e     *Env
	r     *rand.Rand
	ops   []func(e *Env, r *rand.Rand)
	start []time.Time
	end   []time.Time
}

// together runs the actors at the same time, and merges what they observed.
func (e *Env) together(label string, r *rand.Rand, actors []*actor) {
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for _, a := range actors {
		a := a
		own := *e
		own.cur = label
		own.R = &Result{Distinct: map[string]bool{}, Counters: map[string]int{}}
		a.e = &own
		a.r = rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, op := range a.ops {
				switch a.r.Intn(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(a.r.Intn(50)) * time.Microsecond)
				}
				a.start = append(a.start, time.Now())
				func() {
					defer func() {
						if p := recover(); p != nil {
							if s, ok := p.(string); ok && strings.HasPrefix(s, "harness:") {
								a.e.R.Harness = append(a.e.R.Harness, s)
								return
							}
							a.e.Fail("panic: %v", p)
							if n := len(a.e.R.Violations); n > 0 {
								a.e.R.Violations[n-1].Detail = string(debug.Stack())
							}
						}
					}()
					op(a.e, a.r)
				}()
				a.end = append(a.end, time.Now())
			}
		}()
	}
	close(gate)
	wg.Wait()
	// Merge, and find out what happened at the same time:
	type event struct {
		at    time.Time
		who   int
		start bool
	}
	var events []event
	for i, a := range actors {
		for _, v := range a.e.R.Violations {
			e.R.Violations = append(e.R.Violations, v)
		}
		e.R.Harness = append(e.R.Harness, a.e.R.Harness...)
		for k, v := range a.e.R.Counters {
			e.R.Counters[k] += v
		}
		for k := range a.start {
			events = append(events, event{a.start[k], i, true}, event{a.end[k], i, false})
		}
		e.R.Evaluations += len(a.ops)
		e.Count("operations", len(a.ops))
	}
	sort.SliceStable(events, func(i, j int) bool { return events[i].at.Before(events[j].at) })
	h := fnv.New64a()
	running, overlaps := 0, 0
	for _, x := range events {
		fmt.Fprintf(h, "%d%v ", x.who, x.start)
		if x.start {
			overlaps += running
			running++
		} else {
			running--
		}
	}
	e.Count("pairs of operations observed at the same time", overlaps)
	if overlaps > 0 {
		e.R.Distinct[fmt.Sprintf("%s schedule %x", label, h.Sum64())] = true
	}
}

func checkConcurrency(e *Env) {
	runtime.GOMAXPROCS(8)
	for i := 0; i < e.N; i++ {
		for _, w := range e.Worlds {
			w, i := w, i
			e.Case(fmt.Sprintf("%s/objects/%d", w.Pkg(), i), func(r *rand.Rand) { e.shareObjects(r, w) })
			e.Case(fmt.Sprintf("%s/builders/%d", w.Pkg(), i), func(r *rand.Rand) { e.shareBuilders(r, w) })
			e.Case(fmt.Sprintf("%s/clients/%d", w.Pkg(), i), func(r *rand.Rand) { e.shareClients(r, w) })
			e.Case(fmt.Sprintf("%s/data/%d", w.Pkg(), i), func(r *rand.Rand) { e.shareData(r, w) })
		}
		e.Case(fmt.Sprintf("errors/%d", i), func(r *rand.Rand) { e.shareErrors(r) })
	}
	if len(e.R.Samples) == 0 {
		for _, k := range sortedKeys(e.R.Distinct) {
			if len(e.R.Samples) < 5 {
				e.R.Samples = append(e.R.Samples, k)
			}
		}
	}
}

const goroutines = 6

func crowd(n int, op func() func(e *Env, r *rand.Rand)) []*actor {
	var l []*actor
	for g := 0; g < goroutines; g++ {
		a := &actor{}
		for i := 0; i < n; i++ {
			a.ops = append(a.ops, op())
		}
		l = append(l, a)
	}
	return l
}

// readOp returns an operation that only reads a shared object.
func readOp(r *rand.Rand, w *World, t *spec.Type, x reflect.Value, o *O, text string, data []byte) func(e *Env, r *rand.Rand) {
	switch r.Intn(6) {
	case 0, 1:
		return func(e *Env, r *rand.Rand) {
			e.checkObject("shared object", x, o)
			e.Count("observations", 1)
		}
	case 2:
		return func(e *Env, r *rand.Rand) {
			got, err := w.marshal(t, x)
			if err != nil || !o.sameText(got, text) {
				e.Fail("shared object is written as %.300s instead of %.300s: %v", got, text, err)
			}
			e.Count("marshals", 1)
		}
	case 3:
		return func(e *Env, r *rand.Rand) {
			y, err := w.unmarshal(t, data)
			if err != nil {
				e.Fail("can't read shared text: %v", err)
				return
			}
			e.checkObject("object read from a shared text", y, o)
			e.Count("unmarshals", 1)
		}
	case 4:
		return func(e *Env, r *rand.Rand) {
			// A copy that is then changed:
			b := w.Fn("New" + t.GoName()).Call(nil)[0]
			Method(b, "Copy").Call([]reflect.Value{x})
			y, err := Build(b)
			if err != nil {
				e.Fail("can't copy shared object: %v", err)
				return
			}
			e.checkObject("copy of shared object", y, o)
			other := w.Object(r, t, 2, 0.5)
			other.Fill(r, b)
			if _, err := Build(b); err != nil {
				e.Fail("can't build changed copy: %v", err)
			}
			e.Count("copies", 1)
		}
	default:
		return func(e *Env, r *rand.Rand) {
			Method(x, "Empty").Call(nil)
			if t.Kind == spec.Class {
				Method(x, "Kind").Call(nil)
			}
			// Part of another object:
			b := w.Fn("New" + t.GoName() + "List").Call(nil)[0]
			one := w.Fn("New" + t.GoName()).Call(nil)[0]
			Method(one, "Copy").Call([]reflect.Value{x})
			b.MethodByName("Items").Call([]reflect.Value{one, one})
			l, err := Build(b)
			if err != nil {
				e.Fail("can't build list: %v", err)
				return
			}
			for i := 0; i < 2; i++ {
				e.checkObject("item of a list", Method(l, "Get").Call([]reflect.Value{reflect.ValueOf(i)})[0], o)
			}
			e.Count("lists", 1)
		}
	}
}

func (e *Env) shareObjects(r *rand.Rand, w *World) {
	types := w.Objects()
	if len(types) == 0 {
		return
	}
	type shared struct {
		t    *spec.Type
		x    reflect.Value
		o    *O
		text string
		list reflect.Value
		vals *V
	}
	var all []*shared
	for i := 0; i < 3; i++ {
		t := types[r.Intn(len(types))]
		o := w.Object(r, t, 3, []float64{0.4, 0.8, 1}[i%3])
		s := &shared{t: t, o: o, x: o.MustBuild(r)}
		text, err := w.marshal(t, s.x)
		if err != nil {
			e.Fail("can't write object: %v", err)
			return
		}
		s.text = text
		if r.Intn(3) == 0 {
			if y, err := w.unmarshal(t, text); err == nil {
				s.x = y // Objects that have been read are as good as those that have been built.
			}
		}
		s.vals = &V{List: []*V{}}
		for k := 0; k < r.Intn(4); k++ {
			s.vals.List = append(s.vals.List, &V{Obj: w.Object(r, t, 1, 0.5)})
		}
		s.list, err = Build(w.ListBuilder(r, t, s.vals.List))
		if err != nil {
			e.Fail("can't build list: %v", err)
			return
		}
		all = append(all, s)
	}
	e.together("objects of "+w.Pkg(), r, crowd(8, func() func(e *Env, r *rand.Rand) {
		s := all[r.Intn(len(all))]
		if r.Intn(5) == 0 {
			return func(e *Env, r *rand.Rand) { e.readList(r, w, s.t, s.list, s.vals) }
		}
		return readOp(r, w, s.t, s.x, s.o, s.text, []byte(s.text))
	}))
	e.Seen(fmt.Sprintf("objects of %s", w.Pkg()))
}

func (e *Env) readList(r *rand.Rand, w *World, t *spec.Type, l reflect.Value, vals *V) {
	n := len(vals.List)
	if got := Method(l, "Len").Call(nil)[0].Int(); int(got) != n {
		e.Fail("shared list has %d items instead of %d", got, n)
	}
	Method(l, "Empty").Call(nil)
	slice := Method(l, "Slice").Call(nil)[0]
	for i := 0; i < n; i++ {
		if d := Diff("item", vals.List[i], w.ObserveObject(slice.Index(i), t)); d != "" {
			e.Fail("shared list: %s", d)
		}
		// The slice is ours:
		slice.Index(i).Set(reflect.Zero(slice.Type().Elem()))
	}
	count := 0
	each := Method(l, "Each")
	each.Call([]reflect.Value{reflect.MakeFunc(each.Type().In(0), func(args []reflect.Value) []reflect.Value {
		if count < n {
			if d := Diff("item", vals.List[count], w.ObserveObject(args[0], t)); d != "" {
				e.Fail("shared list: %s", d)
			}
		}
		count++
		return []reflect.Value{reflect.ValueOf(true)}
	})})
	if count != n {
		e.Fail("iteration of shared list gives %d items instead of %d", count, n)
	}
	var buf bytes.Buffer
	items := Method(l, "Slice").Call(nil)[0]
	if _, ok := e.Reg[w.Pkg()+"/Marshal"+t.GoName()+"List"]; !ok {
		// Only lists that are used have this function.
	} else if err := errOf(w.Fn("Marshal" + t.GoName() + "List").Call([]reflect.Value{items, reflect.ValueOf(&buf)})[0]); err != nil {
		e.Fail("can't write list: %v", err)
	}
	// A copy, that is then changed:
	lb := w.Fn("New" + t.GoName() + "List").Call(nil)[0]
	Method(lb, "Copy").Call([]reflect.Value{l})
	y, err := Build(lb)
	if err != nil {
		e.Fail("can't copy shared list: %v", err)
		return
	}
	if d := Diff("list", vals, w.ObserveRef(y, spec.Ref{Kind: spec.List, Name: t.Name}, true)); d != "" {
		e.Fail("copy of shared list: %s", d)
	}
	e.Count("observations of lists", 1)
}

// shareBuilders reads objects in some goroutines while their builder is still used in another.
func (e *Env) shareBuilders(r *rand.Rand, w *World) {
	types := w.Objects()
	if len(types) == 0 {
		return
	}
	t := types[r.Intn(len(types))]
	b := w.Fn("New" + t.GoName()).Call(nil)[0]
	o := w.Object(r, t, 3, 0.8)
	o.Fill(r, b)
	x, err := Build(b)
	if err != nil {
		e.Fail("can't build: %v", err)
		return
	}
	text, err := w.marshal(t, x)
	if err != nil {
		e.Fail("can't write object: %v", err)
		return
	}
	actors := crowd(6, func() func(e *Env, r *rand.Rand) { return readOp(r, w, t, x, o, text, []byte(text)) })
	owner := &actor{}
	for i := 0; i < 6; i++ {
		owner.ops = append(owner.ops, func(e *Env, r *rand.Rand) {
			other := w.Object(r, t, 2, 0.7)
			other.Fill(r, b)
			if r.Intn(3) == 0 {
				Method(b, "Copy").Call([]reflect.Value{x})
			}
			if _, err := Build(b); err != nil {
				e.Fail("can't build: %v", err)
			}
			e.Count("changes of the builder", 1)
		})
	}
	e.together("builder of "+w.Pkg()+"/"+t.Name.ID, r, append(actors, owner))
	e.Seen(fmt.Sprintf("builder of %s/%s", w.Pkg(), t.Name.ID))
}

type actorKey struct{}

// switchboard is a transport that gives each request to the recorder that is in its context. It doesn't
// have state, so it doesn't synchronise.
type switchboard struct{}

func (switchboard) RoundTrip(request *http.Request) (*http.Response, error) {
	rec, ok := request.Context().Value(actorKey{}).(*Recorder)
	if !ok {
		return nil, errors.New("the context of the request has been lost")
	}
	return rec.RoundTrip(request)
}

func (e *Env) shareClients(r *rand.Rand, w *World) {
	var sites []*site
	for _, s := range e.sites() {
		if s.w == w {
			sites = append(sites, s)
		}
	}
	if len(sites) == 0 {
		return
	}
	root, base := sites[0].root(r, switchboard{})
	// Some resources are also shared, at different depths:
	type place struct {
		s        *site
		client   reflect.Value
		segments []string
		depth    int
	}
	var places []*place
	for i := 0; i < 4; i++ {
		s := sites[r.Intn(len(sites))]
		depth := r.Intn(len(s.path.Locators) + 1)
		client, segments := s.descend(r, root, base, s.path.Locators[:depth])
		places = append(places, &place{s, client, segments, depth})
	}
	// Some requests too:
	type prepared struct {
		s    *site
		req  reflect.Value
		pl   *plan
		path string
	}
	var ready []*prepared
	for i := 0; i < 2; i++ {
		p := places[r.Intn(len(places))]
		client, segments := p.s.descend(r, p.client, p.segments, p.s.path.Locators[p.depth:])
		x := &prepared{s: p.s, req: p.s.request(client), path: p.s.full(segments), pl: p.s.makePlan(r, 0.7)}
		p.s.apply(r, x.pl, x.req, true)
		ready = append(ready, x)
	}
	exchange := func(e *Env, r *rand.Rand, s *site, req reflect.Value, pl *plan, path string) {
		a := s.makeAnswer(r, 0.7)
		rec := &Recorder{}
		status := []int{200, 200, 200, 404}[r.Intn(4)]
		failure := randError(r, 0.5)
		rec.Answer = func(x *Exchange) (*http.Response, error) {
			switch {
			case status >= 400:
				return rec.Respond(status, nil, strings.NewReader(Text(r, errorTree(failure), nil))), nil
			case s.hasOutput():
				return rec.Respond(status, nil, strings.NewReader(Text(r, a.tree, nil))), nil
			}
			return rec.Respond(status, nil, strings.NewReader("")), nil
		}
		res, err := s.send(req, context.WithValue(context.Background(), actorKey{}, rec), true)
		if len(rec.Exchanges) != 1 {
			e.Fail("%s: expected one exchange but there were %d: %v", s.key, len(rec.Exchanges), err)
			return
		}
		s.verify(e, pl, rec.Exchanges[0], path)
		if rec.Opened != rec.Closed {
			e.Fail("%s: the body hasn't been closed", s.key)
		}
		e.Count("exchanges", 1)
		if status >= 400 {
			failure["status"] = status
			if err == nil {
				e.Fail("%s: the error isn't returned", s.key)
			} else if d := e.errorMatches(err, failure); d != "" {
				e.Fail("%s: %s", s.key, d)
			}
			return
		}
		if err != nil {
			e.Fail("%s: %v", s.key, err)
			return
		}
		s.checkAnswer(e, s.key, res, a.params)
	}
	actors := crowd(6, func() func(e *Env, r *rand.Rand) {
		if r.Intn(3) == 0 {
			x := ready[r.Intn(len(ready))]
			return func(e *Env, r *rand.Rand) { exchange(e, r, x.s, x.req, x.pl, x.path) }
		}
		p := places[r.Intn(len(places))]
		if p.s.method != nil && p.s.method.Name.ID == "Get" && r.Intn(2) == 0 {
			return func(e *Env, r *rand.Rand) { e.pollTogether(r, p.s, p.client, p.segments, p.depth) }
		}
		return func(e *Env, r *rand.Rand) {
			client, segments := p.s.descend(r, p.client, p.segments, p.s.path.Locators[p.depth:])
			req := p.s.request(client)
			pl := p.s.makePlan(r, 0.6)
			p.s.apply(r, pl, req, true)
			exchange(e, r, p.s, req, pl, p.s.full(segments))
		}
	})
	e.together("clients of "+w.Pkg(), r, actors)
	for _, p := range places {
		e.Seen(p.s.key)
	}
}

// pollTogether does a complete poll.
func (e *Env) pollTogether(r *rand.Rand, s *site, client reflect.Value, segments []string, depth int) {
	client, segments = s.descend(r, client, segments, s.path.Locators[depth:])
	req := s.pollRequest(client)
	Method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(time.Duration(1+r.Intn(100)) * time.Microsecond)})
	pl := s.makePlan(r, 0.5)
	for _, p := range s.method.InParams() {
		if v, ok := pl.params[p.Name.ID]; ok {
			m := Method(req, p.GoName())
			m.Call([]reflect.Value{s.w.GoVal(r, v, p.Type, m.Type().In(0))})
		}
	}
	n := 1 + r.Intn(3)
	a := s.makeAnswer(r, 0.7)
	rec := &Recorder{}
	rec.Answer = func(x *Exchange) (*http.Response, error) {
		if len(rec.Exchanges) < n {
			return rec.Respond(503, nil, strings.NewReader(`{"kind":"Error"}`)), nil
		}
		return rec.Respond(200, nil, strings.NewReader(Text(r, a.tree, nil))), nil
	}
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), actorKey{}, rec), time.Hour)
	defer cancel()
	res, err := startPoll(req, ctx)
	if err != nil || len(rec.Exchanges) != n {
		e.Fail("%s: polling ends after %d exchanges instead of %d: %v", s.key, len(rec.Exchanges), n, err)
		return
	}
	for _, x := range rec.Exchanges {
		s.verify(e, pl, x, s.full(segments))
	}
	s.checkAnswer(e, s.key, res, a.params)
	e.Count("polls", 1)
}

// shareData reads the data that is embedded in the package.
func (e *Env) shareData(r *rand.Rand, w *World) {
	data, ok := e.Reg[w.Pkg()+"/OpenAPI"].([]byte)
	if !ok {
		e.Fail("there is no OpenAPI specification in %s", w.Pkg())
		return
	}
	sum := func() uint64 {
		h := fnv.New64a()
		_, _ = h.Write(data)
		return h.Sum64()
	}
	want := sum()
	e.together("data of "+w.Pkg(), r, crowd(2, func() func(e *Env, r *rand.Rand) {
		return func(e *Env, r *rand.Rand) {
			if sum() != want {
				e.Fail("the embedded specification has changed")
			}
			e.Count("reads of embedded data", 1)
		}
	}))
}

func (e *Env) shareErrors(r *rand.Rand) {
	m := randError(r, 0.8)
	x := e.buildError(r, m)
	text, err := e.marshalError(x)
	if err != nil {
		e.Fail("can't write error: %v", err)
		return
	}
	message := x.Interface().(error).Error()
	e.together("errors", r, crowd(6, func() func(e *Env, r *rand.Rand) {
		switch r.Intn(6) {
		case 0:
			return func(e *Env, r *rand.Rand) {
				if d := e.errorMatches(x.Interface().(error), m); d != "" {
					e.Fail("shared error: %s", d)
				}
				if got := x.Interface().(error).Error(); got != message {
					e.Fail("text of shared error is %q instead of %q", got, message)
				}
				e.Count("observations of errors", 1)
			}
		case 1:
			return func(e *Env, r *rand.Rand) {
				got, err := e.marshalError(x)
				if err != nil || len(got) != len(text) {
					e.Fail("shared error is written as %s instead of %s: %v", got, text, err)
				}
			}
		case 2:
			return func(e *Env, r *rand.Rand) {
				b := e.Fn("errors/NewError").Call(nil)[0]
				Method(b, "Copy").Call([]reflect.Value{x})
				y, err := Build(b)
				if err != nil {
					e.Fail("can't copy: %v", err)
					return
				}
				if d := e.errorMatches(y.Interface().(error), m); d != "" {
					e.Fail("copy of shared error: %s", d)
				}
				e.fillError(r, b, randError(r, 0.8))
			}
		case 3:
			return func(e *Env, r *rand.Rand) {
				res := e.Fn("errors/UnmarshalError").Call([]reflect.Value{anyValue([]byte(text))})
				if err := errOf(res[1]); err != nil {
					e.Fail("can't read error: %v", err)
				} else if d := e.errorMatches(res[0].Interface().(error), m); d != "" {
					e.Fail("error read: %s", d)
				}
			}
		case 4:
			return func(e *Env, r *rand.Rand) { e.sendError(r, x, m) }
		default:
			name := []string{"SendNotFound", "SendMethodNotAllowed", "SendInternalServerError", "SendPanic"}[r.Intn(4)]
			return func(e *Env, r *rand.Rand) {
				f, ok := e.Reg["errors/"+name]
				if !ok {
					return
				}
				w := httptest.NewRecorder()
				args := []reflect.Value{reflect.ValueOf(w), reflect.ValueOf(httptest.NewRequest("GET", "/x", nil))}
				if v := reflect.ValueOf(f); v.Type().NumIn() == 2 {
					v.Call(args)
					e.decodeSent(name, w)
				}
			}
		}
	}))
	e.Seen("errors")
}
