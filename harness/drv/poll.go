package drv

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

func init() {
	checks["C13"] = checkPoll
}

// T is the test that contains the execution, needed for the virtual clock.
var T *testing.T

// pollStep is what the server does with one request.
type pollStep struct {
	delay  time.Duration
	status int  // Zero means that the transport fails.
	accept uint // Which predicates accept the response.
	answer *answer
}

var errPoll = errors.New("my polling transport failure")

const pollLimit = 60

func checkPoll(e *Env) {
	if T == nil {
		panic("harness: the polling check needs a test")
	}
	for _, s := range e.sites() {
		if s.method == nil || s.method.Name.ID != "Get" {
			continue
		}
		s := s
		for i := 0; i < e.N; i++ {
			synctest.Test(T, func(*testing.T) {
				e.Case(fmt.Sprintf("%s/poll/%d", s.key, i), func(r *rand.Rand) { e.poll(r, s, i) })
			})
		}
		synctest.Test(T, func(*testing.T) {
			e.Case(s.key+"/refused", func(r *rand.Rand) { e.pollRefused(r, s) })
		})
	}
}

func (s *site) pollRequest(client reflect.Value) reflect.Value {
	return Method(client, "Poll").Call(nil)[0]
}

func startPoll(req reflect.Value, ctx context.Context) (reflect.Value, error) {
	res := Method(req, "StartContext").Call([]reflect.Value{reflect.ValueOf(&ctx).Elem()})
	return res[0], errOf(res[1])
}

func (e *Env) pollRefused(r *rand.Rand, s *site) {
	rec := &Recorder{}
	rec.Answer = func(x *Exchange) (*http.Response, error) {
		if len(rec.Exchanges) > pollLimit {
			return nil, errPoll
		}
		return rec.Respond(200, nil, strings.NewReader("{}")), nil
	}
	for _, interval := range []time.Duration{0, -1, -time.Hour, time.Second} {
		for _, deadline := range []bool{true, false} {
			if interval > 0 && deadline {
				continue
			}
			client, _ := s.locate(r, rec)
			req := s.pollRequest(client)
			if interval != 0 || r.Intn(2) == 0 {
				Method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(interval)})
			}
			ctx, cancel := context.WithCancel(context.Background())
			if deadline {
				ctx, cancel = context.WithTimeout(context.Background(), time.Hour)
			}
			res, err := startPoll(req, ctx)
			cancel()
			if err == nil {
				e.Fail("polling with interval %s and deadline %v isn't refused", interval, deadline)
			}
			if !res.IsNil() {
				e.Fail("refused polling gives a response")
			}
			if len(rec.Exchanges) > 0 {
				e.Fail("refused polling performs exchanges")
			}
			e.Count("refused polls", 1)
		}
	}
	// Nil responses:
	client, _ := s.locate(r, rec)
	typ := Method(s.pollRequest(client), "StartContext").Type().Out(0)
	nothing := reflect.Zero(typ)
	for i := 0; i < nothing.NumMethod(); i++ {
		m := nothing.Method(i)
		if m.Type().NumIn() > 0 {
			continue
		}
		for _, out := range m.Call(nil) {
			if !out.IsZero() {
				e.Fail("method %s of nil poll response returns %v", typ.Method(i).Name, out)
			}
		}
	}
	e.Seen(s.key + "/refused")
}

func (e *Env) poll(r *rand.Rand, s *site, serial int) {
	interval := time.Duration(1+r.Intn(20)) * time.Second
	// The deadline is never a multiple of a second, so there are no ties with the other times:
	timeout := time.Duration(r.Intn(200))*time.Second + 500*time.Millisecond
	if r.Intn(10) == 0 {
		timeout = time.Duration(r.Intn(int(interval)))/time.Second*time.Second + 500*time.Millisecond
	}
	var statuses []int
	known := []int{200, 201, 202, 204, 304, 400, 404, 500}
	for n := 0; n < 4; n++ {
		known = append(known, []int{100 + r.Intn(500), 401, 403, 408, 409, 410, 422, 429, 500, 501, 502, 503, 504}[r.Intn(13)])
	}
	for n := []int{0, 0, 1, 2, 3}[r.Intn(5)]; n > 0; n-- {
		statuses = append(statuses, known[r.Intn(len(known))])
	}
	predicates := []int{0, 1, 1, 2, 3}[r.Intn(5)]
	header := func(i int) http.Header {
		return http.Header{"X-Index": {strconv.Itoa(i)}}
	}
	// Decide what the server will do:
	n := r.Intn(12)
	mode := r.Intn(3)
	steps := make([]*pollStep, pollLimit)
	for i := range steps {
		st := &pollStep{}
		if r.Intn(3) == 0 {
			st.delay = time.Duration(r.Intn(30)) * time.Second
		}
		st.status = known[r.Intn(len(known))]
		if r.Intn(25) == 0 {
			st.status = 0
		}
		if len(statuses) > 0 && r.Intn(3) == 0 {
			st.status = statuses[r.Intn(len(statuses))]
		} else if len(statuses) == 0 && r.Intn(2) == 0 {
			st.status = 200
		}
		st.accept = uint(r.Intn(8))
		if mode > 0 && i < n {
			// Make sure that it doesn't succeed too soon:
			switch {
			case predicates == 0 || r.Intn(2) == 0:
				bad := []int{503, 503, 401, 403, 404, 409, 429, 500, 202, 301, 100 + r.Intn(500)}
				for _, i := range r.Perm(len(bad)) {
					st.status = bad[i]
					found := len(statuses) == 0 && st.status == 200
					for _, x := range statuses {
						found = found || x == st.status
					}
					if !found {
						break
					}
				}
			case predicates > 0:
				st.accept &^= 1 << uint(r.Intn(predicates))
			}
		}
		if mode > 0 && i >= n {
			st.accept = 7
			st.status = 200
			if len(statuses) > 0 {
				st.status = statuses[r.Intn(len(statuses))]
			}
		}
		st.answer = s.makeAnswer(r, 0.7)
		steps[i] = st
	}
	// Predict what should happen:
	var times []time.Duration
	var now time.Duration
	last, expired := -1, false
	expected := statuses
	if len(expected) == 0 {
		expected = []int{200}
	}
	outcome := ""
	for i := 0; outcome == ""; i++ {
		if i >= pollLimit {
			panic("harness: polling case is too long")
		}
		st := steps[i]
		times = append(times, now)
		last = i
		if now+st.delay > timeout {
			now, expired, outcome = timeout, true, "expired"
			break
		}
		now += st.delay
		if st.status == 0 {
			outcome = "failure"
			break
		}
		ok := false
		for _, x := range expected {
			ok = ok || x == st.status
		}
		for k := 0; k < predicates; k++ {
			ok = ok && st.accept&(1<<uint(k)) != 0
		}
		if ok {
			outcome = "success"
		} else if now+interval > timeout {
			outcome = "gave up"
		} else {
			now += interval
		}
	}
	if len(times) >= pollLimit-1 {
		return
	}
	// Do it, twice in order to verify that requests can be used again:
	rec := &Recorder{}
	client, path := s.locate(r, rec)
	req := s.pollRequest(client)
	pl := s.makePlan(r, 0.6)
	for _, p := range s.method.InParams() {
		if v, ok := pl.params[p.Name.ID]; ok {
			m := Method(req, p.GoName())
			m.Call([]reflect.Value{s.w.GoVal(r, v, p.Type, m.Type().In(0))})
		}
	}
	if r.Intn(2) == 0 {
		pl.extra = append(pl.extra, [2]string{"my_param", "my value"})
		Method(req, "Parameter").Call([]reflect.Value{reflect.ValueOf("my_param"), reflect.ValueOf("my value")})
	}
	if r.Intn(2) == 0 {
		pl.headers = append(pl.headers, [2]string{"X-Mine", "my value"})
		Method(req, "Header").Call([]reflect.Value{reflect.ValueOf("X-Mine"), reflect.ValueOf("my value")})
	}
	Method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(interval)})
	for _, x := range statuses {
		Method(req, "Status").Call([]reflect.Value{reflect.ValueOf(x)})
	}
	for k := 0; k < predicates; k++ {
		k := k
		m := Method(req, "Predicate")
		m.Call([]reflect.Value{reflect.MakeFunc(m.Type().In(0), func(args []reflect.Value) []reflect.Value {
			index, err := strconv.Atoi(Method(args[0], "Header").Call(nil)[0].Interface().(http.Header).Get("X-Index"))
			if err != nil {
				e.Fail("predicate is called with something that isn't a response: %v", err)
			}
			return []reflect.Value{reflect.ValueOf(steps[index].accept&(1<<uint(k)) != 0)}
		})})
	}
	for round := 0; round < 2; round++ {
		start := time.Now()
		var seen []time.Duration
		rec.Exchanges = nil
		rec.Answer = func(x *Exchange) (*http.Response, error) {
			i := len(rec.Exchanges) - 1
			if i >= pollLimit {
				return nil, errPoll
			}
			seen = append(seen, time.Since(start))
			st := steps[i]
			select {
			case <-x.Ctx.Done():
				return nil, x.Ctx.Err()
			case <-time.After(st.delay):
			}
			if st.status == 0 {
				return nil, errPoll
			}
			if st.status >= 400 {
				return rec.Respond(st.status, header(i), strings.NewReader(fmt.Sprintf(`{"kind":"Error","id":"%d"}`, i))), nil
			}
			return rec.Respond(st.status, header(i), strings.NewReader(Text(r, st.answer.tree, nil))), nil
		}
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		res, err := startPoll(req, ctx)
		cancel()
		end := time.Since(start)
		what := fmt.Sprintf("round %d, outcome %q, interval %s, timeout %s, statuses %v, %d predicates", round, outcome, interval, timeout, statuses, predicates)
		if !reflect.DeepEqual(seen, times) {
			e.Fail("%s: requests were sent at %v instead of %v", what, seen, times)
			return
		}
		if end != now {
			e.Fail("%s: polling ended at %s instead of %s", what, end, now)
		}
		if rec.Opened != rec.Closed {
			e.Fail("%s: some bodies haven't been closed", what)
		}
		for _, x := range rec.Exchanges {
			s.verify(e, pl, x, path)
		}
		st := steps[last]
		switch {
		case expired:
			if !errors.Is(err, context.DeadlineExceeded) {
				e.Fail("%s: error is %v instead of the failure of the transport", what, err)
			}
			if !res.IsNil() {
				e.Fail("%s: there is a response", what)
			}
		case st.status == 0:
			if !errors.Is(err, errPoll) {
				e.Fail("%s: error is %v instead of the failure of the transport", what, err)
			}
			if !res.IsNil() {
				e.Fail("%s: there is a response", what)
			}
		default:
			if res.IsNil() {
				e.Fail("%s: there is no response", what)
				return
			}
			if x := Method(res, "Status").Call(nil)[0].Int(); int(x) != st.status {
				e.Fail("%s: status is %d instead of %d", what, x, st.status)
			}
			if x := Method(res, "Header").Call(nil)[0].Interface().(http.Header).Get("X-Index"); x != strconv.Itoa(last) {
				e.Fail("%s: returns response %s instead of %d", what, x, last)
			}
			if st.status >= 400 {
				want := map[string]interface{}{"status": st.status, "id": strconv.Itoa(last)}
				if err == nil {
					e.Fail("%s: the error of the response isn't returned", what)
				} else if d := e.errorMatches(err, want); d != "" {
					e.Fail("%s: returned error: %s", what, d)
				}
				x := Method(res, "Error").Call(nil)[0]
				if x.IsNil() {
					e.Fail("%s: the response doesn't have the error", what)
				} else if d := e.errorMatches(x.Interface().(error), want); d != "" {
					e.Fail("%s: error of the response: %s", what, d)
				}
				s.checkAnswer(e, what, res, nil)
			} else {
				if err != nil {
					e.Fail("%s: unexpected error: %v", what, err)
				}
				s.checkAnswer(e, what, res, st.answer.params)
			}
		}
		e.Count("polls", 1)
		e.Count("outcome "+outcome, 1)
		e.Count("exchanges", len(times))
		e.Seen(fmt.Sprintf("%s/%s/%d requests/%v/%d predicates", s.key, outcome, len(times), statuses, predicates))
	}
}
