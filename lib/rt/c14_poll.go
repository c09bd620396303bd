package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// PollStep is one of the responses received while polling.
type PollStep struct {
	Status int
	Fail   bool   `json:",omitempty"` // The transport fails.
	Broken bool   `json:",omitempty"` // The body isn't valid.
	Preds  []bool `json:",omitempty"` // Results of the predicates.
	V      *Val   `json:",omitempty"`
}

// PollCase is an execution of the polling loop.
type PollCase struct {
	Route    *Route
	Statuses []int
	NPreds   int
	Steps    []*PollStep
	Query    []namedAnyJ `json:",omitempty"`
	Set      map[string]*Val
	// Mode can be normal, no-deadline, bad-interval, no-interval, short (there is no time for a second
	// request), or deadline (never succeeds).
	Mode     string
	Interval int // Microseconds
}

type namedAnyJ struct {
	Name   string
	Header bool
	A      Any
}

var pollStatuses = []int{200, 200, 200, 201, 202, 404, 404, 500, 503, 302}

func genPoll(t *rapid.T) *PollCase {
	c := &PollCase{}
	c.Route = genRoute(t, func(m *mm.Method) bool { return m != nil && m.Name.Text() == "Get" })
	if c.Route == nil {
		return c
	}
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	c.Mode = rapid.SampledFrom([]string{"normal", "normal", "normal", "normal", "normal", "normal", "no-deadline", "bad-interval", "no-interval", "short", "deadline"}).Draw(t, "mode")
	c.Interval = rapid.IntRange(50, 1500).Draw(t, "interval")
	if rapid.Bool().Draw(t, "hasStatuses") {
		c.Statuses = rapid.SliceOfN(rapid.SampledFrom(pollStatuses), 1, 6).Draw(t, "statuses")
	}
	c.NPreds = genCount(t, "predicates", 0, 3, 7)
	n := genCount(t, "steps", 1, 6, 25)
	for i := 0; i < n; i++ {
		s := &PollStep{Status: rapid.SampledFrom(pollStatuses).Draw(t, "status")}
		s.Fail = rapid.IntRange(0, 9).Draw(t, "fail") == 0
		s.Broken = rapid.IntRange(0, 9).Draw(t, "broken") == 0
		for j := 0; j < c.NPreds; j++ {
			s.Preds = append(s.Preds, rapid.IntRange(0, 2).Draw(t, "pred") != 0)
		}
		s.V = e.GenRef(t, "body", outParams(m)[0].Type, 0)
		c.Steps = append(c.Steps, s)
	}
	c.Set = map[string]*Val{}
	for _, p := range m.Params {
		if p.In && rapid.Bool().Draw(t, "set") {
			c.Set[p.Name.Text()] = e.GenRef(t, "param", p.Type, 0)
		}
	}
	for k := genCount(t, "extras", 0, 3, 12); k > 0; k-- {
		x := namedAnyJ{Header: rapid.Bool().Draw(t, "isHeader")}
		if x.Header {
			x.Name = rapid.SampledFrom(headerNames).Draw(t, "name")
		} else {
			x.Name = rapid.SampledFrom(queryNames).Draw(t, "name")
		}
		x.A = genAnyParam(t, "value", !x.Header)
		c.Query = append(c.Query, x)
	}
	return c
}

func init() {
	Sub("C14", "polling", 400, 6000, genPoll, checkPoll)
	Sub("C14", "polling function", 400, 6000, genPollFn, checkPollFn)
	Sub("C14", "time", 12, 100, genPollTime, checkPollTime)
}

const forever = time.Hour

func checkPoll(f *rec.F, c *PollCase) {
	if c.Route == nil {
		f.R.Case("none", false)
		return
	}
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	body := outParams(m)[0]
	interval := time.Duration(c.Interval) * time.Microsecond
	lost := errors.New("connection lost")
	over := errors.New("too many requests")
	var limit time.Time
	tooLate := false
	rt := &Recorder{}
	rt.respond = func(n int) (*http.Response, error) {
		if c.Mode == "deadline" {
			if time.Now().After(limit) {
				tooLate = true
				return nil, over
			}
			n = 0
		}
		if n >= len(c.Steps) {
			return nil, over
		}
		s := c.Steps[n]
		if s.Fail {
			return nil, lost
		}
		text := "{}"
		switch {
		case s.Broken:
			text = "{\"id\":"
		case s.Status < 400:
			text = e.JDoc(body.Type, false, s.V, true).Text()
		}
		return &http.Response{
			StatusCode: s.Status, Header: http.Header{"X-Seq": {strconv.Itoa(n)}}, Body: io.NopCloser(strings.NewReader(text)),
		}, nil
	}
	client, p := c.Route.Client(rt)
	req := CallM(client, "Poll")[0]
	model := newReqModel()
	chained := func(out []reflect.Value) {
		if out[0].Pointer() != req.Pointer() {
			f.Failf("the method doesn't return the request")
		}
	}
	for _, q := range c.Query {
		if q.Header {
			chained(CallM(req, "Header", q.Name, q.A.value()))
			model.header = append(model.header, namedAny{q.Name, q.A})
		} else {
			chained(CallM(req, "Parameter", q.Name, q.A.value()))
			model.query = append(model.query, namedAny{q.Name, q.A})
		}
	}
	for _, k := range sortedKeys(c.Set) {
		param := paramByText(m, k)
		chained(CallM(req, pollSetterName(param), e.Value(param.Type, false, c.Set[k])))
		model.set[k] = c.Set[k]
	}
	for _, s := range c.Statuses {
		chained(CallM(req, "Status", s))
	}
	resType := ptr(e.Pkg.Type(requestBase(e.resource(c.Route.Res), m) + "Response"))
	evaluated := 0
	for i := 0; i < c.NPreds; i++ {
		i := i
		fn := reflect.MakeFunc(reflect.FuncOf(types{resType}, types{boolType}, false), func(args []reflect.Value) []reflect.Value {
			evaluated++
			seq := -1
			if !args[0].IsNil() {
				header := CallM(args[0], "Header")[0].Interface().(http.Header)
				seq, _ = strconv.Atoi(header.Get("X-Seq"))
			}
			if c.Mode != "deadline" && seq != len(rt.reqs)-1 {
				f.Failf("the predicate is evaluated for the response %d, but the last one is %d", seq, len(rt.reqs)-1)
			}
			return []reflect.Value{reflect.ValueOf(c.Mode != "deadline" && seq >= 0 && c.Steps[seq].Preds[i])}
		})
		chained(CallM(req, "Predicate", fn))
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, "poll")
	deadline := time.Now().Add(forever)
	switch c.Mode {
	case "short":
		interval = 2 * forever
	case "bad-interval":
		interval = -interval
	case "deadline":
		deadline = time.Now().Add(8 * interval)
		limit = deadline.Add(20 * time.Second)
		CallM(req, "Predicate", reflect.MakeFunc(reflect.FuncOf(types{resType}, types{boolType}, false), func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.ValueOf(false)}
		}))
	}
	if c.Mode != "no-deadline" {
		var cancel func()
		ctx, cancel = context.WithDeadline(ctx, deadline)
		defer cancel()
	}
	if c.Mode != "no-interval" {
		chained(CallM(req, "Interval", interval))
	}
	start := time.Now()
	out := CallM(req, "StartContext", ctx)
	elapsed := time.Since(start)
	res, err := out[0], Err(out)

	classes := []string{"poll " + c.Mode}
	finish := func() {
		f.R.Case(key(c), len(rt.reqs) > 1, classes...)
		if len(rt.reqs) > 1 && f.R.WantSample() {
			f.R.Sample(c)
		}
	}
	switch c.Mode {
	case "no-deadline", "bad-interval", "no-interval":
		if err == nil {
			f.Failf("there is no error (%s)", c.Mode)
		}
		if len(rt.reqs) > 0 {
			f.Failf("requests have been sent (%s)", c.Mode)
		}
		if !res.IsNil() {
			f.Failf("there is a response (%s)", c.Mode)
		}
		finish()
		return
	}
	for i, got := range rt.reqs {
		if d := model.verify(c.Route, p, got); d != "" {
			f.Failf("request %d: %s", i, d)
		}
		if got.ctx.Value(ctxKey{}) != "poll" {
			f.Failf("the context of request %d isn't the given one", i)
		}
		if d, ok := got.ctx.Deadline(); !ok || d.After(deadline) {
			f.Failf("the deadline of the context of request %d isn't the given one", i)
		}
		if i > 0 {
			if gap := got.when.Sub(rt.reqs[i-1].when); gap < interval {
				f.Failf("the time between requests %d and %d is %s, but the interval is %s", i-1, i, gap, interval)
			}
		}
	}
	if tooLate {
		f.Failf("polling didn't stop after the deadline")
	}
	if c.Mode == "deadline" {
		if len(rt.reqs) == 0 {
			f.Failf("no requests were sent")
		}
		if s := c.Steps[0]; s.Fail {
			if len(rt.reqs) != 1 || !errors.Is(err, lost) {
				f.Failf("there were %d requests and the error is '%v'", len(rt.reqs), err)
			}
		} else if res.IsNil() {
			f.Failf("there is no response")
		}
		finish()
		return
	}
	// Calculate how many requests should have been sent:
	statuses := c.Statuses
	if len(statuses) == 0 {
		statuses = []int{200}
	}
	expected := len(c.Steps) + 1
	success := false
	for i, s := range c.Steps {
		stop := s.Fail
		ok := false
		if !s.Fail {
			for _, x := range statuses {
				ok = ok || x == s.Status
			}
			for _, x := range s.Preds {
				ok = ok && x
			}
		}
		if stop || ok || c.Mode == "short" {
			expected = i + 1
			success = ok
			break
		}
	}
	if len(rt.reqs) != expected {
		f.Failf("there should be %d requests, but there are %d", expected, len(rt.reqs))
	}
	if c.Mode == "short" && elapsed > time.Minute {
		f.Failf("it took %s to know that there wasn't enough time", elapsed)
	}
	if expected > len(c.Steps) || c.Steps[expected-1].Fail {
		want := over
		if expected <= len(c.Steps) {
			want = lost
		}
		if !errors.Is(err, want) {
			f.Failf("the error of the transport is lost, got '%v'", err)
		}
		if !res.IsNil() {
			f.Failf("there is a response, but the last request failed")
		}
		classes = append(classes, "transport error")
		finish()
		return
	}
	last := c.Steps[expected-1]
	if res.IsNil() {
		f.Failf("there is no response")
	}
	if n := int(CallM(res, "Status")[0].Int()); n != last.Status {
		f.Failf("the status should be %d, but it is %d", last.Status, n)
	}
	header := CallM(res, "Header")[0].Interface().(http.Header)
	if header.Get("X-Seq") != fmt.Sprint(expected-1) {
		f.Failf("the response isn't the last one, it is '%s' instead of %d", header.Get("X-Seq"), expected-1)
	}
	if last.Status < 400 && !last.Broken {
		if err != nil {
			f.Failf("there is an error: %v", err)
		}
		for _, x := range []reflect.Value{CallM(res, getterName(body))[0], CallM(res, "Get"+getterName(body))[0]} {
			if d := e.Diff("body", body.Type, false, last.V, x); d != "" {
				f.Failf("the body isn't correct: %s", d)
			}
		}
	} else {
		if err == nil && !success {
			f.Failf("the last response was an error, but there is no error")
		}
		classes = append(classes, "error response")
	}
	finish()
}

// PollFnCase is an execution of the generic polling function.
type PollFnCase struct {
	Statuses []int
	Steps    []PollFnStep
	NPreds   int
	Kind     string
}

// PollFnStep is an execution of the task.
type PollFnStep struct {
	Status int
	Result int // Zero means nil.
	Err    bool
	Preds  []bool
}

func genPollFn(t *rapid.T) *PollFnCase {
	c := &PollFnCase{Kind: rapid.SampledFrom([]string{"normal", "normal", "normal", "short", "no-deadline", "no-interval"}).Draw(t, "kind")}
	c.Statuses = rapid.SliceOfN(rapid.SampledFrom(pollStatuses), 0, 6).Draw(t, "statuses")
	c.NPreds = genCount(t, "predicates", 0, 3, 7)
	for n := genCount(t, "steps", 1, 8, 40); n > 0; n-- {
		s := PollFnStep{Status: rapid.SampledFrom(append(pollStatuses, 0)).Draw(t, "status")}
		s.Err = rapid.IntRange(0, 3).Draw(t, "err") == 0
		s.Result = rapid.IntRange(0, 5).Draw(t, "result")
		for j := 0; j < c.NPreds; j++ {
			s.Preds = append(s.Preds, rapid.IntRange(0, 2).Draw(t, "pred") != 0)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkPollFn(f *rec.F, c *PollFnCase) {
	interval := 200 * time.Microsecond
	ctx := context.Background()
	switch c.Kind {
	case "short":
		interval = 2 * forever
	case "no-interval":
		interval = 0
	}
	if c.Kind != "no-deadline" {
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, forever)
		defer cancel()
	}
	executed := 0
	over := errors.New("too many executions")
	boom := errors.New("boom")
	task := func(ctx context.Context) (int, interface{}, error) {
		executed++
		if executed > len(c.Steps) {
			return 0, nil, over
		}
		s := c.Steps[executed-1]
		var result interface{}
		if s.Result > 0 {
			result = executed*10 + s.Result
		}
		if s.Err {
			return s.Status, result, boom
		}
		return s.Status, result, nil
	}
	var predicates []func(interface{}) bool
	for i := 0; i < c.NPreds; i++ {
		i := i
		predicates = append(predicates, func(x interface{}) bool {
			s := c.Steps[executed-1]
			if x != executed*10+s.Result {
				f.Failf("the predicate receives %v in execution %d", x, executed)
			}
			return s.Preds[i]
		})
	}
	out := Call(Pkgs["helpers"].Sym("PollContext"), ctx, interval, c.Statuses, predicates, task)
	err := Err(out)
	var result interface{}
	if !out[0].IsNil() {
		result = out[0].Interface()
	}
	if c.Kind == "no-deadline" || c.Kind == "no-interval" {
		if err == nil || executed != 0 || result != nil {
			f.Failf("%s: the error is '%v' and there were %d executions", c.Kind, err, executed)
		}
		f.R.Case("fn"+key(c), false, "fn "+c.Kind)
		return
	}
	statuses := c.Statuses
	if len(statuses) == 0 {
		statuses = []int{200}
	}
	expected := len(c.Steps) + 1
	wantErr := over
	var wantResult interface{}
	for i, s := range c.Steps {
		ok := false
		for _, x := range statuses {
			ok = ok || x == s.Status
		}
		if c.NPreds > 0 && s.Result == 0 {
			ok = false
		}
		for _, x := range s.Preds {
			ok = ok && x
		}
		if ok || s.Err && s.Status == 0 || c.Kind == "short" {
			expected = i + 1
			wantErr = nil
			if s.Err {
				wantErr = boom
			}
			if s.Result > 0 {
				wantResult = (i+1)*10 + s.Result
			}
			break
		}
	}
	if executed != expected {
		f.Failf("the task should have been executed %d times, but it was executed %d times", expected, executed)
	}
	if err != wantErr || result != wantResult {
		f.Failf("the result is %v, '%v', but it should be %v, '%v'", result, err, wantResult, wantErr)
	}
	f.R.Case("fn"+key(c), executed > 1, "fn "+c.Kind)
}

// PollTimeCase is an execution of the generic polling function that ends because of the deadline.
type PollTimeCase struct {
	Interval int // Milliseconds.
	Count    int // Expected number of executions.
	Status   int
}

func genPollTime(t *rapid.T) *PollTimeCase {
	return &PollTimeCase{
		Interval: rapid.IntRange(60, 120).Draw(t, "interval"), Count: rapid.IntRange(1, 3).Draw(t, "count"),
		Status: rapid.SampledFrom([]int{202, 404, 503}).Draw(t, "status"),
	}
}

// checkPollTime checks that the task is executed whenever there is time for that before the deadline, and not
// when there isn't. The deadline is in the middle of two executions. As this depends on the scheduler it is a
// failure only if it always happens.
func checkPollTime(f *rec.F, c *PollTimeCase) {
	interval := time.Duration(c.Interval) * time.Millisecond
	executed := 0
	for try := 0; try < 6; try++ {
		executed = 0
		ctx, cancel := context.WithTimeout(context.Background(), interval*time.Duration(c.Count)-interval/2)
		task := func(context.Context) (int, interface{}, error) {
			executed++
			return c.Status, nil, nil
		}
		Call(Pkgs["helpers"].Sym("PollContext"), ctx, interval, []int{200}, []func(interface{}) bool(nil), task)
		cancel()
		if executed == c.Count {
			f.R.Case("time"+key(c), c.Count > 1, "time")
			return
		}
		interval += interval / 2
	}
	f.Failf("there is time for %d executions before the deadline, but there were %d", c.Count, executed)
}
