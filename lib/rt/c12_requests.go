package rt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"path"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// Step is the use of a locator.
type Step struct {
	Loc string
	ID  string `json:",omitempty"`
}

// Route says how to get to a method.
type Route struct {
	Dir    string
	Base   string
	Direct bool   `json:",omitempty"` // Create directly the client of the resource.
	Res    string // Resource.
	Steps  []Step `json:",omitempty"`
	Method string // Empty for the metadata.
}

func (e *Env) resource(text string) *mm.Resource {
	for _, r := range e.V.Resources {
		if r.Name.Text() == text {
			return r
		}
	}
	panic("no resource " + text)
}

func (r *Route) method() *mm.Method {
	for _, m := range GetEnv(r.Dir).resource(r.Res).Methods {
		if m.Name.Text() == r.Method {
			return m
		}
	}
	return nil
}

var restMethods = map[string]bool{
	"add": true, "async_delete": true, "async_update": true, "delete": true, "get": true, "list": true,
	"post": true, "search": true, "update": true,
}

func isAction(m *mm.Method) bool { return m != nil && !restMethods[m.Name.Snake()] }

var routes []*Route

// Routes calculates all the ways to get to all the methods of the model, up to a limit.
func Routes() []*Route {
	if routes != nil {
		return routes
	}
	for _, e := range Envs() {
		type node struct {
			r     *mm.Resource
			steps []Step
		}
		queue := []node{{r: e.V.Root()}}
		count := 0
		for len(queue) > 0 && count < 300 {
			n := queue[0]
			queue = queue[1:]
			count++
			add := func(method string) {
				routes = append(routes,
					&Route{Dir: e.Dir, Res: n.r.Name.Text(), Steps: n.steps, Method: method})
			}
			if n.r.Name.Text() == "Root" {
				add("")
			}
			for _, m := range n.r.Methods {
				add(m.Name.Text())
			}
			for _, l := range n.r.Locators {
				steps := append([]Step{}, n.steps...)
				step := Step{Loc: l.Name.Text()}
				if l.IsVar() {
					step.ID = "?"
				}
				queue = append(queue, node{e.V.FindResource(l.Target), append(steps, step)})
			}
		}
		for _, r := range e.V.Resources {
			for _, m := range r.Methods {
				routes = append(routes, &Route{Dir: e.Dir, Res: r.Name.Text(), Method: m.Name.Text(), Direct: true})
			}
		}
	}
	return routes
}

func genSegment(t *rapid.T, label string) string {
	s := strings.ReplaceAll(GenString(t, label), "/", "|")
	if s == "" || s == "." || s == ".." {
		return "123"
	}
	return s
}

func genRoute(t *rapid.T, cond func(m *mm.Method) bool) *Route {
	var candidates []*Route
	for _, r := range Routes() {
		if cond == nil || cond(r.method()) {
			candidates = append(candidates, r)
		}
	}
	if len(candidates) == 0 {
		return nil
	}
	r := *rapid.SampledFrom(candidates).Draw(t, "route")
	r.Base = rapid.SampledFrom([]string{"/api/clusters_mgmt", "/api", "", "/", "/api/", "api", "/a b/ñ", "/x//y"}).Draw(t, "base")
	steps := r.Steps
	r.Steps = nil
	for _, s := range steps {
		if s.ID != "" {
			s.ID = genSegment(t, "id")
		}
		r.Steps = append(r.Steps, s)
	}
	return &r
}

// Client creates the client for the resource, and calculates the path of the method.
func (r *Route) Client(transport http.RoundTripper) (client reflect.Value, p string) {
	e := GetEnv(r.Dir)
	res := e.resource(r.Res)
	p = r.Base
	if r.Direct {
		client = Call(e.Pkg.Sym("New"+clientName(res)), transport, r.Base)[0]
	} else {
		svc := Pkgs[filepathDir(e.Dir)]
		client = Call(svc.Sym("NewClient"), transport, r.Base)[0]
		client = CallM(client, versionName(e.V))[0]
		p = path.Join(p, e.V.Name)
		current := e.V.Root()
		for _, s := range r.Steps {
			for _, l := range current.Locators {
				if l.Name.Text() != s.Loc {
					continue
				}
				if l.IsVar() {
					client = CallM(client, l.GoName(), s.ID)[0]
					p = path.Join(p, s.ID)
				} else {
					client = CallM(client, l.GoName())[0]
					p = path.Join(p, l.Segment())
				}
				current = e.V.FindResource(l.Target)
				break
			}
		}
	}
	if m := r.method(); isAction(m) {
		p = path.Join(p, m.Segment())
	}
	return client, p
}

// Request creates a request.
func (r *Route) Request(client reflect.Value) reflect.Value {
	if m := r.method(); m != nil {
		return CallM(client, m.GoName())[0]
	}
	return CallM(client, "Get")[0]
}

// bodyParams and queryParams are the input parameters of a method.
func (e *Env) bodyParams(m *mm.Method) (result []*mm.Param) {
	for _, p := range m.Params {
		if p.In && (isAction(m) || !e.V.GoScalar(p.Type)) {
			result = append(result, p)
		}
	}
	return
}

func (e *Env) queryParams(m *mm.Method) (result []*mm.Param) {
	for _, p := range m.Params {
		if p.In && !isAction(m) && e.V.GoScalar(p.Type) {
			result = append(result, p)
		}
	}
	return
}

func outParams(m *mm.Method) (result []*mm.Param) {
	for _, p := range m.Params {
		if p.IsOut() {
			result = append(result, p)
		}
	}
	return
}

// Captured is a request received by the transport.
type Captured struct {
	method, path, query string
	header              http.Header
	hasBody             bool
	body                []byte
	ctx                 context.Context
	when                time.Time
}

// Recorder is a transport that records the requests.
type Recorder struct {
	reqs    []*Captured
	respond func(n int) (*http.Response, error)
}

// RoundTrip is the implementation of the interface.
func (r *Recorder) RoundTrip(req *http.Request) (*http.Response, error) {
	c := &Captured{
		method: req.Method, path: req.URL.Path, query: req.URL.RawQuery, header: req.Header.Clone(), ctx: req.Context(),
		when: time.Now(),
	}
	if req.Body != nil {
		c.hasBody = true
		c.body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	r.reqs = append(r.reqs, c)
	runtime.Gosched()
	// What the transport does with the request must not have side effects:
	for _, values := range req.Header {
		for i := range values {
			values[i] = "changed"
		}
	}
	if req.Header != nil {
		req.Header.Set("X-Changed", "changed")
	}
	req.URL.Path = "/changed"
	req.URL.RawQuery = "changed=1"
	return r.respond(len(r.reqs) - 1)
}

// trackedBody is a response body that remembers if it was closed.
type trackedBody struct {
	io.Reader
	closed int
}

func (b *trackedBody) Close() error {
	b.closed++
	return nil
}

// namedText is a string type, like the enumerated types.
type namedText string

// genCount generates the length of a sequence, usually small.
func genCount(t *rapid.T, label string, min, few, many int) int {
	if rapid.IntRange(0, 14).Draw(t, label+"Many") == 14 {
		return rapid.IntRange(few, many).Draw(t, label)
	}
	return rapid.IntRange(min, few).Draw(t, label)
}

// Any is a value for headers and query parameters.
type Any struct {
	K string
	S string  `json:",omitempty"`
	I int64   `json:",omitempty"`
	F float64 `json:",omitempty"`
	T *Date   `json:",omitempty"`
}

func genAnyParam(t *rapid.T, label string, date bool) Any {
	kinds := []string{"s", "s", "s", "s", "i", "i", "b", "b", "f", "f", "int", "i32", "u64", "u8", "f32", "named"}
	if date {
		kinds = append(kinds, "t", "t")
	}
	a := Any{K: rapid.SampledFrom(kinds).Draw(t, label+"Kind")}
	switch a.K {
	case "s", "named":
		a.S = GenString(t, label)
	case "i", "b", "int", "i32", "u64", "u8":
		a.I = genInt(t, label)
	case "f":
		a.F = genFloat(t, label)
	case "f32":
		a.F = float64(float32(genFloat(t, label)))
		if math.IsInf(a.F, 0) {
			a.F = 0.5
		}
	case "t":
		a.T = genDate(t, label)
	}
	return a
}

func (a Any) value() interface{} {
	switch a.K {
	case "i":
		return a.I
	case "b":
		return a.I > 0
	case "int":
		return int(a.I)
	case "i32":
		return int32(a.I)
	case "u64":
		return uint64(a.I)
	case "u8":
		return uint8(a.I)
	case "f":
		return a.F
	case "f32":
		return float32(a.F)
	case "t":
		return a.T.time()
	case "named":
		return namedText(a.S)
	}
	return a.S
}

// matches checks if the text is a representation of the value.
func (a Any) matches(text string) bool {
	switch a.K {
	case "i", "int":
		return text == strconv.FormatInt(a.I, 10)
	case "i32":
		return text == strconv.FormatInt(int64(int32(a.I)), 10)
	case "u64":
		return text == strconv.FormatUint(uint64(a.I), 10)
	case "u8":
		return text == strconv.FormatUint(uint64(uint8(a.I)), 10)
	case "b":
		return text == strconv.FormatBool(a.I > 0)
	case "f":
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && f == a.F
	case "f32":
		f, err := strconv.ParseFloat(text, 32)
		return err == nil && f == a.F
	case "t":
		d, err := time.Parse(time.RFC3339, text)
		return err == nil && d.Unix() == a.T.Sec && d.Nanosecond() == 0
	}
	return text == a.S
}

// anyOf converts a value of a query parameter.
func (e *Env) anyOf(p *mm.Param, v *Val) *Any {
	if e.V.Find(p.Type.Name) != nil {
		return &Any{K: "s", S: v.S}
	}
	switch p.Type.Name.Snake() {
	case "boolean":
		a := &Any{K: "b"}
		if v.B {
			a.I = 1
		}
		return a
	case "integer", "long":
		return &Any{K: "i", I: v.I}
	case "float":
		return &Any{K: "f", F: v.F}
	case "date":
		return &Any{K: "t", T: v.T}
	case "interface":
		if v.X == nil {
			return nil
		}
		return &Any{K: "s", S: fmt.Sprintf("%v", v.X)}
	}
	return &Any{K: "s", S: v.S}
}

// ROp is an operation on a request.
type ROp struct {
	K    string
	R    int    `json:",omitempty"`
	Name string `json:",omitempty"`
	A    Any
	V    *Val `json:",omitempty"`
	Ctx  int  `json:",omitempty"`
}

// ReqCase is a history of operations on two requests.
type ReqCase struct {
	Route *Route
	Ops   []*ROp
}

var queryNames = []string{"search", "order", "x", "a b", "ñ", "a&b=c", "page", "size", "+", "[0]", "", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"}
var headerNames = []string{"X-One", "x-one", "Accept", "My-Header", "impersonate-user", "Content-Type", "X-1", "X-2", "X-3", "X-4", "X-5", "X-6"}

func genReq(t *rapid.T) *ReqCase {
	c := &ReqCase{Route: genRoute(t, nil)}
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	var ins []*mm.Param
	if m != nil {
		for _, p := range m.Params {
			if p.In {
				ins = append(ins, p)
			}
		}
		for r := 0; r < 2; r++ {
			if !isAction(m) {
				for _, p := range e.bodyParams(m) {
					c.Ops = append(c.Ops, &ROp{K: "set", R: r, Name: p.Name.Text(), V: e.GenRef(t, "body", p.Type, 1)})
				}
			}
		}
	}
	n := genCount(t, "ops", 1, 9, 50)
	for i := 0; i < n; i++ {
		op := &ROp{R: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "request")}
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
		case k <= 1:
			op.K, op.Name, op.A = "param", rapid.SampledFrom(queryNames).Draw(t, "name"), genAnyParam(t, "value", true)
			if m != nil && rapid.IntRange(0, 4).Draw(t, "declared") == 0 {
				if q := e.queryParams(m); len(q) > 0 {
					op.Name = rapid.SampledFrom(q).Draw(t, "declaredName").QueryName()
				}
			}
		case k <= 3:
			op.K, op.Name, op.A = "header", rapid.SampledFrom(headerNames).Draw(t, "name"), genAnyParam(t, "value", false)
		case k == 4 && m != nil:
			op.K, op.A = "impersonate", Any{K: "s", S: GenString(t, "user")}
		case k <= 7 && len(ins) > 0:
			p := rapid.SampledFrom(ins).Draw(t, "param")
			op.K, op.Name, op.V = "set", p.Name.Text(), e.GenRef(t, "v", p.Type, 1)
		default:
			op.K, op.Ctx = "send", rapid.IntRange(0, 2).Draw(t, "ctx")
		}
		c.Ops = append(c.Ops, op)
	}
	c.Ops = append(c.Ops, &ROp{K: "send", R: 0}, &ROp{K: "send", R: 1, Ctx: 1})
	return c
}

type namedAny struct {
	name string
	a    Any
}

// reqModel is the state of a request.
type reqModel struct {
	query, header []namedAny
	set           map[string]*Val
}

func newReqModel() *reqModel { return &reqModel{set: map[string]*Val{}} }

// verify compares a request with the expected one.
func (m *reqModel) verify(r *Route, expectedPath string, got *Captured) string {
	e := GetEnv(r.Dir)
	method := r.method()
	httpMethod := "GET"
	if method != nil {
		httpMethod = httpMethodOf(method)
	}
	if got.method != httpMethod {
		return fmt.Sprintf("the HTTP method should be '%s', but it is '%s'", httpMethod, got.method)
	}
	if got.path != expectedPath {
		return fmt.Sprintf("the path should be %q, but it is %q", expectedPath, got.path)
	}
	query, err := url.ParseQuery(got.query)
	if err != nil {
		return fmt.Sprintf("the query '%s' isn't valid: %v", got.query, err)
	}
	expected := map[string][]Any{}
	for _, q := range m.query {
		expected[q.name] = append(expected[q.name], q.a)
	}
	if method != nil {
		for _, p := range e.queryParams(method) {
			v := m.set[p.Name.Text()]
			if v == nil {
				continue
			}
			if a := e.anyOf(p, v); a != nil {
				expected[p.QueryName()] = append(expected[p.QueryName()], *a)
			}
		}
	}
	if d := diffAnys("query parameter", expected, query); d != "" {
		return d
	}
	expected = map[string][]Any{}
	for _, h := range m.header {
		name := http.CanonicalHeaderKey(h.name)
		expected[name] = append(expected[name], h.a)
	}
	if d := diffAnys("header", expected, got.header); d != "" {
		return d
	}
	var params []*mm.Param
	if method != nil {
		params = e.bodyParams(method)
	}
	if len(params) == 0 {
		if len(got.body) > 0 {
			return fmt.Sprintf("the body should be empty, but it is %s", clip(string(got.body)))
		}
		return ""
	}
	j, err := ParseJ(got.body)
	if err != nil {
		return fmt.Sprintf("the body isn't valid: %v: %s", err, clip(string(got.body)))
	}
	var doc *J
	if isAction(method) {
		doc = &J{K: "obj"}
		for _, p := range params {
			v := m.set[p.Name.Text()]
			if v == nil || e.nilInterface(p, v) {
				continue
			}
			doc.add(p.JSONName(), e.JDoc(p.Type, false, v, false))
		}
	} else {
		doc = e.JDoc(params[0].Type, false, m.set[params[0].Name.Text()], false)
	}
	if d := DiffJ("", doc, j); d != "" {
		return fmt.Sprintf("the body isn't correct: %s: %s", d, clip(string(got.body)))
	}
	return ""
}

func (e *Env) nilInterface(p *mm.Param, v *Val) bool {
	return p.Type.Kind == mm.Plain && p.Type.Name.Snake() == "interface" && e.V.Find(p.Type.Name) == nil && v.X == nil
}

func httpMethodOf(m *mm.Method) string {
	switch m.Name.Snake() {
	case "delete", "async_delete":
		return "DELETE"
	case "get", "list":
		return "GET"
	case "update", "async_update":
		return "PATCH"
	}
	return "POST"
}

func diffAnys(what string, expected map[string][]Any, actual map[string][]string) string {
	var names []string
	for n := range expected {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a := actual[n]
		if len(a) != len(expected[n]) {
			return fmt.Sprintf("expected %d values for %s %q, but got %q", len(expected[n]), what, n, a)
		}
		for i, x := range expected[n] {
			if !x.matches(a[i]) {
				return fmt.Sprintf("expected value %v for %s %q, but got %q", x.value(), what, n, a[i])
			}
		}
	}
	for n, a := range actual {
		if len(a) > 0 && expected[n] == nil {
			return fmt.Sprintf("%s %q isn't expected", what, n)
		}
	}
	return ""
}

type ctxKey struct{}

func paramByText(m *mm.Method, name string) *mm.Param {
	for _, p := range m.Params {
		if p.Name.Text() == name {
			return p
		}
	}
	panic("no parameter " + name)
}

func init() {
	Sub("C12", "requests", 2500, 40000, genReq, func(f *rec.F, c *ReqCase) { checkReq(f, c, sharedClient{}) })
	Sub("C12", "requests at the same time", 60, 1000, rec.GenTogether(genReq), rec.CheckTogether(func(f *rec.F, c *ReqCase) {
		checkReq(f, c, sharedClient{})
	})).Risky = true
	Sub("C12", "shared client", 60, 1000, genReq, checkShared).Risky = true
}

// sharedClient is a client used by several goroutines.
type sharedClient struct {
	client    reflect.Value
	path      string
	transport http.RoundTripper
}

type recorderKey struct{}

// demux sends each request to the recorder that is in its context.
type demux struct{}

func (demux) RoundTrip(req *http.Request) (*http.Response, error) {
	r, ok := req.Context().Value(recorderKey{}).(*Recorder)
	if !ok {
		return nil, errors.New("the context of the request isn't the given one")
	}
	return r.RoundTrip(req)
}

// checkShared uses the same client from several goroutines, each one with different requests.
func checkShared(f *rec.F, c *ReqCase) {
	shared := sharedClient{transport: demux{}}
	shared.client, shared.path = c.Route.Client(shared.transport)
	together := &rec.Together[*ReqCase]{Rounds: 1 + len(c.Ops)%7}
	for n := 0; n < 4; n++ {
		other := &ReqCase{Route: c.Route}
		for i, op := range c.Ops {
			if op.K == "set" || i >= n*(len(c.Ops)-2)/4 {
				other.Ops = append(other.Ops, op)
			}
		}
		together.Cases = append(together.Cases, other)
	}
	rec.CheckTogether(func(f *rec.F, c *ReqCase) { checkReq(f, c, shared) })(f, together)
}

func checkReq(f *rec.F, c *ReqCase, shared sharedClient) {
	e := GetEnv(c.Route.Dir)
	method := c.Route.method()
	rt := &Recorder{respond: func(int) (*http.Response, error) {
		text := ""
		if method == nil {
			text = "{}"
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewBufferString(text))}, nil
	}}
	client, p := shared.client, shared.path
	if shared.transport == nil {
		client, p = c.Route.Client(rt)
	}
	requests := []reflect.Value{c.Route.Request(client), c.Route.Request(client)}
	models := []*reqModel{newReqModel(), newReqModel()}
	sent, params := 0, 0
	chained := func(r reflect.Value, out []reflect.Value, what string) {
		if out[0].Pointer() != r.Pointer() {
			f.Failf("method '%s' doesn't return the request", what)
		}
	}
	for i, op := range c.Ops {
		r, m := requests[op.R], models[op.R]
		switch op.K {
		case "param":
			chained(r, CallM(r, "Parameter", op.Name, op.A.value()), "Parameter")
			m.query = append(m.query, namedAny{op.Name, op.A})
		case "header":
			chained(r, CallM(r, "Header", op.Name, op.A.value()), "Header")
			m.header = append(m.header, namedAny{op.Name, op.A})
		case "impersonate":
			chained(r, CallM(r, "Impersonate", op.A.S), "Impersonate")
			m.header = append(m.header, namedAny{"Impersonate-User", op.A})
		case "set":
			params++
			param := paramByText(method, op.Name)
			chained(r, CallM(r, setterName(param), e.Value(param.Type, isItems(param), op.V)), setterName(param))
			m.set[op.Name] = op.V
		case "send":
			var out []reflect.Value
			ctx := context.WithValue(context.Background(), ctxKey{}, i)
			kind := op.Ctx
			if shared.transport != nil {
				ctx = context.WithValue(ctx, recorderKey{}, rt)
				kind = 1
			}
			switch kind {
			case 0:
				out = CallM(r, "Send")
			case 1:
				out = CallM(r, "SendContext", ctx)
			default:
				out = CallM(r, "SendContext", nil)
			}
			if err := Err(out); err != nil {
				f.Failf("operation %d: can't send: %v", i, err)
			}
			sent++
			if len(rt.reqs) != sent {
				f.Failf("operation %d: there should be %d requests, but there are %d", i, sent, len(rt.reqs))
			}
			got := rt.reqs[sent-1]
			if d := m.verify(c.Route, p, got); d != "" {
				f.Failf("operation %d: %s", i, d)
			}
			if op.Ctx == 1 && got.ctx.Value(ctxKey{}) != i {
				f.Failf("operation %d: the context of the request isn't the given one", i)
			}
		}
	}
	kind := "metadata"
	if method != nil {
		kind = method.Name.Snake()
		if isAction(method) {
			kind = "action"
		}
	}
	f.R.Case(key(c), len(c.Ops) > 3 && (params > 0 || len(models[0].query) > 0), kind, fmt.Sprintf("%d locators", len(c.Route.Steps)))
	if f.R.WantSample() && params > 0 {
		f.R.Sample(c)
	}
}
