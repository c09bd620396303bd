package rt

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing/iotest"
	"time"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// EVal is the content of an error.
type EVal struct {
	Status                     *int    `json:",omitempty"`
	ID, HREF, Code, Reason, Op *string `json:",omitempty"`
	HasDetails                 bool    `json:",omitempty"`
	Details                    interface{}
	TS                         *Date `json:",omitempty"`
}

func genError(t *rapid.T) *EVal {
	str := func(label string) *string {
		if rapid.Bool().Draw(t, label+"Has") {
			s := GenString(t, label)
			return &s
		}
		return nil
	}
	v := &EVal{ID: str("id"), HREF: str("href"), Code: str("code"), Reason: str("reason"), Op: str("op")}
	if rapid.IntRange(0, 2).Draw(t, "hasStatus") == 0 {
		n := int(genInt(t, "status"))
		v.Status = &n
	}
	if rapid.IntRange(0, 2).Draw(t, "hasDetails") == 0 {
		v.HasDetails = true
		v.Details = genAny(t, "details", 2)
	}
	if rapid.IntRange(0, 2).Draw(t, "hasTS") == 0 {
		v.TS = genDate(t, "ts")
	}
	return v
}

// doc is the JSON representation of an error.
func (v *EVal) doc() *J {
	j := &J{K: "obj"}
	j.add("kind", jStr("Error"))
	if v.Status != nil {
		j.add("status", &J{K: "num", S: fmt.Sprint(*v.Status)})
	}
	for _, x := range []struct {
		n string
		s *string
	}{{"id", v.ID}, {"href", v.HREF}, {"code", v.Code}, {"reason", v.Reason}, {"operation_id", v.Op}} {
		if x.s != nil {
			j.add(x.n, jStr(*x.s))
		}
	}
	if v.HasDetails {
		j.add("details", jAny(v.Details))
	}
	if v.TS != nil {
		j.add("timestamp", jStr(v.TS.time().Format(time.RFC3339Nano)))
	}
	return j
}

// diff compares an actual error.
func (v *EVal) diff(o reflect.Value) string {
	if o.Kind() != reflect.Ptr || o.IsNil() {
		return "the error is nil"
	}
	if k := CallM(o, "Kind")[0].String(); k != "Error" {
		return fmt.Sprintf("the kind is '%s'", k)
	}
	check := func(name string, present bool, expected interface{}) string {
		x := CallM(o, name)[0].Interface()
		out := CallM(o, "Get"+name)
		if out[1].Bool() != present {
			return fmt.Sprintf("the presence flag of '%s' is %v", name, out[1].Bool())
		}
		if !reflect.DeepEqual(norm(x), norm(expected)) || !reflect.DeepEqual(norm(out[0].Interface()), norm(expected)) {
			return fmt.Sprintf("the value of '%s' is %#v and %#v, but it should be %#v", name, x, out[0].Interface(), expected)
		}
		return ""
	}
	status := 0
	if v.Status != nil {
		status = *v.Status
	}
	if d := check("Status", v.Status != nil, status); d != "" {
		return d
	}
	for _, x := range []struct {
		n string
		s *string
	}{{"ID", v.ID}, {"HREF", v.HREF}, {"Code", v.Code}, {"Reason", v.Reason}, {"OperationID", v.Op}} {
		s := ""
		if x.s != nil {
			s = *x.s
		}
		if d := check(x.n, x.s != nil, s); d != "" {
			return d
		}
	}
	if d := check("Details", v.HasDetails, v.Details); d != "" {
		return d
	}
	ts := CallM(o, "Timestamp")[0].Interface().(*time.Time)
	out := CallM(o, "GetTimestamp")
	ts2 := out[0].Interface().(*time.Time)
	if out[1].Bool() != (v.TS != nil) || (ts != nil) != (v.TS != nil) || (ts2 != nil) != (v.TS != nil) {
		return "the presence of the timestamp isn't correct"
	}
	if v.TS != nil {
		_, eo := v.TS.time().Zone()
		_, ao := ts.Zone()
		if !ts.Equal(v.TS.time()) || !ts2.Equal(v.TS.time()) || ao != eo {
			return fmt.Sprintf("the timestamp is %s, but it should be %s", ts, v.TS.time())
		}
	}
	return ""
}

// ResCase is a response.
type ResCase struct {
	Route  *Route
	Kind   string // ok, empty, error, garbage, broken, failing, transport
	Status int
	Header map[string][]string
	Outs   map[string]*Val // Values of the output parameters.
	Meta   *string         // Version of the server.
	Err    *EVal
	Style  uint64
	Reader int
	Cut    int
	Again  bool // Send the same request twice.
}

func genRes(t *rapid.T) *ResCase {
	c := &ResCase{Route: genRoute(t, nil)}
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	c.Kind = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "empty", "error", "error", "garbage", "broken", "failing", "transport"}).Draw(t, "kind")
	c.Status = rapid.SampledFrom([]int{200, 200, 201, 202, 204, 206, 299, 300, 302, 399, 100}).Draw(t, "status")
	if c.Kind == "error" || c.Kind == "garbage" || (c.Kind == "empty" && rapid.Bool().Draw(t, "emptyError")) {
		c.Status = rapid.SampledFrom([]int{400, 401, 403, 404, 409, 429, 499, 500, 503, 599, 600}).Draw(t, "errorStatus")
	}
	c.Header = map[string][]string{}
	for n := rapid.IntRange(0, 3).Draw(t, "headers"); n > 0; n-- {
		name := rapid.SampledFrom([]string{"Content-Type", "X-One", "X-Two", "Location"}).Draw(t, "header")
		c.Header[name] = append(c.Header[name], GenString(t, "headerValue"))
	}
	c.Style = rapid.Uint64Range(0, 1<<40).Draw(t, "style")
	c.Reader = rapid.IntRange(0, 3).Draw(t, "reader")
	c.Cut = rapid.IntRange(0, 1<<20).Draw(t, "cut")
	c.Again = rapid.IntRange(0, 4).Draw(t, "again") == 0
	if c.Kind == "error" {
		c.Err = genError(t)
	}
	if m == nil {
		if rapid.Bool().Draw(t, "hasVersion") {
			s := GenString(t, "version")
			c.Meta = &s
		}
		return c
	}
	c.Outs = map[string]*Val{}
	for _, p := range outParams(m) {
		if raw(m) || rapid.IntRange(0, 3).Draw(t, "hasOut") != 0 {
			c.Outs[p.Name.Text()] = e.GenRef(t, "out", p.Type, 1)
		}
	}
	return c
}

// raw checks if the body of the response is directly the output parameter.
func raw(m *mm.Method) bool {
	switch m.Name.Snake() {
	case "get", "add", "post", "update", "async_update":
		return true
	}
	return false
}

// okBody is the body of a successful response.
func (c *ResCase) okBody() string {
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	rnd := Rand(c.Style)
	if m == nil {
		j := &J{K: "obj"}
		if c.Meta != nil {
			j.add("server_version", jStr(*c.Meta))
		}
		if rnd != nil {
			addUnknown(j, rnd)
		}
		return j.Render(rnd)
	}
	outs := outParams(m)
	if raw(m) && len(outs) == 1 {
		p := outs[0]
		j := e.JDoc(p.Type, false, c.Outs[p.Name.Text()], true)
		e.AddUnknown(j, p.Type, false, rnd)
		return j.Render(rnd)
	}
	j := &J{K: "obj"}
	for _, p := range outs {
		if v := c.Outs[p.Name.Text()]; v != nil {
			x := e.JDoc(p.Type, false, v, true)
			e.AddUnknown(x, p.Type, false, rnd)
			j.add(p.JSONName(), x)
		}
	}
	if rnd != nil {
		addUnknown(j, rnd)
		used := map[string]bool{}
		for _, p := range outs {
			used[p.JSONName()] = true
		}
		for _, n := range []string{"kind", "id", "href", "Items", "body", "pages"} {
			if !used[n] && rnd.Intn(4) == 0 {
				_, v := unknown(rnd)
				j.add(n, v)
			}
		}
	}
	return j.Render(rnd)
}

func (c *ResCase) reader(text string) io.Reader {
	r := io.Reader(strings.NewReader(text))
	switch c.Reader {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	}
	return r
}

func init() {
	Sub("C13", "responses", 2500, 40000, genRes, checkRes)
	Sub("C13", "responses at the same time", 60, 1000, rec.GenTogether(genRes), rec.CheckTogether(checkRes)).Risky = true
}

func checkRes(f *rec.F, c *ResCase) {
	e := GetEnv(c.Route.Dir)
	m := c.Route.method()
	lost := errors.New("connection lost")
	text := ""
	switch c.Kind {
	case "ok":
		text = c.okBody()
	case "error":
		rnd := Rand(c.Style)
		j := c.Err.doc()
		if rnd != nil {
			addUnknown(j, rnd)
		}
		text = j.Render(rnd)
	case "garbage":
		text = []string{"<html>", "not found", "[]", "{\"id\":", "{\"id\": 12}", "\"x\"", "{id}"}[c.Cut%7]
	case "broken", "failing":
		full := strings.TrimRight(c.okBody(), " \t\r\n")
		text = full[:c.Cut%len(full)]
		if c.Kind == "broken" && strings.TrimSpace(text) == "" {
			text = "{"
		}
	}
	var bodies []*trackedBody
	rt := &Recorder{respond: func(int) (*http.Response, error) {
		if c.Kind == "transport" {
			return nil, lost
		}
		body := &trackedBody{Reader: c.reader(text)}
		if c.Kind == "failing" {
			body.Reader = io.MultiReader(c.reader(text), iotest.ErrReader(lost))
		}
		bodies = append(bodies, body)
		return &http.Response{StatusCode: c.Status, Header: http.Header(c.Header).Clone(), Body: body}, nil
	}}
	client, _ := c.Route.Client(rt)
	req := c.Route.Request(client)
	if m != nil && !isAction(m) {
		for _, p := range e.bodyParams(m) {
			CallM(req, setterName(p), e.Value(p.Type, isItems(p), &Val{}))
		}
	}
	out := CallM(req, "Send")
	if c.Again {
		// The result is independent of previous requests:
		out = CallM(req, "Send")
	}
	res, err := out[0], Err(out)
	for _, b := range bodies {
		if b.closed == 0 {
			f.Failf("the body of the response hasn't been closed")
		}
	}
	done := func() {
		kind := "metadata"
		if m != nil {
			kind = m.Name.Snake()
			if isAction(m) {
				kind = "action"
			}
		}
		nontrivial := len(c.Outs) > 0 || c.Err != nil || c.Meta != nil
		f.R.Case(key(c), nontrivial, kind, "response "+c.Kind)
		if nontrivial && f.R.WantSample() {
			f.R.Sample(clip(text))
		}
	}
	unset := func(p *mm.Param) {
		g := getterName(p)
		x, get := CallM(res, g)[0], CallM(res, "Get"+g)
		if !x.IsZero() || !get[0].IsZero() || get[1].Bool() {
			f.Failf("parameter '%s' should not have a value, but it is %v and %v, %v: %s", p.Name.Text(), x, get[0], get[1], clip(text))
		}
	}
	if c.Kind == "transport" {
		if !errors.Is(err, lost) {
			f.Failf("the error of the transport is lost, got '%v'", err)
		}
		if !res.IsNil() {
			f.Failf("there is a response even if the transport failed")
		}
		if CallM(res, "Status")[0].Int() != 0 || !CallM(res, "Header")[0].IsNil() || !CallM(res, "Error")[0].IsNil() {
			f.Failf("the accessors of the nil response don't return the zero values")
		}
		if m != nil {
			for _, p := range outParams(m) {
				unset(p)
			}
		}
		done()
		return
	}
	switch c.Kind {
	case "failing":
		if err == nil && (m == nil || len(outParams(m)) > 0) {
			f.Failf("the error of the connection is lost: %s", clip(text))
		}
		done()
		return
	case "garbage":
		if err == nil {
			f.Failf("response with status %d and body %q isn't an error", c.Status, text)
		}
	case "broken":
		if err == nil && (m == nil || len(outParams(m)) > 0) {
			f.Failf("response with truncated body %s isn't an error", clip(text))
		}
		done()
		return
	}
	// The status and header are always available:
	if res.IsNil() {
		f.Failf("there is no response, only an error: %v", err)
	}
	if n := int(CallM(res, "Status")[0].Int()); n != c.Status {
		f.Failf("the status of the response should be %d, but it is %d", c.Status, n)
	}
	header := CallM(res, "Header")[0].Interface().(http.Header)
	if !reflect.DeepEqual(map[string][]string(header), c.Header) {
		f.Failf("the header of the response should be %v, but it is %v", c.Header, header)
	}
	re := CallM(res, "Error")[0]
	switch c.Kind {
	case "error":
		if err == nil {
			f.Failf("response with status %d isn't an error: %s", c.Status, clip(text))
		}
		ev := *c.Err
		ev.Status = &c.Status
		for _, x := range []reflect.Value{reflect.ValueOf(err), re} {
			if x.Type() != re.Type() {
				f.Failf("the type of the error is %s", x.Type())
			}
			if d := ev.diff(x); d != "" {
				f.Failf("the error isn't correct: %s: %s", d, clip(text))
			}
		}
	case "ok":
		if err != nil {
			f.Failf("can't receive: %v: %s", err, clip(text))
		}
		if !re.IsNil() {
			f.Failf("the response has an error: %v", re)
		}
	case "empty":
		if c.Status < 400 && err != nil && m != nil {
			f.Failf("response with status %d and empty body is an error: %v", c.Status, err)
		}
	}
	if m == nil {
		if c.Kind == "ok" {
			md := CallM(res, "Body")[0]
			if md.IsNil() {
				f.Failf("there is no metadata: %s", clip(text))
			}
			expected := ""
			if c.Meta != nil {
				expected = *c.Meta
			}
			get := CallM(md, "GetServerVersion")
			if get[0].String() != expected || get[1].Bool() != (c.Meta != nil) {
				f.Failf("the version should be %q, but it is %q, %v: %s", expected, get[0], get[1], clip(text))
			}
		}
		done()
		return
	}
	for _, p := range outParams(m) {
		v := c.Outs[p.Name.Text()]
		if c.Kind != "ok" || v == nil || e.nilInterface(p, v) {
			unset(p)
			continue
		}
		g := getterName(p)
		get := CallM(res, "Get"+g)
		if !get[1].Bool() {
			f.Failf("parameter '%s' doesn't have a value: %s", p.Name.Text(), clip(text))
		}
		for _, x := range []reflect.Value{CallM(res, g)[0], get[0]} {
			if d := e.Diff(p.Name.Text(), p.Type, isItems(p), v, x); d != "" {
				f.Failf("the response isn't correct: %s: %s", d, clip(text))
			}
		}
	}
	done()
}
