package rt

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"testing/iotest"
	"time"

	"vlib/rec"

	"pgregory.net/rapid"
)

// ErrCase is an error.
type ErrCase struct {
	V, V2  *EVal
	Style  uint64
	Source int
	Status int
	Cut    int
	Path   string
	Method string
}

func genErr(t *rapid.T) *ErrCase {
	return &ErrCase{
		V: genError(t), V2: genError(t), Style: rapid.Uint64Range(0, 1<<40).Draw(t, "style"),
		Source: rapid.IntRange(0, 6).Draw(t, "source"), Status: rapid.SampledFrom([]int{400, 404, 500, 200, 0, -1, 599}).Draw(t, "status"),
		Cut: rapid.IntRange(0, 1<<20).Draw(t, "cut"), Path: "/" + genSegment(t, "path"),
		Method: rapid.SampledFrom([]string{"GET", "POST", "PATCH", "DELETE", "PUT"}).Draw(t, "method"),
	}
}

// set applies the values to a builder.
func (v *EVal) set(f *rec.F, b reflect.Value) {
	call := func(name string, arg interface{}) {
		m := Method(b, name)
		in := reflect.Zero(m.Type().In(0))
		if arg != nil {
			in = reflect.ValueOf(arg)
		}
		if out := m.Call([]reflect.Value{in}); out[0].Pointer() != b.Pointer() {
			f.Failf("method '%s' doesn't return the builder", name)
		}
	}
	if v.Status != nil {
		call("Status", *v.Status)
	}
	if v.ID != nil {
		call("ID", *v.ID)
	}
	if v.HREF != nil {
		call("HREF", *v.HREF)
	}
	if v.Code != nil {
		call("Code", *v.Code)
	}
	if v.Reason != nil {
		call("Reason", *v.Reason)
	}
	if v.Op != nil {
		call("OperationID", *v.Op)
	}
	if v.HasDetails {
		call("Details", deepCopy(v.Details))
	}
	if v.TS != nil {
		ts := v.TS.time()
		call("Timestamp", &ts)
	}
}

// merge is the result of applying the second value on top of the first.
func (v *EVal) merge(w *EVal) *EVal {
	r := *v
	if w.Status != nil {
		r.Status = w.Status
	}
	if w.ID != nil {
		r.ID = w.ID
	}
	if w.HREF != nil {
		r.HREF = w.HREF
	}
	if w.Code != nil {
		r.Code = w.Code
	}
	if w.Reason != nil {
		r.Reason = w.Reason
	}
	if w.Op != nil {
		r.Op = w.Op
	}
	if w.HasDetails {
		r.HasDetails, r.Details = true, w.Details
	}
	if w.TS != nil {
		r.TS = w.TS
	}
	return &r
}

// text is the description of the error.
func (v *EVal) text() string {
	var chunks []string
	if v.Status != nil {
		chunks = append(chunks, fmt.Sprintf("status is %d", *v.Status))
	}
	if v.ID != nil {
		chunks = append(chunks, "identifier is '"+*v.ID+"'")
	}
	if v.Code != nil {
		chunks = append(chunks, "code is '"+*v.Code+"'")
	}
	if v.TS != nil {
		chunks = append(chunks, "at '"+v.TS.time().Format(time.RFC3339)+"'")
	}
	if v.Op != nil {
		chunks = append(chunks, "operation identifier is '"+*v.Op+"'")
	}
	text := ""
	for i, c := range chunks {
		switch {
		case i == 0:
		case i == len(chunks)-1:
			text += " and "
		default:
			text += ", "
		}
		text += c
	}
	if v.Reason != nil {
		if text != "" {
			text += ": "
		}
		text += *v.Reason
	}
	if text == "" {
		return "unknown error"
	}
	return text
}

func init() {
	Sub("C15", "errors", 2500, 40000, genErr, checkErr)
	Sub("C15", "errors at the same time", 60, 1000, rec.GenTogether(genErr), rec.CheckTogether(checkErr)).Risky = true
}

func checkErr(f *rec.F, c *ErrCase) {
	p := Pkgs["errors"]
	build := func(b reflect.Value) reflect.Value {
		out := CallM(b, "Build")
		if err := Err(out); err != nil {
			f.Failf("can't build: %v", err)
		}
		return out[0]
	}
	verify := func(what string, v *EVal, o reflect.Value) {
		if d := v.diff(o); d != "" {
			f.Failf("%s: %s", what, d)
		}
		err, ok := o.Interface().(error)
		if !ok {
			f.Failf("the type %s isn't an error", o.Type())
		}
		if s := err.Error(); s != v.text() {
			f.Failf("%s: the text should be %q, but it is %q", what, v.text(), s)
		}
		if s := CallM(o, "String")[0].String(); s != v.text() {
			f.Failf("%s: the string should be %q, but it is %q", what, v.text(), s)
		}
	}
	// The nil error:
	null := reflect.Zero(reflect.PointerTo(p.Type("Error")))
	if k := CallM(null, "Kind")[0].String(); k != "ErrorNil" {
		f.Failf("the kind of the nil error is '%s'", k)
	}
	for _, n := range []string{"Status", "ID", "HREF", "Code", "Reason", "OperationID", "Details", "Timestamp"} {
		out := CallM(null, "Get"+n)
		if !CallM(null, n)[0].IsZero() || !out[0].IsZero() || out[1].Bool() {
			f.Failf("'%s' of the nil error isn't the zero value", n)
		}
	}
	// A nil timestamp isn't part of the description:
	without := *c.V
	without.TS = nil
	nb := Call(p.Sym("NewError"))[0]
	c.V.set(f, nb)
	CallM(nb, "Timestamp", nil)
	if s := CallM(build(nb), "Error")[0].String(); s != without.text() {
		f.Failf("nil timestamp: the text should be %q, but it is %q", without.text(), s)
	}
	// Builders:
	b := Call(p.Sym("NewError"))[0]
	c.V.set(f, b)
	first := build(b)
	verify("first", c.V, first)
	c.V2.set(f, b)
	second := build(b)
	verify("second", c.V.merge(c.V2), second)
	verify("first after changing the builder", c.V, first)
	CallM(b, "Copy", null)
	verify("copy of nil", c.V.merge(c.V2), build(b))
	CallM(b, "Copy", first)
	verify("copy", c.V, build(b))
	// Write and read:
	var buffer bytes.Buffer
	if err := Err(Call(p.Sym("MarshalError"), first, &buffer)); err != nil {
		f.Failf("can't write: %v", err)
	}
	j, err := ParseJ(buffer.Bytes())
	if err != nil {
		f.Failf("the result isn't valid JSON: %v: %s", err, clip(buffer.String()))
	}
	if d := DiffJ("", c.V.doc(), j); d != "" {
		f.Failf("the JSON representation isn't correct: %s: %s", d, clip(buffer.String()))
	}
	read := func(what, text string, v *EVal) {
		out := Call(p.Sym("UnmarshalError"), source(c.Source, text))
		if err := Err(out); err != nil {
			f.Failf("%s: can't read: %v: %s", what, err, clip(text))
		}
		verify(what, v, out[0])
		out = Call(p.Sym("UnmarshalErrorStatus"), source(c.Source, text), c.Status)
		if err := Err(out); err != nil {
			f.Failf("%s: can't read with status: %v: %s", what, err, clip(text))
		}
		verify(what+" with status", v.merge(&EVal{Status: &c.Status}), out[0])
	}
	read("what was written", buffer.String(), c.V)
	rnd := Rand(c.Style)
	doc := c.V2.doc()
	if rnd != nil {
		addUnknown(doc, rnd)
	}
	text := doc.Render(rnd)
	read("document", text, c.V2)
	for _, n := range []int{0, buffer.Len() - 1} {
		if err := Err(Call(p.Sym("MarshalError"), first, &limitedWriter{n: n})); err == nil {
			f.Failf("there is no error when the writer accepts only %d bytes", n)
		}
	}
	// Broken documents:
	trimmed := strings.TrimRight(text, " \t\r\n")
	cut := trimmed[:c.Cut%len(trimmed)]
	for _, fn := range []string{"UnmarshalError", "UnmarshalErrorStatus"} {
		var extra []interface{}
		if fn == "UnmarshalErrorStatus" {
			extra = []interface{}{c.Status}
		}
		for _, src := range []interface{}{
			source(c.Source, cut), iotest.ErrReader(errors.New("connection lost")), 42, nil, "[]", "{\"id\": 12}", "{\"status\": \"x\"}",
			"{\"timestamp\": \"yesterday\"}", "{\"reason\": {}}",
		} {
			if err := Err(Call(p.Sym(fn), append([]interface{}{src}, extra...)...)); err == nil {
				f.Failf("%s doesn't fail when reading %v", fn, src)
			}
		}
	}
	// Responses:
	send := func(fn string, args ...interface{}) (*httptest.ResponseRecorder, reflect.Value) {
		w := httptest.NewRecorder()
		r := &http.Request{Method: c.Method, URL: &url.URL{Path: c.Path}}
		Call(p.Sym(fn), append([]interface{}{w, r}, args...)...)
		if s := w.Header().Get("Content-Type"); s != "application/json" {
			f.Failf("%s: the content type is '%s'", fn, s)
		}
		out := Call(p.Sym("UnmarshalError"), w.Body.Bytes())
		if err := Err(out); err != nil {
			f.Failf("%s: the body isn't correct: %v: %s", fn, err, w.Body)
		}
		return w, out[0]
	}
	for fn, status := range map[string]int{"SendNotFound": 404, "SendMethodNotAllowed": 405, "SendInternalServerError": 500} {
		w, o := send(fn)
		if w.Code != status {
			f.Failf("%s: the status is %d", fn, w.Code)
		}
		if s := CallM(o, "ID")[0].String(); s != fmt.Sprint(status) {
			f.Failf("%s: the identifier is '%s'", fn, s)
		}
		reason := CallM(o, "Reason")[0].String()
		if !strings.Contains(reason, c.Path) {
			f.Failf("%s: the reason doesn't contain the path: %s", fn, reason)
		}
		if fn != "SendNotFound" && !strings.Contains(reason, c.Method) {
			f.Failf("%s: the reason doesn't contain the method: %s", fn, reason)
		}
	}
	status := 400 + c.Cut%200
	id := fmt.Sprint(status)
	v := c.V.merge(&EVal{ID: &id})
	b = Call(p.Sym("NewError"))[0]
	v.set(f, b)
	w, o := send("SendError", build(b))
	if w.Code != status {
		f.Failf("SendError: the status is %d, but it should be %d", w.Code, status)
	}
	verify("SendError", v, o)
	// If the identifier isn't a number the response is still an error document:
	id = "x" + id
	v = c.V.merge(&EVal{ID: &id})
	v.set(f, b)
	_, o = send("SendError", build(b))
	if s := CallM(o, "ID")[0].String(); s == "" {
		f.Failf("SendError: there is no identifier")
	}
	n := 0
	for _, x := range []bool{c.V.ID != nil, c.V.Code != nil, c.V.Reason != nil, c.V.HasDetails, c.V.TS != nil, c.V.Status != nil, c.V.Op != nil} {
		if x {
			n++
		}
	}
	f.R.Case(key(c), n > 1, fmt.Sprintf("%d fields", n))
	if n > 1 && f.R.WantSample() {
		f.R.Sample(clip(text))
	}
}
