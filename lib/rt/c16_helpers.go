package rt

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"vlib/rec"

	"pgregory.net/rapid"
)

// HelperCase contains the arguments of the helper functions.
type HelperCase struct {
	Names  []string
	Values []Any
	Text   string
	Path   []string
	Lead   int
	Trail  int
	D      *Date
	N      int64
	F      float64
	B      bool
}

var texts = []string{
	"", "0", "1", "-1", "+5", "007", "1.5", "1e3", "0x10", "1_000", " 1", "1 ", "t", "T", "true", "TRUE", "True", "f", "false", "False", "yes", "tRUE",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "NaN", "Inf", "1e400", "abc", "ñ", "null",
	"2020-01-01T00:00:00Z", "2020-01-01T00:00:00+02:00", "2020-01-01T00:00:00.5Z", "2020-01-01", "2020-02-30T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01t00:00:00z",
}

func init() {
	Sub("C16", "helpers", 4000, 60000, genHelper, checkHelpers)
	Sub("C16", "helpers at the same time", 60, 1000, rec.GenTogether(genHelper), rec.CheckTogether(checkHelpers)).Risky = true
}

func checkHelpers(f *rec.F, c *HelperCase) {
	p := Pkgs["helpers"]
	// Query parameters and headers:
	var query url.Values
	var header http.Header
	expectedQuery, expectedHeader := map[string][]Any{}, map[string][]Any{}
	for i, n := range c.Names {
		before := Call(p.Sym("CopyQuery"), query)[0].Interface().(url.Values)
		beforeText := fmt.Sprint(before)
		Call(p.Sym("AddValue"), &query, n, c.Values[i].value())
		expectedQuery[n] = append(expectedQuery[n], c.Values[i])
		if fmt.Sprint(before) != beforeText {
			f.Failf("adding a value changed the copy of the query made before: %v instead of %s", before, beforeText)
		}
		if c.Values[i].K != "t" {
			h := http.CanonicalHeaderKey(n)
			beforeHeader := Call(p.Sym("CopyHeader"), header)[0].Interface().(http.Header)
			beforeText := fmt.Sprint(beforeHeader)
			if h == "Impersonate-User" && c.Values[i].K == "s" {
				Call(p.Sym("AddImpersonationHeader"), &header, c.Values[i].S)
			} else {
				Call(p.Sym("AddHeader"), &header, n, c.Values[i].value())
			}
			expectedHeader[h] = append(expectedHeader[h], c.Values[i])
			if fmt.Sprint(beforeHeader) != beforeText {
				f.Failf("adding a header changed the copy of the header made before: %v instead of %s", beforeHeader, beforeText)
			}
		}
	}
	checkMaps := func(what string, q url.Values, h http.Header) {
		if d := diffAnys("query parameter", expectedQuery, q); d != "" {
			f.Failf("%s: %s", what, d)
		}
		if d := diffAnys("header", expectedHeader, h); d != "" {
			f.Failf("%s: %s", what, d)
		}
	}
	checkMaps("original", query, header)
	queryCopy := Call(p.Sym("CopyQuery"), query)[0].Interface().(url.Values)
	headerCopy := Call(p.Sym("CopyHeader"), header)[0].Interface().(http.Header)
	checkMaps("copy", queryCopy, headerCopy)
	if headerCopy == nil {
		f.Failf("the copy of the header is nil")
	}
	if (queryCopy == nil) != (query == nil) {
		f.Failf("the copy of the query is %v but the original is %v", queryCopy, query)
	}
	for _, values := range queryCopy {
		for i := range values {
			values[i] = "changed"
		}
	}
	for _, values := range headerCopy {
		for i := range values {
			values[i] = "changed"
		}
	}
	if queryCopy != nil {
		queryCopy["changed!"] = nil
	}
	headerCopy["changed!"] = nil
	checkMaps("original after changing the copy", query, header)
	for _, values := range query {
		got := Call(p.Sym("CopyValues"), values)[0].Interface().([]string)
		if !reflect.DeepEqual(got, values) {
			f.Failf("the copy of %q is %q", values, got)
		}
		if len(got) > 0 {
			old := values[0]
			got[0] = old + "changed"
			if values[0] != old {
				f.Failf("the copy of the values isn't independent")
			}
		}
	}
	if got := Call(p.Sym("CopyValues"), []string(nil))[0]; !got.IsNil() {
		f.Failf("the copy of nil is %v", got)
	}

	// Segments:
	text := strings.Repeat("/", c.Lead) + strings.Join(c.Path, "/") + strings.Repeat("/", c.Trail)
	expected := c.Path
	if len(expected) == 0 {
		expected = []string{""}
	}
	if got := Call(p.Sym("Segments"), text)[0].Interface().([]string); !reflect.DeepEqual(got, expected) {
		f.Failf("the segments of %q are %q, but they should be %q", text, got, expected)
	}

	// Parsers:
	f.R.Class(c.parsers(f, p)...)

	// Pointers:
	date := c.D.time()
	for _, x := range []struct {
		fn string
		v  interface{}
	}{
		{"NewBoolean", c.B}, {"NewInteger", int(c.N)}, {"NewFloat", c.F}, {"NewString", c.Text}, {"NewDate", date},
	} {
		a, b := Call(p.Sym(x.fn), x.v)[0], Call(p.Sym(x.fn), x.v)[0]
		if a.Elem().Interface() != x.v || b.Elem().Interface() != x.v {
			f.Failf("%s(%v) returns %v", x.fn, x.v, a.Elem())
		}
		if a.Pointer() == b.Pointer() {
			f.Failf("%s returns the same pointer twice", x.fn)
		}
	}
	f.R.Case(key(c), len(c.Names) > 1)
	if len(c.Names) > 1 && f.R.WantSample() {
		f.R.Sample(c)
	}
}

// parsers checks the functions that parse query parameters.
func (c *HelperCase) parsers(f *rec.F, p *Pkg) []string {
	const name = "my_param"
	var classes []string
	check := func(fn string, valid bool, equal func(v interface{}) bool) {
		for _, q := range []url.Values{nil, {}, {"other": {c.Text}}, {name: {}}} {
			out := Call(p.Sym(fn), q, name)
			if err := Err(out); err != nil || !out[0].IsNil() {
				f.Failf("%s should return nil for %v, but it returns %v, '%v'", fn, q, out[0], err)
			}
		}
		for _, q := range []url.Values{{name: {c.Text, c.Text}}, {name: {c.Text, "", "x"}}} {
			out := Call(p.Sym(fn), q, name)
			if err := Err(out); err == nil || !strings.Contains(err.Error(), name) {
				f.Failf("%s should return an error that mentions the parameter for %v, but it returns '%v'", fn, q, err)
			}
		}
		out := Call(p.Sym(fn), url.Values{name: {c.Text}, "other": {"x", "y"}}, name)
		err := Err(out)
		if !valid {
			if err == nil || !strings.Contains(err.Error(), name) {
				f.Failf("%s should return an error that mentions the parameter for %q, but it returns '%v'", fn, c.Text, err)
			}
			return
		}
		classes = append(classes, fn)
		if err != nil {
			f.Failf("%s fails for %q: %v", fn, c.Text, err)
		}
		if out[0].IsNil() || !equal(out[0].Elem().Interface()) {
			f.Failf("%s returns %v for %q", fn, out[0].Elem(), c.Text)
		}
	}
	n, err := strconv.ParseInt(c.Text, 10, 64)
	check("ParseInteger", err == nil, func(v interface{}) bool { return v == int(n) })
	x, err := strconv.ParseFloat(c.Text, 64)
	check("ParseFloat", err == nil, func(v interface{}) bool { return v == x || x != x && v.(float64) != v.(float64) })
	check("ParseString", true, func(v interface{}) bool { return v == c.Text })
	b, err := strconv.ParseBool(c.Text)
	check("ParseBoolean", err == nil, func(v interface{}) bool { return v == b })
	d, err := time.Parse(time.RFC3339, c.Text)
	check("ParseDate", err == nil, func(v interface{}) bool { return v.(time.Time).Equal(d) })
	return classes
}

func genHelper(t *rapid.T) *HelperCase {
	c := &HelperCase{}
	n := genCount(t, "n", 0, 5, 40)
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, rapid.SampledFrom(append(append([]string{}, queryNames...), headerNames...)).Draw(t, "name"))
		c.Values = append(c.Values, genAnyParam(t, "value", true))
	}
	c.Text = rapid.SampledFrom(texts).Draw(t, "text")
	switch rapid.IntRange(0, 4).Draw(t, "textKind") {
	case 0:
		c.Text = GenString(t, "any")
	case 1:
		c.Text = strconv.FormatInt(genInt(t, "int"), 10)
	case 2:
		c.Text = strconv.FormatFloat(genFloat(t, "float"), 'g', -1, 64)
	case 3:
		c.Text = genDate(t, "date").time().Format(time.RFC3339Nano)
	}
	for k := genCount(t, "segments", 0, 4, 12); k > 0; k-- {
		c.Path = append(c.Path, genSegment(t, "segment"))
	}
	c.Lead, c.Trail = rapid.IntRange(0, 3).Draw(t, "lead"), rapid.IntRange(0, 3).Draw(t, "trail")
	c.D, c.N, c.F, c.B = genDate(t, "d"), genInt(t, "i"), genFloat(t, "f"), rapid.Bool().Draw(t, "b")
	return c
}
