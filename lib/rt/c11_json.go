package rt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"testing/iotest"

	"vlib/mm"
	"vlib/rec"

	jsoniter "github.com/json-iterator/go"
	"pgregory.net/rapid"
)

// JSONCase is a value of a type, and the way to render and read its JSON representation.
type JSONCase struct {
	Dir, Type string
	List      bool `json:",omitempty"` // List of the type.
	V         *Val
	Style     uint64 `json:",omitempty"` // Zero means simple text without unknown fields.
	Source    int    // Kind of source used for reading.
	V2        *Val   `json:",omitempty"` // Second document.
	Cut       int    `json:",omitempty"` // Where to truncate.
	Change    int    `json:",omitempty"` // What to change.
}

var builtinScalars = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

func (c *JSONCase) ref() mm.Ref {
	r := mm.Ref{Name: mm.Id(c.Type)}
	if c.List {
		r.Kind = mm.List
	}
	return r
}

func genJSON(t *rapid.T) *JSONCase {
	e := pickEnv(t)
	c := &JSONCase{Dir: e.Dir}
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0:
		c.Type, c.List = rapid.SampledFrom(builtinScalars).Draw(t, "scalar"), true
	case 1, 2:
		c.Type, c.List = rapid.SampledFrom(e.V.Types).Draw(t, "element").Name.Text(), true
	default:
		c.Type = pickStruct(t, e).Name.Text()
	}
	depth := 2
	if c.List {
		depth = 1
	}
	c.V = e.GenRef(t, "v", c.ref(), depth)
	if rapid.IntRange(0, 4).Draw(t, "plain") != 0 {
		c.Style = rapid.Uint64Range(1, 1<<40).Draw(t, "style")
	}
	c.Source = rapid.IntRange(0, 6).Draw(t, "source")
	return c
}

// funcName is the name of the functions that marshal and unmarshal.
func (e *Env) funcName(prefix string, c *JSONCase) string {
	if c.List {
		return prefix + mm.Id(c.Type).Camel() + "List"
	}
	return prefix + e.V.Find(mm.Id(c.Type)).GoName()
}

// source creates a source for reading a text.
func source(kind int, text string) interface{} {
	switch kind {
	case 0:
		return text
	case 1:
		return []byte(text)
	case 2:
		return strings.NewReader(text)
	case 3:
		return iotest.OneByteReader(strings.NewReader(text))
	case 4:
		return iotest.DataErrReader(iotest.HalfReader(strings.NewReader(text)))
	case 5:
		out := Call(Pkgs["helpers"].Sym("NewIterator"), text)
		return out[0].Interface()
	}
	return bytes.NewBufferString(text)
}

func (e *Env) unmarshal(c *JSONCase, src interface{}) (reflect.Value, error) {
	out := Call(e.Pkg.Sym(e.funcName("Unmarshal", c)), src)
	return out[0], Err(out)
}

func (e *Env) document(c *JSONCase, v *Val) string {
	j := e.JDoc(c.ref(), false, v, true)
	rnd := Rand(c.Style)
	e.AddUnknown(j, c.ref(), false, rnd)
	return j.Render(rnd)
}

// hasMap checks if a value contains maps inside values of interface type, as the order of their keys
// isn't defined.
func hasMap(v *Val) bool {
	if v == nil {
		return false
	}
	if anyMap(v.X) {
		return true
	}
	for _, f := range v.Fields {
		if hasMap(f) {
			return true
		}
	}
	for _, i := range v.Items {
		if hasMap(i) {
			return true
		}
	}
	return false
}

func anyMap(x interface{}) bool {
	switch typed := x.(type) {
	case map[string]interface{}:
		return len(typed) > 1 || len(typed) == 1 && anyMap(firstValue(typed))
	case []interface{}:
		for _, y := range typed {
			if anyMap(y) {
				return true
			}
		}
	}
	return false
}

func firstValue(m map[string]interface{}) interface{} {
	for _, v := range m {
		return v
	}
	return nil
}

type limitedWriter struct {
	n int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errors.New("disk full")
	}
	w.n -= len(p)
	return len(p), nil
}

func clip(s string) string {
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}

func init() {
	Sub("C11", "write and read", 2500, 40000, genJSON, checkWriteAndRead)
	Sub("C11", "write and read at the same time", 60, 1000, rec.GenTogether(genJSON), rec.CheckTogether(checkWriteAndRead)).Risky = true

	Sub("C11", "read", 2500, 40000, genJSON, checkRead)
	Sub("C11", "read at the same time", 60, 1000, rec.GenTogether(genJSON), rec.CheckTogether(checkRead)).Risky = true

	Sub("C11", "shared object", 60, 1000, genJSON, func(f *rec.F, c *JSONCase) {
		e := GetEnv(c.Dir)
		value := e.Value(c.ref(), false, c.V)
		together := &rec.Together[*JSONCase]{Cases: []*JSONCase{c, c, c, c}, Rounds: 5}
		rec.CheckTogether(func(f *rec.F, c *JSONCase) {
			var b bytes.Buffer
			if err := Err(Call(e.Pkg.Sym(e.funcName("Marshal", c)), value, &b)); err != nil {
				f.Failf("can't marshal: %v", err)
			}
			j, err := ParseJ(b.Bytes())
			if err != nil {
				f.Failf("the result isn't valid JSON: %v: %s", err, clip(b.String()))
			}
			if d := DiffJ("", e.JDoc(c.ref(), false, c.V, false), j); d != "" {
				f.Failf("the JSON representation isn't correct: %s: %s", d, clip(b.String()))
			}
			if d := e.Diff("object", c.ref(), false, c.V, value); d != "" {
				f.Failf("the shared object isn't correct: %s", d)
			}
		})(f, together)
	}).Risky = true

	Sub("C11", "several documents", 300, 4000, func(t *rapid.T) *JSONCase {
		c := genJSON(t)
		e := GetEnv(c.Dir)
		c.V2 = e.GenRef(t, "v2", c.ref(), 1)
		return c
	}, func(f *rec.F, c *JSONCase) {
		e := GetEnv(c.Dir)
		text := e.document(c, c.V) + " " + e.document(c, c.V2) + " true"
		out := Call(Pkgs["helpers"].Sym("NewIterator"), source(c.Source, text))
		if err := Err(out); err != nil {
			f.Failf("can't create iterator: %v", err)
		}
		it := out[0].Interface().(*jsoniter.Iterator)
		for i, v := range []*Val{c.V, c.V2} {
			back, err := e.unmarshal(c, it)
			if err != nil {
				f.Failf("can't read document %d: %v: %s", i, err, clip(text))
			}
			if d := e.Diff("value", c.ref(), false, v, back); d != "" {
				f.Failf("what is read isn't correct: document %d: %s: %s", i, d, clip(text))
			}
		}
		if b := it.ReadBool(); !b {
			f.Failf("what remains after the documents was consumed: %s", clip(text))
		}
		f.R.Case("s"+key(c), c.V.Size() > 3, "several documents")
	})

	Sub("C11", "broken documents", 2000, 30000, func(t *rapid.T) *JSONCase {
		c := genJSON(t)
		c.Cut = rapid.IntRange(0, 1<<20).Draw(t, "cut")
		c.Change = rapid.IntRange(1, 1<<20).Draw(t, "change")
		return c
	}, checkBroken)

	Sub("C11", "link lists", 400, 4000, func(t *rapid.T) *LinkListCase {
		type pair struct {
			e *Env
			t *mm.Type
			a *mm.Attr
		}
		var all []pair
		for _, e := range Envs() {
			for _, typ := range e.structs() {
				for _, a := range typ.Attrs {
					if a.Link && a.Type.Kind == mm.List {
						all = append(all, pair{e, typ, a})
					}
				}
			}
		}
		if len(all) == 0 {
			return &LinkListCase{}
		}
		p := rapid.SampledFrom(all).Draw(t, "attribute")
		c := &LinkListCase{Dir: p.e.Dir, Type: p.t.Name.Text(), Attr: p.a.Name.Text()}
		c.Link = rapid.Bool().Draw(t, "link")
		c.Kind = rapid.Bool().Draw(t, "kind")
		if rapid.Bool().Draw(t, "hasHref") {
			s := GenString(t, "href")
			c.HREF = &s
		}
		if rapid.Bool().Draw(t, "hasItems") {
			c.Items = p.e.GenRef(t, "items", p.a.Type, 1)
		}
		c.Style = rapid.Uint64Range(0, 1<<40).Draw(t, "style")
		return c
	}, func(f *rec.F, c *LinkListCase) {
		if c.Dir == "" {
			f.R.Case("none", false)
			return
		}
		e := GetEnv(c.Dir)
		typ := e.typeByText(c.Type)
		a := attrByText(typ, c.Attr)
		target := e.V.Find(a.Type.Name)
		list := &J{K: "obj"}
		kind := target.GoName() + "List"
		if c.Link {
			kind += "Link"
		}
		if c.Kind || c.Link {
			list.add("kind", jStr(kind))
		}
		if c.HREF != nil {
			list.add("href", jStr(*c.HREF))
		}
		items := c.Items
		if items != nil {
			list.add("items", e.JDoc(a.Type, false, items, true))
		} else {
			items = &Val{}
		}
		rnd := Rand(c.Style)
		if rnd != nil {
			addUnknown(list, rnd)
		}
		doc := &J{K: "obj"}
		doc.add(a.JSONName(), list)
		text := doc.Render(rnd)
		out := Call(e.Pkg.Sym("Unmarshal"+typ.GoName()), text)
		if err := Err(out); err != nil {
			f.Failf("can't read: %v: %s", err, clip(text))
		}
		got := CallM(out[0], a.GoName())[0]
		if got.IsNil() {
			f.Failf("the list of links is nil: %s", clip(text))
		}
		if d := e.Diff("list", a.Type, true, items, got); d != "" {
			f.Failf("the list of links isn't correct: %s: %s", d, clip(text))
		}
		if CallM(got, "Link")[0].Bool() != c.Link || CallM(got, "Kind")[0].String() != kind {
			f.Failf("kind and link flag aren't correct: got %v and %v: %s", CallM(got, "Kind")[0], CallM(got, "Link")[0], clip(text))
		}
		ho := CallM(got, "GetHREF")
		href := ""
		if c.HREF != nil {
			href = *c.HREF
		}
		// The empty string isn't a link:
		if ho[0].String() != href || (href != "" && !ho[1].Bool()) || (c.HREF == nil && ho[1].Bool()) {
			f.Failf("the link isn't correct: got %q, %v: %s", ho[0].String(), ho[1].Bool(), clip(text))
		}
		f.R.Case("l"+key(c), true, "link lists")
	})

	Sub("C11", "sources and metadata", 150, 1500, func(t *rapid.T) *MetaCase {
		c := &MetaCase{Dir: pickEnv(t).Dir, Source: rapid.IntRange(0, 6).Draw(t, "source")}
		if rapid.Bool().Draw(t, "has") {
			s := GenString(t, "version")
			c.Version = &s
		}
		c.Style = rapid.Uint64Range(0, 1<<40).Draw(t, "style")
		return c
	}, func(f *rec.F, c *MetaCase) {
		e := GetEnv(c.Dir)
		j := &J{K: "obj"}
		if c.Version != nil {
			j.add("server_version", jStr(*c.Version))
		}
		rnd := Rand(c.Style)
		j2 := *j
		if rnd != nil {
			addUnknown(&j2, rnd)
		}
		text := j2.Render(rnd)
		check := func(what, text string) reflect.Value {
			out := Call(e.Pkg.Sym("UnmarshalMetadata"), source(c.Source, text))
			if err := Err(out); err != nil {
				f.Failf("can't read metadata: %v: %s", err, text)
			}
			expected := ""
			if c.Version != nil {
				expected = *c.Version
			}
			got := CallM(out[0], "GetServerVersion")
			if s := CallM(out[0], "ServerVersion")[0].String(); s != expected || got[0].String() != expected || got[1].Bool() != (c.Version != nil) {
				f.Failf("%s: metadata isn't correct: %s", what, text)
			}
			return out[0]
		}
		md := check("read", text)
		var b bytes.Buffer
		if err := Err(Call(e.Pkg.Sym("MarshalMetadata"), md, &b)); err != nil {
			f.Failf("can't write metadata: %v", err)
		}
		actual, err := ParseJ(b.Bytes())
		if err != nil {
			f.Failf("metadata isn't valid JSON: %v: %s", err, b.String())
		}
		if d := DiffJ("", j, actual); d != "" {
			f.Failf("metadata isn't correct: %s", d)
		}
		check("written", b.String())
		for _, src := range []interface{}{42, nil, 3.14, []string{"{}"}, struct{}{}} {
			if err := Err(Call(e.Pkg.Sym("UnmarshalMetadata"), src)); err == nil {
				f.Failf("reading metadata from %T should be an error", src)
			}
			for _, typ := range e.structs() {
				if err := Err(Call(e.Pkg.Sym("Unmarshal"+typ.GoName()), src)); err == nil {
					f.Failf("reading '%s' from %T should be an error", typ.GoName(), src)
				}
			}
		}
		f.R.Case("m"+key(c), c.Version != nil, "metadata")
	})
}

// LinkListCase is a document containing a list of links.
type LinkListCase struct {
	Dir, Type, Attr string
	Link, Kind      bool
	HREF            *string
	Items           *Val
	Style           uint64
}

// MetaCase is for the metadata.
type MetaCase struct {
	Dir     string
	Version *string
	Style   uint64
	Source  int
}

// checkBroken checks that documents that are truncated or that contain values of the wrong type are
// rejected.
func checkBroken(f *rec.F, c *JSONCase) {
	e := GetEnv(c.Dir)
	text := e.document(c, c.V)
	trimmed := strings.TrimRight(text, " \t\r\n")
	// Cut it somewhere before the last character:
	cut := trimmed[:c.Cut%len(trimmed)]
	if back, err := e.unmarshal(c, source(c.Source, cut)); err == nil {
		f.Failf("truncated document isn't rejected, the result is %v: %s", back, clip(cut))
	}
	// A reader that fails:
	failing := io.MultiReader(strings.NewReader(cut), iotest.ErrReader(errors.New("connection reset")))
	if _, err := e.unmarshal(c, failing); err == nil {
		f.Failf("the error of the reader is lost after reading %s", clip(cut))
	}
	// Change the type of one value:
	j := e.JDoc(c.ref(), false, c.V, true)
	var spots []spot
	e.spots(j, c.ref(), false, &spots)
	classes := []string{"truncated"}
	if len(spots) > 0 {
		rnd := rand.New(rand.NewSource(int64(c.Change)))
		s := spots[rnd.Intn(len(spots))]
		old := *s.j
		*s.j = *wrong(s.kind, rnd)
		changed := j.Text()
		if _, err := e.unmarshal(c, source(c.Source, changed)); err == nil {
			f.Failf("document containing %s instead of %s (%s) isn't rejected: %s", s.j.Text(), old.Text(), s.kind, clip(changed))
		}
		classes = append(classes, "wrong "+s.kind)
		if f.R.WantSample() {
			f.R.Sample(clip(changed))
		}
	}
	f.R.Case("b"+key(c), len(spots) > 1, classes...)
}

type spot struct {
	j    *J
	kind string
}

// spots finds the places of a document where there is a value that needs to be of some JSON type.
func (e *Env) spots(j *J, r mm.Ref, link bool, result *[]spot) {
	elem := func(x *J) {
		if e.isStruct(r.Name) {
			*result = append(*result, spot{x, "object"})
			typ := e.V.Find(r.Name)
			for i, k := range x.Key {
				if typ.Kind == mm.Class && (k == "kind" || k == "id" || k == "href") {
					*result = append(*result, spot{x.A[i], "string"})
					continue
				}
				for _, a := range typ.Attrs {
					if a.JSONName() == k {
						e.spots(x.A[i], a.Type, a.Link, result)
					}
				}
			}
			return
		}
		kind := r.Name.Snake()
		if e.V.Find(r.Name) != nil {
			kind = "string"
		}
		if kind != "interface" {
			*result = append(*result, spot{x, kind})
		}
	}
	switch r.Kind {
	case mm.List:
		list := j
		if link {
			*result = append(*result, spot{j, "object"})
			list = j.A[0]
		}
		*result = append(*result, spot{list, "list"})
		for _, x := range list.A {
			elem(x)
		}
	case mm.Map:
		*result = append(*result, spot{j, "object"})
		for _, x := range j.A {
			elem(x)
		}
	default:
		elem(j)
	}
}

// wrong returns a value that can't be used for the given kind.
func wrong(kind string, rnd *rand.Rand) *J {
	t := &J{K: "bool", B: true}
	n := &J{K: "num", S: "12"}
	s := jStr("x")
	o := &J{K: "obj"}
	a := &J{K: "arr"}
	var options []*J
	switch kind {
	case "boolean":
		options = []*J{n, s, o, a, jStr("true")}
	case "integer", "long":
		options = []*J{t, s, o, a, jStr("12"), {K: "num", S: "1.5"}, {K: "num", S: "9223372036854775808"}, {K: "num", S: "-9223372036854775809"}, {K: "num", S: "1e400"}}
	case "float":
		options = []*J{t, s, o, a, jStr("1.5")}
	case "string":
		options = []*J{t, n, o, a}
	case "date":
		options = []*J{t, n, o, a, s, jStr(""), jStr("2020-01-01"), jStr("2020-13-01T00:00:00Z"), jStr("2020-02-30T00:00:00Z"), jStr("2020-01-01T00:00:00"), jStr("2020-01-01 00:00:00Z"), jStr("1577836800")}
	case "list":
		options = []*J{t, n, s, o}
	case "object":
		options = []*J{t, n, s, a}
	}
	return options[rnd.Intn(len(options))]
}

func checkWriteAndRead(f *rec.F, c *JSONCase) {
	e := GetEnv(c.Dir)
	value := e.Value(c.ref(), false, c.V)
	marshal := func(v reflect.Value) []byte {
		var b bytes.Buffer
		if err := Err(Call(e.Pkg.Sym(e.funcName("Marshal", c)), v, &b)); err != nil {
			f.Failf("can't marshal: %v", err)
		}
		return b.Bytes()
	}
	text := marshal(value)
	j, err := ParseJ(text)
	if err != nil {
		f.Failf("the result isn't valid JSON: %v: %s", err, clip(string(text)))
	}
	if d := DiffJ("", e.JDoc(c.ref(), false, c.V, false), j); d != "" {
		f.Failf("the JSON representation isn't correct: %s: %s", d, clip(string(text)))
	}
	again := marshal(value)
	if !hasMap(c.V) && !bytes.Equal(text, again) {
		f.Failf("writing the same value twice gives different results: %s: %s", clip(string(text)), clip(string(again)))
	}
	if d := e.Diff("original", c.ref(), false, c.V, value); d != "" {
		f.Failf("marshalling changed the value: %s", d)
	}
	// What was written can be read, and written again:
	back, err := e.unmarshal(c, source(c.Source, string(text)))
	if err != nil {
		f.Failf("can't read what was written: %v: %s", err, clip(string(text)))
	}
	if d := e.Diff("value", c.ref(), false, c.V.Wire(), back); d != "" {
		f.Failf("what is read is different to what was written: %s: %s", d, clip(string(text)))
	}
	if third := marshal(back); !hasMap(c.V) && !bytes.Equal(text, third) {
		f.Failf("writing what was read gives a different result: %s: %s", clip(string(text)), clip(string(third)))
	}
	// The lower level function, in a stream that already contains other things:
	var b bytes.Buffer
	stream := Call(Pkgs["helpers"].Sym("NewStream"), &b)[0].Interface().(*jsoniter.Stream)
	stream.WriteArrayStart()
	stream.WriteBool(true)
	stream.WriteMore()
	name := mm.Id(c.Type).Camel()
	if c.List {
		name += "List"
	}
	Call(e.Pkg.Sym("Write"+name), value, stream)
	stream.WriteArrayEnd()
	if err := stream.Flush(); err != nil {
		f.Failf("can't flush the stream: %v", err)
	}
	j, err = ParseJ(b.Bytes())
	if err != nil {
		f.Failf("the result of Write%s isn't valid JSON: %v", name, err)
	}
	expected := &J{K: "arr", A: []*J{{K: "bool", B: true}, e.JDoc(c.ref(), false, c.V, false)}}
	if d := DiffJ("", expected, j); d != "" {
		f.Failf("the result of Write%s isn't correct: %s", name, d)
	}
	// Failures of the writer aren't hidden:
	for _, n := range []int{0, len(text) / 2, len(text) - 1} {
		if err := Err(Call(e.Pkg.Sym(e.funcName("Marshal", c)), value, &limitedWriter{n: n})); err == nil {
			f.Failf("there is no error when the writer accepts only %d bytes", n)
		}
	}
	n := c.V.Size()
	f.R.Case(key(c), n > 3, "write")
	if n > 3 && f.R.WantSample() {
		f.R.Sample(clip(string(text)))
	}
}

func checkRead(f *rec.F, c *JSONCase) {
	e := GetEnv(c.Dir)
	text := e.document(c, c.V)
	back, err := e.unmarshal(c, source(c.Source, text))
	if err != nil {
		f.Failf("can't read document: %v: %s", err, clip(text))
	}
	if d := e.Diff("value", c.ref(), false, c.V, back); d != "" {
		f.Failf("what is read isn't correct: %s: %s", d, clip(text))
	}
	f.R.Case("r"+key(c), c.V.Size() > 3 && c.Style != 0, "read", fmt.Sprintf("source %d", c.Source))
	if c.Style != 0 && f.R.WantSample() {
		f.R.Sample(clip(text))
	}
}
