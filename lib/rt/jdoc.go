package rt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"vlib/mm"
)

// J is a JSON document. Objects are lists of members so that duplicates can be detected.
type J struct {
	K   string // null, bool, num, str, arr, obj
	B   bool
	S   string // Text of strings and numbers.
	A   []*J
	Key []string
}

func jStr(s string) *J { return &J{K: "str", S: s} }

func jAny(x interface{}) *J {
	switch typed := x.(type) {
	case nil:
		return &J{K: "null"}
	case bool:
		return &J{K: "bool", B: typed}
	case float64:
		return jFloat(typed)
	case string:
		return jStr(typed)
	case []interface{}:
		j := &J{K: "arr"}
		for _, y := range typed {
			j.A = append(j.A, jAny(y))
		}
		return j
	case map[string]interface{}:
		j := &J{K: "obj"}
		keys := make([]string, 0, len(typed))
		for k := range typed {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			j.Key = append(j.Key, k)
			j.A = append(j.A, jAny(typed[k]))
		}
		return j
	}
	panic(fmt.Sprintf("unexpected %T", x))
}

func jFloat(f float64) *J {
	format := byte('f')
	if f != 0 && (f < 1e-6 && f > -1e-6 || f >= 1e21 || f <= -1e21) {
		format = 'e'
	}
	return &J{K: "num", S: strconv.FormatFloat(f, format, -1, 64)}
}

// JScalar is the JSON representation of a scalar. The frac flag includes the fractions of seconds of dates.
func (e *Env) jScalar(id mm.Ident, v *Val, frac bool) *J {
	if e.V.Find(id) != nil {
		return jStr(v.S)
	}
	switch id.Snake() {
	case "boolean":
		return &J{K: "bool", B: v.B}
	case "integer", "long":
		return &J{K: "num", S: strconv.FormatInt(v.I, 10)}
	case "float":
		return jFloat(v.F)
	case "string":
		return jStr(v.S)
	case "date":
		layout := time.RFC3339
		if frac {
			layout = time.RFC3339Nano
		}
		return jStr(v.T.time().Format(layout))
	}
	return jAny(v.X)
}

// JDoc is the JSON representation of a value. The link flag says that a list is a list of links.
func (e *Env) JDoc(r mm.Ref, link bool, v *Val, frac bool) *J {
	elem := func(x *Val) *J {
		if e.isStruct(r.Name) {
			return e.JStruct(e.V.Find(r.Name), x, frac)
		}
		return e.jScalar(r.Name, x, frac)
	}
	switch r.Kind {
	case mm.List:
		j := &J{K: "arr"}
		for _, x := range v.Items {
			j.A = append(j.A, elem(x))
		}
		if link {
			return &J{K: "obj", Key: []string{"items"}, A: []*J{j}}
		}
		return j
	case mm.Map:
		j := &J{K: "obj"}
		for i, x := range v.Items {
			j.Key = append(j.Key, v.Keys[i])
			j.A = append(j.A, elem(x))
		}
		return j
	}
	return elem(v)
}

func (j *J) add(key string, v *J) {
	j.Key = append(j.Key, key)
	j.A = append(j.A, v)
}

// JStruct is the JSON representation of an object.
func (e *Env) JStruct(typ *mm.Type, v *Val, frac bool) *J {
	j := &J{K: "obj"}
	if typ.Kind == mm.Class {
		kind := typ.GoName()
		if v.Link {
			kind += "Link"
		}
		j.add("kind", jStr(kind))
		if v.ID != nil {
			j.add("id", jStr(*v.ID))
		}
		if v.HREF != nil {
			j.add("href", jStr(*v.HREF))
		}
	}
	for _, a := range typ.Attrs {
		if fv := v.Fields[a.Name.Text()]; fv != nil {
			j.add(a.JSONName(), e.JDoc(a.Type, a.Link, fv, frac))
		}
	}
	return j
}

// ParseJ parses a JSON text, which must contain exactly one document.
func ParseJ(data []byte) (*J, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	j, err := parseJ(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("there is something after the end of the document")
	}
	return j, nil
}

func parseJ(d *json.Decoder) (*J, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch typed := tok.(type) {
	case nil:
		return &J{K: "null"}, nil
	case bool:
		return &J{K: "bool", B: typed}, nil
	case json.Number:
		return &J{K: "num", S: typed.String()}, nil
	case string:
		return jStr(typed), nil
	case json.Delim:
		j := &J{K: "arr"}
		if typed == '{' {
			j.K = "obj"
		}
		for d.More() {
			if j.K == "obj" {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				j.Key = append(j.Key, k.(string))
			}
			v, err := parseJ(d)
			if err != nil {
				return nil, err
			}
			j.A = append(j.A, v)
		}
		_, err := d.Token()
		return j, err
	}
	return nil, fmt.Errorf("unexpected token %v", tok)
}

// DiffJ compares JSON documents and returns the first difference. The order of the members of
// objects isn't relevant, but they should not be repeated.
func DiffJ(path string, expected, actual *J) string {
	if expected.K != actual.K {
		return fmt.Sprintf("%s: expected %s but got %s", path, expected.Text(), actual.Text())
	}
	switch expected.K {
	case "bool":
		if expected.B != actual.B {
			return fmt.Sprintf("%s: expected %v but got %v", path, expected.B, actual.B)
		}
	case "str":
		if expected.S != actual.S {
			return fmt.Sprintf("%s: expected %q but got %q", path, expected.S, actual.S)
		}
	case "num":
		if expected.S != actual.S {
			ef, _ := strconv.ParseFloat(expected.S, 64)
			af, err := strconv.ParseFloat(actual.S, 64)
			integer := !strings.ContainsAny(expected.S, ".eE")
			if err != nil || ef != af || (integer && len(expected.S) > 15 && !strings.ContainsAny(actual.S, ".eE")) {
				return fmt.Sprintf("%s: expected %s but got %s", path, expected.S, actual.S)
			}
		}
	case "arr":
		if len(expected.A) != len(actual.A) {
			return fmt.Sprintf("%s: expected %d elements but got %d", path, len(expected.A), len(actual.A))
		}
		for i := range expected.A {
			if d := DiffJ(fmt.Sprintf("%s[%d]", path, i), expected.A[i], actual.A[i]); d != "" {
				return d
			}
		}
	case "obj":
		found := map[string]*J{}
		for i, k := range actual.Key {
			if found[k] != nil {
				return fmt.Sprintf("%s: field %q is repeated", path, k)
			}
			found[k] = actual.A[i]
		}
		for i, k := range expected.Key {
			if found[k] == nil {
				return fmt.Sprintf("%s: field %q is missing", path, k)
			}
			if d := DiffJ(path+"."+k, expected.A[i], found[k]); d != "" {
				return d
			}
			delete(found, k)
		}
		for k := range found {
			return fmt.Sprintf("%s: field %q isn't expected", path, k)
		}
	}
	return ""
}

// Text renders the document in the simplest way.
func (j *J) Text() string { return j.Render(nil) }

// Render renders the document. The random source, if not nil, is used to change the order of the
// fields, the white space, and the way that strings are escaped, and to add unknown fields to the
// objects for which that is allowed.
func (j *J) Render(r *rand.Rand) string {
	var b strings.Builder
	j.render(&b, r)
	return b.String()
}

func space(b *strings.Builder, r *rand.Rand) {
	if r != nil && r.Intn(3) == 0 {
		for n := r.Intn(4); n > 0; n-- {
			b.WriteByte(" \t\n\r"[r.Intn(4)])
		}
	}
}

func quote(b *strings.Builder, s string, r *rand.Rand) {
	if r == nil || r.Intn(3) != 0 {
		var tmp bytes.Buffer
		enc := json.NewEncoder(&tmp)
		enc.SetEscapeHTML(r != nil && r.Intn(2) == 0)
		enc.Encode(s)
		b.WriteString(strings.TrimSuffix(tmp.String(), "\n"))
		return
	}
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c > 0xffff:
			c -= 0x10000
			fmt.Fprintf(b, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		case c < 0x20 || c == '"' || c == '\\' || r.Intn(2) == 0:
			if c == '/' {
				b.WriteString("\\/")
			} else {
				fmt.Fprintf(b, "\\u%04x", c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func (j *J) render(b *strings.Builder, r *rand.Rand) {
	space(b, r)
	switch j.K {
	case "null":
		b.WriteString("null")
	case "bool":
		fmt.Fprintf(b, "%v", j.B)
	case "num":
		b.WriteString(j.S)
	case "str":
		quote(b, j.S, r)
	case "arr":
		b.WriteByte('[')
		for i, x := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.render(b, r)
			space(b, r)
		}
		if len(j.A) == 0 {
			space(b, r)
		}
		b.WriteByte(']')
	case "obj":
		b.WriteByte('{')
		order := make([]int, len(j.A))
		for i := range order {
			order[i] = i
		}
		if r != nil && r.Intn(2) == 0 {
			order = r.Perm(len(j.A))
		}
		for n, i := range order {
			if n > 0 {
				b.WriteByte(',')
			}
			space(b, r)
			quote(b, j.Key[i], r)
			space(b, r)
			b.WriteByte(':')
			j.A[i].render(b, r)
			space(b, r)
		}
		if len(j.A) == 0 {
			space(b, r)
		}
		b.WriteByte('}')
	}
}

// unknown are fields that aren't part of any type, because of the characters in their names.
func unknown(r *rand.Rand) (string, *J) {
	names := []string{"$unknown", "zz zz", "unknown:field", "ñandú!", "kind ", " id", "x\"y", "Ünk", "!", "iteMs!", "0"}
	values := []*J{
		{K: "null"}, {K: "bool", B: true}, {K: "num", S: "12"}, {K: "num", S: "-1.5e10"}, jStr("x"), jStr("a\"b\\c"), jStr("}{]["),
		{K: "arr"}, {K: "obj"}, {K: "arr", A: []*J{{K: "num", S: "1"}, jStr("]"), {K: "obj", Key: []string{"a"}, A: []*J{{K: "null"}}}}},
		{K: "obj", Key: []string{"id", "kind"}, A: []*J{jStr("other"), jStr("OtherLink")}},
		{K: "obj", Key: []string{"items"}, A: []*J{{K: "arr", A: []*J{{K: "obj"}}}}},
	}
	return names[r.Intn(len(names))], values[r.Intn(len(values))]
}

// AddUnknown adds unknown fields to an object. Maps don't have unknown fields, so this needs to know
// the type.
func (e *Env) AddUnknown(j *J, r mm.Ref, link bool, rnd *rand.Rand) {
	if rnd == nil {
		return
	}
	elem := func(x *J) {
		if !e.isStruct(r.Name) {
			return
		}
		typ := e.V.Find(r.Name)
		for _, a := range typ.Attrs {
			for i, k := range x.Key {
				if k == a.JSONName() {
					e.AddUnknown(x.A[i], a.Type, a.Link, rnd)
				}
			}
		}
		addUnknown(x, rnd)
		e.addSimilar(x, typ, rnd)
	}
	switch r.Kind {
	case mm.List:
		list := j
		if link {
			list = j.A[0]
		}
		for _, x := range list.A {
			elem(x)
		}
		if link {
			addUnknown(j, rnd)
		}
	case mm.Map:
		for _, x := range j.A {
			elem(x)
		}
	default:
		elem(j)
	}
}

func addUnknown(j *J, rnd *rand.Rand) {
	for n := rnd.Intn(3); n > 0; n-- {
		k, v := unknown(rnd)
		j.add(k, v)
	}
}

// addSimilar adds unknown fields whose names are similar to those of the attributes of the type.
func (e *Env) addSimilar(j *J, typ *mm.Type, rnd *rand.Rand) {
	used := map[string]bool{}
	for _, k := range j.Key {
		used[k] = true
	}
	names := []string{"items", "link", "name", "ID", "Kind", "HREF"}
	if typ.Kind == mm.Class {
		used["kind"], used["id"], used["href"] = true, true, true
	} else {
		names = append(names, "kind", "id", "href")
	}
	for _, a := range typ.Attrs {
		n := a.JSONName()
		used[n] = true
		names = append(names, strings.ToUpper(n), "_"+n, n+"_", strings.ReplaceAll(n, "_", ""), a.GoName(), n+"s")
	}
	for n := rnd.Intn(3); n > 0; n-- {
		name := names[rnd.Intn(len(names))]
		if !used[name] {
			used[name] = true
			_, v := unknown(rnd)
			j.add(name, v)
		}
	}
}

// Rand creates a random source from a seed. The seed zero means that nothing special should be done.
func Rand(seed uint64) *rand.Rand {
	if seed == 0 {
		return nil
	}
	return rand.New(rand.NewSource(int64(seed)))
}
