package inproc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// C07 checks the OpenAPI specifications.
var C07 = []*rec.Sub{
	rec.NewSub("openapi", 400, 4000, func(t *rapid.T) ModelCase {
		m := mm.GenModel(t, mm.DefaultOpts)
		return ModelCase{Model: m, Files: m.Files()}
	}, checkOpenAPI),
}

func checkOpenAPI(f *rec.F, c ModelCase) {
	files := c.Model.Files()
	countModel(f.R, key(files), c.Model)
	r := read(f, files)
	if r.err != nil {
		f.Failf("correct model is rejected: %s", r.errs)
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	genOpenAPI(f, r.model, dir)
	want := map[string]bool{}
	for _, s := range c.Model.Services {
		for _, v := range s.Versions {
			path := filepath.Join(s.Name, v.Name, "openapi.json")
			want[path] = true
			data, err := os.ReadFile(filepath.Join(dir, path))
			if err != nil {
				f.Failf("there is no specification for %s/%s: %v", s.Name, v.Name, err)
			}
			if msg := OpenAPIProblem(s, v, data); msg != "" {
				f.Failf("specification of %s/%s: %s", s.Name, v.Name, msg)
			}
		}
	}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			rel, _ := filepath.Rel(dir, path)
			if !want[rel] {
				f.Failf("there is an unexpected file '%s'", rel)
			}
		}
		return nil
	})
}

type object = map[string]interface{}

// decodeStrict decodes a JSON document, and fails if there are duplicated fields.
func decodeStrict(data []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var value func(path string) (interface{}, error)
	value = func(path string) (interface{}, error) {
		tok, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case json.Delim:
			switch x {
			case '{':
				result := object{}
				for dec.More() {
					name, err := dec.Token()
					if err != nil {
						return nil, err
					}
					text := name.(string)
					if _, ok := result[text]; ok {
						return nil, fmt.Errorf("field '%s/%s' is duplicated", path, text)
					}
					v, err := value(path + "/" + text)
					if err != nil {
						return nil, err
					}
					result[text] = v
				}
				_, err := dec.Token()
				return result, err
			case '[':
				result := []interface{}{}
				for dec.More() {
					v, err := value(path)
					if err != nil {
						return nil, err
					}
					result = append(result, v)
				}
				_, err := dec.Token()
				return result, err
			}
		}
		return tok, nil
	}
	v, err := value("")
	if err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("there is text after the end of the document")
	}
	return v, nil
}

// OpenAPIProblem compares the specification with what is expected for the version.
func OpenAPIProblem(s *mm.Service, v *mm.Version, data []byte) string {
	doc, err := decodeStrict(data)
	if err != nil {
		return err.Error()
	}
	spec, ok := doc.(object)
	if !ok {
		return "it isn't an object"
	}
	if spec["openapi"] != "3.0.0" {
		return fmt.Sprintf("version of OpenAPI is '%v'", spec["openapi"])
	}
	info, _ := spec["info"].(object)
	if info["title"] != s.Name || info["version"] != v.Name {
		return fmt.Sprintf("title and version are '%v' and '%v'", info["title"], info["version"])
	}
	o := &oapi{s: s, v: v}
	components, _ := spec["components"].(object)
	schemas, _ := components["schemas"].(object)
	if schemas["Metadata"] == nil || schemas["Error"] == nil {
		return "schemas 'Metadata' and 'Error' are mandatory"
	}
	delete(schemas, "Metadata")
	delete(schemas, "Error")
	if msg := diff("schemas", strip(schemas), o.schemas()); msg != "" {
		return msg
	}
	paths, _ := spec["paths"].(object)
	if msg := diff("paths", strip(paths), o.paths()); msg != "" {
		return msg
	}
	// All the references are correct:
	schemas["Metadata"] = true
	schemas["Error"] = true
	msg := ""
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch x := x.(type) {
		case object:
			if ref, ok := x["$ref"].(string); ok {
				name := strings.TrimPrefix(ref, "#/components/schemas/")
				if name == ref || schemas[name] == nil {
					msg = fmt.Sprintf("reference '%s' is broken", ref)
				}
			}
			for _, y := range x {
				walk(y)
			}
		case []interface{}:
			for _, y := range x {
				walk(y)
			}
		}
	}
	walk(spec)
	return msg
}

// strip removes the texts that aren't calculated from the model.
func strip(x interface{}) interface{} {
	switch x := x.(type) {
	case object:
		result := object{}
		for k, y := range x {
			result[k] = strip(y)
		}
		return result
	case []interface{}:
		var result []interface{}
		for _, y := range x {
			result = append(result, strip(y))
		}
		sort.SliceStable(result, func(i, j int) bool { return text(result[i]) < text(result[j]) })
		return result
	}
	return x
}

func text(x interface{}) string {
	data, _ := json.Marshal(x)
	return string(data)
}

// any is used for values that aren't compared.
type anyText struct{}

// diff compares the values.
func diff(path string, got, want interface{}) string {
	switch w := want.(type) {
	case anyText:
		s, ok := got.(string)
		if !ok || s == "" {
			return fmt.Sprintf("%s should be a text, but it is %s", path, text(got))
		}
		return ""
	case object:
		g, ok := got.(object)
		if !ok {
			return fmt.Sprintf("%s should be an object, but it is %s", path, text(got))
		}
		for _, k := range sortedFields(w) {
			x, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: '%s' is missing", path, k)
			}
			if msg := diff(path+"/"+k, x, w[k]); msg != "" {
				return msg
			}
		}
		for _, k := range sortedFields(g) {
			if _, ok := w[k]; !ok {
				if k == "description" && g[k] == "" {
					continue
				}
				return fmt.Sprintf("%s: '%s' is unexpected", path, k)
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok && got != nil {
			return fmt.Sprintf("%s should be an array, but it is %s", path, text(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d items instead of %d: %s instead of %s", path, len(g), len(w), text(got), text(want))
		}
		sort.SliceStable(w, func(i, j int) bool { return text(w[i]) < text(w[j]) })
		for i := range w {
			if msg := diff(fmt.Sprintf("%s/%d", path, i), g[i], w[i]); msg != "" {
				return msg
			}
		}
		return ""
	}
	if text(got) != text(want) {
		return fmt.Sprintf("%s is %s instead of %s", path, text(got), text(want))
	}
	return ""
}

func sortedFields(o object) (keys []string) {
	for k := range o {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return
}

type oapi struct {
	s *mm.Service
	v *mm.Version
}

func describe(o object, c *mm.Common) object {
	if c.DocText() != "" {
		o["description"] = c.DocText()
	}
	return o
}

// ref is the schema for a reference to a type.
func (o *oapi) ref(r mm.Ref) object {
	switch r.Kind {
	case mm.List:
		return object{"type": "array", "items": o.ref(mm.Ref{Name: r.Name})}
	case mm.Map:
		return object{"type": "object", "additionalProperties": o.ref(mm.Ref{Name: r.Name})}
	}
	if o.v.Find(r.Name) != nil {
		return object{"$ref": "#/components/schemas/" + r.Name.Camel()}
	}
	switch r.Name.Snake() {
	case "boolean":
		return object{"type": "boolean"}
	case "integer":
		return object{"type": "integer", "format": "int32"}
	case "long":
		return object{"type": "integer", "format": "int64"}
	case "float":
		return object{"type": "number", "format": "float"}
	case "string":
		return object{"type": "string"}
	case "date":
		return object{"type": "string", "format": "date-time"}
	case "interface":
		return object{"type": "object"}
	}
	panic(r.Text())
}

func (o *oapi) schemas() object {
	result := object{}
	for _, t := range o.v.Types {
		if t.Kind == mm.Enum {
			values := []interface{}{}
			for _, x := range t.Values {
				values = append(values, x.JSONName())
			}
			result[t.Name.Camel()] = describe(object{"type": "string", "enum": values}, &t.Common)
			continue
		}
		props := object{}
		if t.Kind == mm.Class {
			for _, n := range []string{"kind", "id", "href"} {
				props[n] = object{"type": "string", "description": anyText{}}
			}
		}
		for _, a := range t.Attrs {
			props[a.JSONName()] = describe(o.ref(a.Type), &a.Common)
		}
		result[t.Name.Camel()] = describe(object{"properties": props}, &t.Common)
	}
	return result
}

func content(schema object) object {
	return object{"application/json": object{"schema": schema}}
}

func errorResponse() object {
	return object{"description": anyText{}, "content": content(object{"$ref": "#/components/schemas/Error"})}
}

func (o *oapi) paths() object {
	result := object{}
	base := "/api/" + o.s.Name + "/" + o.v.Name
	result[base] = object{"get": object{
		"description": anyText{},
		"responses": object{
			"200":     object{"description": anyText{}, "content": content(object{"$ref": "#/components/schemas/Metadata"})},
			"default": errorResponse(),
		},
	}}
	var walk func(r *mm.Resource, prefix string, vars []string)
	walk = func(r *mm.Resource, prefix string, vars []string) {
		for _, m := range r.Methods {
			p := prefix
			if !restNames[m.Name.Snake()] {
				p += "/" + m.Segment()
			}
			item, _ := result[p].(object)
			if item == nil {
				item = object{}
				result[p] = item
			}
			method, _ := HTTPMethod(m)
			item[strings.ToLower(method)] = o.operation(m, vars)
		}
		for _, l := range r.Locators {
			target := o.v.FindResource(l.Target)
			if l.IsVar() {
				name := l.Segment() + "_id"
				walk(target, prefix+"/{"+name+"}", append(vars[:len(vars):len(vars)], name))
			} else {
				walk(target, prefix+"/"+l.Segment(), vars)
			}
		}
	}
	walk(o.v.Root(), base, nil)
	return result
}

func (o *oapi) operation(m *mm.Method, vars []string) object {
	action := !restNames[m.Name.Snake()]
	op := describe(object{}, &m.Common)
	params := []interface{}{}
	for _, name := range vars {
		params = append(params, object{"name": name, "in": "path", "required": true, "schema": object{"type": "string"}})
	}
	props := func(list []*mm.Param) object {
		result := object{}
		for _, p := range list {
			result[p.JSONName()] = describe(o.ref(p.Type), &p.Common)
		}
		return object{"type": "object", "properties": result}
	}
	var body, out []*mm.Param
	for _, p := range m.Params {
		if p.IsOut() {
			out = append(out, p)
		}
		if !p.In {
			continue
		}
		if !action && o.v.GoScalar(p.Type) {
			params = append(params, describe(object{"name": p.QueryName(), "in": "query", "schema": o.ref(p.Type)}, &p.Common))
		} else {
			body = append(body, p)
		}
	}
	if len(params) > 0 {
		op["parameters"] = params
	}
	switch {
	case len(body) == 0:
	case action || len(body) > 1:
		op["requestBody"] = object{"content": content(props(body))}
	default:
		op["requestBody"] = object{"content": content(o.ref(body[0].Type))}
	}
	_, status := HTTPMethod(m)
	response := object{"description": anyText{}}
	name := m.Name.Snake()
	switch {
	case len(out) == 0:
	case action || len(out) > 1 || name == "list" || name == "search":
		response["content"] = content(props(out))
	default:
		response["content"] = content(o.ref(out[0].Type))
	}
	op["responses"] = object{status: response, "default": errorResponse()}
	return op
}
