package inproc

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// C20 checks the documentation.
var C20 = []*rec.Sub{
	rec.NewSub("documentation", 400, 4000, func(t *rapid.T) ModelCase {
		m := mm.GenModel(t, mm.DefaultOpts)
		return ModelCase{Model: m, Files: m.Files()}
	}, checkDocs),
}

func checkDocs(f *rec.F, c ModelCase) {
	files := c.Model.Files()
	countModel(f.R, key(files), c.Model)
	r := read(f, files)
	if r.err != nil {
		f.Failf("correct model is rejected: %s", r.errs)
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	genDocs(f, r.model, dir)
	if msg := DocsProblem(c.Model, dir); msg != "" {
		f.Failf("%s", msg)
	}
}

// squeeze removes the white space that isn't significant.
func squeeze(line string) string { return strings.Join(strings.Fields(line), " ") }

// significant returns the lines of a text that aren't blank, without redundant white space.
func significant(text string) []string {
	var lines []string
	for _, line := range strings.Split(text, "\n") {
		if line = squeeze(line); line != "" {
			lines = append(lines, line)
		}
	}
	return lines
}

// summary is the first sentence of the documentation.
func summary(c *mm.Common) string {
	doc := c.DocText()
	if i := strings.Index(doc, "."); i >= 0 {
		doc = doc[:i+1]
	}
	return squeeze(doc)
}

func tag(c *mm.Common) string { return "`" + c.Name.Snake() + "`" }

func sorted[T any](items []T, name func(T) mm.Ident) []T {
	result := append([]T{}, items...)
	sort.SliceStable(result, func(i, j int) bool { return compareIdents(name(result[i]), name(result[j])) < 0 })
	return result
}

type page struct{ lines []string }

func (p *page) add(format string, args ...interface{}) {
	p.lines = append(p.lines, significant(fmt.Sprintf(format, args...))...)
}

func (p *page) doc(c *mm.Common) { p.add("%s", c.DocText()) }

var docVerbs = map[string]string{
	"get": "GET", "list": "GET", "add": "POST", "update": "PATCH", "async_update": "PATCH", "delete": "DELETE",
	"async_delete": "DELETE",
}

func resourcePage(r *mm.Resource) []string {
	p := &page{}
	p.add("# %s", r.Name.Camel())
	p.doc(&r.Common)
	methods := sorted(r.Methods, func(m *mm.Method) mm.Ident { return m.Name })
	if len(methods) > 0 {
		p.add("| Name | Summary |")
		p.add("| ---- | ------- |")
		for _, m := range methods {
			p.add("| %s | %s |", m.Name.Camel(), summary(&m.Common))
		}
	}
	for _, m := range methods {
		verb := docVerbs[m.Name.Snake()]
		if verb == "" {
			verb = "POST"
		}
		p.add("## %s - %s", m.Name.Camel(), verb)
		p.doc(&m.Common)
		params := sorted(m.Params, func(x *mm.Param) mm.Ident { return x.Name })
		if len(params) > 0 {
			p.add("| Name | Type | Direction | Summary |")
			p.add("| ---- | ---- | --------- | ------- |")
			for _, x := range params {
				p.add("| %s | - | - | %s |", tag(&x.Common), summary(&x.Common))
			}
		}
		for _, x := range params {
			p.add("### %s", x.Name.Camel())
			p.doc(&x.Common)
		}
	}
	return p.lines
}

func typePage(t *mm.Type) []string {
	p := &page{}
	p.add("# %s", t.Name.Camel())
	p.doc(&t.Common)
	if t.Kind == mm.Enum {
		values := sorted(t.Values, func(v *mm.Value) mm.Ident { return v.Name })
		if len(values) > 0 {
			p.add("| Name | Summary |")
			p.add("| ---- | ------- |")
			for _, v := range values {
				p.add("| %s | %s |", tag(&v.Common), summary(&v.Common))
			}
		}
		for _, v := range values {
			p.add("### %s", tag(&v.Common))
			p.doc(&v.Common)
		}
		return p.lines
	}
	attrs := sorted(t.Attrs, func(a *mm.Attr) mm.Ident { return a.Name })
	if len(attrs) > 0 {
		p.add("| Name | Type | Summary |")
		p.add("| ---- | ---- | ------- |")
		if t.Kind == mm.Class {
			p.add("| `kind` | String | Name of the type of the object. |")
			p.add("| `id` | String | Unique identifier of the object. |")
			p.add("| `href` | String | Link to the object. |")
		}
		for _, a := range attrs {
			p.add("| %s | - | %s |", tag(&a.Common), summary(&a.Common))
		}
	}
	for _, a := range attrs {
		p.add("## %s", tag(&a.Common))
		p.doc(&a.Common)
	}
	return p.lines
}

// DocsProblem compares the documentation with the expected one.
func DocsProblem(m *mm.Model, dir string) string {
	pages := map[string][]string{}
	repeated := map[string]bool{}
	put := func(name string, lines []string) {
		if _, ok := pages[name]; ok {
			// The pages of the different versions are written to the same directory.
			repeated[name] = true
		}
		pages[name] = lines
	}
	index := &page{}
	index.add("# Model")
	index.add("## Resources")
	types := &page{}
	types.add("## Types")
	services := append([]*mm.Service{}, m.Services...)
	sort.Slice(services, func(i, j int) bool { return snakeLess(services[i].Name, services[j].Name) })
	for _, s := range services {
		versions := append([]*mm.Version{}, s.Versions...)
		sort.Slice(versions, func(i, j int) bool { return snakeLess(versions[i].Name, versions[j].Name) })
		for _, v := range versions {
			for _, r := range sorted(v.Resources, func(r *mm.Resource) mm.Ident { return r.Name }) {
				name := r.Name.Snake() + "_resource.md"
				index.add("[%s](%s)", r.Name.Camel(), name)
				put(name, resourcePage(r))
			}
			for _, t := range sorted(v.Types, func(t *mm.Type) mm.Ident { return t.Name }) {
				name := t.Name.Snake() + "_type.md"
				types.add("[%s](%s)", t.Name.Camel(), name)
				put(name, typePage(t))
			}
		}
	}
	put("index.md", append(index.lines, types.lines...))
	var problem string
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && problem == "" {
			rel, _ := filepath.Rel(dir, path)
			if _, ok := pages[rel]; !ok {
				problem = fmt.Sprintf("there is an unexpected file '%s'", rel)
			}
		}
		return nil
	})
	if problem != "" {
		return problem
	}
	var names []string
	for name := range pages {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		data, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return fmt.Sprintf("there is no page '%s': %v", name, err)
		}
		if repeated[name] {
			continue
		}
		want, got := pages[name], significant(string(data))
		for i := 0; i < len(want) || i < len(got); i++ {
			w, g := "(end)", "(end)"
			if i < len(want) {
				w = want[i]
			}
			if i < len(got) {
				g = got[i]
			}
			if w != g {
				return fmt.Sprintf("line %d of page '%s' should be '%s' but it is '%s'", i+1, name, w, g)
			}
		}
	}
	return ""
}

// snakeLess compares names of directories, word by word.
func snakeLess(a, b string) bool {
	x, y := strings.Split(a, "_"), strings.Split(b, "_")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}
