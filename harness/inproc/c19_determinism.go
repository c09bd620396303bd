package inproc

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// LayoutCase is a model, and the same model written in a different way.
type LayoutCase struct {
	Model, Other *mm.Model
	Kind         string
	// Parts says in which of the input directories goes each version of the second model, Rename if the
	// names of the files are changed, and Before if the output directory of the second one already
	// contains other files.
	Parts  []int
	Rename bool
	Before bool
}

// IndependenceCase is a model, and the service that is generated alone.
type IndependenceCase struct {
	Model *mm.Model
	Kind  string
	Only  int
	// Version is the version that is generated alone, or -1.
	Version int
}

// C19 checks that the output depends only on the content of the model.
var C19 = []*rec.Sub{
	rec.NewSub("layout", 150, 1000, genLayout, checkLayout),
	rec.NewSub("independence", 50, 400, func(t *rapid.T) IndependenceCase {
		o := mm.DefaultOpts
		o.MaxServices, o.MaxTypes, o.MaxResources = 3, 2, 3
		c := IndependenceCase{Model: mm.GenModel(t, o), Version: -1}
		c.Kind = rapid.SampledFrom([]string{"go", "openapi"}).Draw(t, "kind")
		c.Only = rapid.IntRange(0, len(c.Model.Services)-1).Draw(t, "only")
		if rapid.Bool().Draw(t, "one") {
			c.Version = rapid.IntRange(0, len(c.Model.Services[c.Only].Versions)-1).Draw(t, "version")
		}
		return c
	}, checkIndependence),
}

func genLayout(t *rapid.T) LayoutCase {
	o := mm.DefaultOpts
	o.MaxTypes, o.MaxResources = 2, 4
	c := LayoutCase{Kind: rapid.SampledFrom([]string{"go", "go", "openapi", "docs"}).Draw(t, "kind")}
	refs := rapid.IntRange(0, 3).Draw(t, "refs") == 0
	if refs {
		o.UniqueVersions = true
		c.Model = mm.GenRefModel(t, o)
	} else {
		c.Model = mm.GenModel(t, o)
	}
	c.Other = c.Model.Shuffle(t)
	if !refs {
		for _, s := range c.Other.Services {
			for range s.Versions {
				c.Parts = append(c.Parts, rapid.IntRange(0, 2).Draw(t, "part"))
			}
		}
	}
	c.Rename = rapid.Bool().Draw(t, "rename")
	c.Before = rapid.Bool().Draw(t, "before")
	return c
}

// writeParts writes the second model, and returns the input directories.
func (c *LayoutCase) writeParts(dir string) []string {
	used := map[string]bool{}
	i := 0
	for _, s := range c.Other.Services {
		for _, v := range s.Versions {
			part := filepath.Join(dir, "p0")
			if i < len(c.Parts) {
				part = filepath.Join(dir, fmt.Sprintf("p%d", c.Parts[i]))
			}
			i++
			used[part] = true
			for name, text := range v.Files() {
				if c.Rename {
					n := 0
					fmt.Sscanf(name, "f%d.model", &n)
					name = fmt.Sprintf("x%02d.model", 99-n)
				}
				path := filepath.Join(part, s.Name, v.Name, name)
				writeFile(path, text)
			}
		}
	}
	var parts []string
	for part := range used {
		parts = append(parts, part)
	}
	sort.Strings(parts)
	return parts
}

func writeFile(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

func checkLayout(f *rec.F, c LayoutCase) {
	files := c.Model.Files()
	types, methods := 0, 0
	for _, s := range c.Model.Services {
		for _, v := range s.Versions {
			types += len(v.Types)
			for _, r := range v.Resources {
				methods += len(r.Methods)
			}
		}
	}
	classes := []string{c.Kind}
	if c.Before {
		classes = append(classes, "over existing files")
	}
	if len(c.Parts) == 0 {
		classes = append(classes, "references")
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	input := filepath.Join(dir, "model")
	for name, text := range files {
		writeFile(filepath.Join(input, name), text)
	}
	parts := c.writeParts(dir)
	if len(parts) > 1 {
		classes = append(classes, "several input directories")
	}
	f.R.Case(c.Kind+key(files)+key(c.Other.Files()), types > 0 && methods > 0, classes...)
	if f.R.WantSample() {
		f.R.Sample(map[string]interface{}{"generator": c.Kind, "types": types, "methods": methods, "input directories": len(parts), "existing output": c.Before})
	}
	try := func(formatter string) string {
		first := generateTree(f, formatter, c.Kind, filepath.Join(dir, formatter+"1"), input)
		out := filepath.Join(dir, formatter+"2")
		if c.Before {
			// Other content in the same files, shorter and longer, must be replaced.
			i := 0
			for _, name := range sortedNames(first) {
				if i++; i%2 == 0 {
					writeFile(filepath.Join(out, name), "x")
				} else {
					writeFile(filepath.Join(out, name), first[name]+strings.Repeat("// Old content.\n", 10))
				}
			}
		}
		second := generateTree(f, formatter, c.Kind, out, parts...)
		return first.difference(second)
	}
	if diff := confirmed(c.Kind, try); diff != "" {
		f.Failf("the output of the '%s' generator depends on how the model is written: %s", c.Kind, diff)
	}
}

// confirmed uses the real formatter to confirm the differences in the generated code.
func confirmed(kind string, try func(formatter string) string) string {
	diff := try("none")
	if diff != "" && kind == "go" {
		diff = try("real")
	}
	return diff
}

func sortedNames(t tree) []string {
	var names []string
	for name := range t {
		names = append(names, name)
	}
	sort.Strings(names)
	return names
}

// generateTree runs a generator and returns the generated files.
func generateTree(f *rec.F, formatter, kind, output string, models ...string) tree {
	r := runCLI(f, formatter, generateArgs(kind, output, models...)...)
	if r.code != 0 {
		f.Failf("the '%s' generator failed for a valid model, exit code is %d:\n%s", kind, r.code, tail(r.output))
	}
	t := readTree(output)
	t.sortImports()
	return t
}

func checkIndependence(f *rec.F, c IndependenceCase) {
	s := c.Model.Services[c.Only]
	one := &mm.Service{Name: s.Name, Versions: s.Versions}
	under := s.Name
	if c.Version >= 0 {
		v := s.Versions[c.Version]
		one.Versions = []*mm.Version{v}
		under = s.Name + "/" + v.Name
	}
	if c.Kind == "go" {
		under = strings.ReplaceAll(under, "_", "")
	}
	alone := &mm.Model{Services: []*mm.Service{one}}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for name, text := range c.Model.Files() {
		writeFile(filepath.Join(dir, "all", name), text)
	}
	for name, text := range alone.Files() {
		writeFile(filepath.Join(dir, "one", name), text)
	}
	others := len(c.Model.Services) > 1 || len(one.Versions) < len(s.Versions)
	f.R.Case(fmt.Sprint(c.Kind, c.Only, c.Version)+key(c.Model.Files()), others, c.Kind, "independence")
	try := func(formatter string) string {
		first := generateTree(f, formatter, c.Kind, filepath.Join(dir, formatter+"1"), filepath.Join(dir, "all")).under(under)
		second := generateTree(f, formatter, c.Kind, filepath.Join(dir, formatter+"2"), filepath.Join(dir, "one")).under(under)
		if len(first) == 0 {
			return fmt.Sprintf("there are no files inside '%s'", under)
		}
		return first.difference(second)
	}
	if diff := confirmed(c.Kind, try); diff != "" {
		f.Failf("the output of the '%s' generator for '%s' depends on the rest of the model: %s", c.Kind, under, diff)
	}
}
