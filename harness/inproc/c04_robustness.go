package inproc

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/docs"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// TextCase is a set of files with arbitrary text.
type TextCase struct {
	Kind  string
	Files map[string]string
	// Go says that the generator of Go code should also be tried if the model is accepted.
	Go bool `json:",omitempty"`
}

// C04 checks that any text is either accepted or cleanly rejected.
var C04 = []*rec.Sub{
	risky(rec.NewSub("any-text", 6000, 60000, genText, checkText)),
}

func risky(s *rec.Sub) *rec.Sub {
	s.Risky = true
	return s
}

var tokenTexts = []string{
	"attribute", "class", "code", "enum", "error", "false", "in", "link", "locator", "method", "out",
	"parameter", "resource", "struct", "target", "true", "value", "variable",
	"@", "{", "}", "[", "]", "(", ")", "=", "{", "}", "0", "1", "007", "99999999999999999999",
	`"x"`, `"\n"`, `"\q"`, "`x`", `""`, `"`, "`", "// c\n", "/* c */", "/*", "*/", "//", "\n", "\r\n", "\t",
	"Root", "String", "Integer", "Body", "Items", "Get", "List", "Add", "Page", "Size", "Total", "A", "B", "AList", "StringList", "StringAMap",
	"ID", "a", "_", "__", "A_b", "json", "name", "go", "http", "ref", "path", "-", ".", ",", ";", "ñ", "日", "\x00", "\xff", "\ufeff", "é", "Class", "CLASS",
}

func genText(t *rapid.T) TextCase {
	c := TextCase{Files: map[string]string{}}
	c.Go = rapid.IntRange(0, 7).Draw(t, "go") == 7
	join := func(toks []string) string {
		return strings.Join(toks, rapid.SampledFrom([]string{" ", "\n", ""}).Draw(t, "glue"))
	}
	switch rapid.IntRange(0, 6).Draw(t, "kind") {
	case 0:
		c.Kind = "tokens"
		c.Files["svc/v1/a.model"] = join(rapid.SliceOfN(rapid.SampledFrom(tokenTexts), 0, 30).Draw(t, "toks"))
	case 1:
		c.Kind = "text"
		c.Files["svc/v1/a.model"] = rapid.String().Draw(t, "text")
	default:
		c.Kind = "changed model"
		o := mm.DefaultOpts
		o.MaxServices, o.MaxVersions, o.MaxTypes, o.MaxAttrs, o.MaxResources = 1, 1, 2, 3, 2
		m := mm.GenModel(t, o)
		c.Files = m.Files()
		paths := sortedKeys(c.Files)
		path := rapid.SampledFrom(paths).Draw(t, "path")
		if rapid.IntRange(0, 3).Draw(t, "how") == 0 {
			text := []rune(c.Files[path])
			for i := rapid.IntRange(1, 3).Draw(t, "changes"); i > 0 && len(text) > 0; i-- {
				pos := rapid.IntRange(0, len(text)-1).Draw(t, "pos")
				switch rapid.IntRange(0, 2).Draw(t, "op") {
				case 0:
					text = append(text[:pos:pos], text[pos+1:]...)
				case 1:
					text[pos] = rapid.SampledFrom([]rune("{}@=()[]\"`/*\n\r \tAa1_-?\\ñ")).Draw(t, "rune")
				default:
					text = text[:pos]
				}
			}
			c.Files[path] = string(text)
		} else {
			toks := pieces(c.Files[path])
			for i := rapid.IntRange(1, 3).Draw(t, "changes"); i > 0 && len(toks) > 0; i-- {
				pos := rapid.IntRange(0, len(toks)-1).Draw(t, "pos")
				switch rapid.IntRange(0, 4).Draw(t, "op") {
				case 0:
					toks = append(toks[:pos:pos], toks[pos+1:]...)
				case 1:
					toks[pos] = " " + rapid.SampledFrom(tokenTexts).Draw(t, "tok") + " "
				case 2:
					toks = append(toks[:pos:pos], append([]string{" " + rapid.SampledFrom(tokenTexts).Draw(t, "tok") + " "}, toks[pos:]...)...)
				case 3:
					other := rapid.IntRange(0, len(toks)-1).Draw(t, "other")
					toks[pos], toks[other] = toks[other], toks[pos]
				case 4:
					toks = append(toks[:pos:pos], append([]string{toks[pos], " "}, toks[pos:]...)...)
				}
			}
			c.Files[path] = strings.Join(toks, "")
		}
	}
	return c
}

// pieces splits the text into tokens, preserving the white space and the comments.
func pieces(text string) (result []string) {
	class := func(r rune) int {
		switch {
		case r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9':
			return 1
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			return 2
		}
		return 3
	}
	last := 0
	var b strings.Builder
	for _, r := range text {
		k := class(r)
		if (k != last || k == 3) && b.Len() > 0 {
			result = append(result, b.String())
			b.Reset()
		}
		b.WriteRune(r)
		last = k
	}
	if b.Len() > 0 {
		result = append(result, b.String())
	}
	return
}

func checkText(f *rec.F, c TextCase) {
	ok := true
	for _, text := range c.Files {
		ok = ok && mm.SyntaxOK(text)
	}
	class := c.Kind + ": good syntax"
	if !ok {
		class = c.Kind + ": bad syntax"
	}
	r := read(f, c.Files)
	classes := []string{class}
	if r.err == nil {
		classes = append(classes, "accepted")
	}
	f.R.Case(key(c.Files), c.Kind != "text", classes...)
	if f.R.WantSample() && !ok && len(key(c.Files)) < 2000 {
		f.R.Sample(c.Files)
	}
	accepted := r.err == nil
	if accepted != (r.errors == 0) || accepted != (r.model != nil) || accepted != (r.errs == "") {
		f.Failf("result is inconsistent: error is %v, %d errors reported, model is nil: %v, text:\n%s", r.err, r.errors, r.model == nil, r.errs)
	}
	if accepted && !ok {
		f.Failf("files with incorrect syntax are accepted")
	}
	if accepted {
		generate(f, r.model)
	}
	if accepted && c.Go {
		f.R.Class("Go code")
		dir := scratchDir()
		defer os.RemoveAll(dir)
		input := filepath.Join(dir, "model")
		for name, text := range c.Files {
			writeFile(filepath.Join(input, name), text)
		}
		result := runCLI(f, "none", generateArgs("go", filepath.Join(dir, "out"), input)...)
		if result.code != 0 {
			f.Failf("can't generate the Go code of an accepted model:\n%s", tail(result.output))
		}
	}
}

// generate runs the generators that work in memory.
func generate(f *rec.F, model *concepts.Model) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	genOpenAPI(f, model, filepath.Join(dir, "o"))
	genDocs(f, model, filepath.Join(dir, "d"))
}

func genOpenAPI(f *rec.F, model *concepts.Model, dir string) {
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	rep := newReporter(out, errs)
	f.Try("generating the OpenAPI specification", func() {
		calc, err := openapi.NewNamesCalculator().Reporter(rep).Build()
		if err != nil {
			f.Failf("can't create names calculator: %v", err)
		}
		binding, err := http.NewBindingCalculator().Reporter(rep).Build()
		if err != nil {
			f.Failf("can't create binding calculator: %v", err)
		}
		gen, err := openapi.NewOpenAPIGenerator().Reporter(rep).Model(model).Output(dir).Names(calc).Binding(binding).Build()
		if err != nil {
			f.Failf("can't create OpenAPI generator: %v", err)
		}
		if err := gen.Run(); err != nil || rep.Errors() > 0 {
			f.Failf("can't generate the OpenAPI specification of an accepted model: %v\n%s", err, errs)
		}
	})
}

func genDocs(f *rec.F, model *concepts.Model, dir string) {
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	rep := newReporter(out, errs)
	f.Try("generating the documentation", func() {
		calc, err := markdown.NewNamesCalculator().Reporter(rep).Build()
		if err != nil {
			f.Failf("can't create names calculator: %v", err)
		}
		gen, err := docs.NewDocsGenerator().Reporter(rep).Model(model).Output(dir).Names(calc).Build()
		if err != nil {
			f.Failf("can't create documentation generator: %v", err)
		}
		if err := gen.Run(); err != nil || rep.Errors() > 0 {
			f.Failf("can't generate the documentation of an accepted model: %v\n%s", err, errs)
		}
	})
}

func sortedKeys(m map[string]string) (keys []string) {
	for k := range m {
		keys = append(keys, k)
	}
	sortStrings(keys)
	return
}

var _ = fmt.Sprint
