package inproc

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// MutatedCase is a model that may be incorrect.
type MutatedCase struct {
	Model *mm.Model
	// What was changed.
	Mutations []string
	// Raw text added to files, by path.
	Extra map[string]string `json:",omitempty"`
	Files map[string]string `json:",omitempty"`
}

func (c *MutatedCase) render() map[string]string {
	files := c.Model.Files()
	for path, text := range c.Extra {
		files[path] += text
	}
	return files
}

// C03 checks that models are accepted if, and only if, they follow the rules.
var C03 = []*rec.Sub{
	rec.NewSub("accepted-iff-valid", 1500, 12000, genMutated, checkMutated),
}

func genMutated(t *rapid.T) *MutatedCase {
	o := mm.DefaultOpts
	o.MaxServices, o.MaxVersions, o.MaxTypes, o.MaxAttrs = 2, 2, 2, 3
	o.MaxResources = 4
	c := &MutatedCase{Model: mm.GenModel(t, o), Extra: map[string]string{}}
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 1, 2}).Draw(t, "mutations")
	for i := 0; i < n; i++ {
		mutate(t, c)
	}
	c.Files = c.render()
	return c
}

func checkMutated(f *rec.F, c *MutatedCase) {
	files := c.render()
	problems := c.problems()
	classes := []string{"valid"}
	if len(problems) > 0 {
		classes = []string{"invalid"}
		for _, p := range problems {
			classes = append(classes, "rule: "+strings.SplitN(p, ":", 2)[0])
		}
	}
	for _, m := range c.Mutations {
		classes = append(classes, "mutation: "+strings.SplitN(m, ":", 2)[0])
	}
	f.R.Case(key(files), len(c.Mutations) > 0, classes...)
	if f.R.WantSample() && len(problems) > 0 {
		f.R.Sample(map[string]interface{}{"mutations": c.Mutations, "broken rules": problems})
	}
	r := read(f, files)
	accepted := r.err == nil
	if accepted != (r.errors == 0) || accepted != (r.model != nil) {
		f.Failf("result is inconsistent: error is %v, %d errors reported, model is nil: %v", r.err, r.errors, r.model == nil)
	}
	if accepted != (r.errs == "") {
		f.Failf("error is %v, but the text sent to the error stream is:\n%s", r.err, r.errs)
	}
	if accepted && len(problems) > 0 {
		f.Failf("model is accepted, but it is incorrect: %s (%s)", strings.Join(problems, ", "), strings.Join(c.Mutations, ", "))
	}
	if !accepted && len(problems) == 0 {
		f.Failf("model is rejected, but it is correct (%s):\n%s", strings.Join(c.Mutations, ", "), r.errs)
	}
	if !accepted && len(problems) == 1 {
		// The report mentions the name of what is wrong:
		for _, p := range problems {
			what := strings.TrimSpace(p[strings.LastIndex(p, " ")+1:])
			if what != "" && !strings.Contains(r.errs, what) {
				f.Failf("the errors reported for problem '%s' don't mention '%s':\n%s", p, what, r.errs)
			}
		}
	}
}

// mutate applies a random change.
func mutate(t *rapid.T, c *MutatedCase) {
	si := rapid.IntRange(0, len(c.Model.Services)-1).Draw(t, "mutService")
	s := c.Model.Services[si]
	vi := rapid.IntRange(0, len(s.Versions)-1).Draw(t, "mutVersion")
	v := s.Versions[vi]
	done := func(format string, args ...interface{}) {
		c.Mutations = append(c.Mutations, fmt.Sprintf(format, args...))
	}
	// Parameters and methods:
	type site struct {
		r *mm.Resource
		m *mm.Method
	}
	var sites []site
	for _, r := range v.Resources {
		for _, m := range r.Methods {
			sites = append(sites, site{r, m})
		}
	}
	kinds := []string{"type", "direction", "default", "rename", "remove", "add",
		"undefined-type", "undefined-resource", "no-target", "loop", "chain", "chain", "no-root", "duplicate-type",
		"duplicate-resource", "duplicate-error", "syntax", "big-number", "bad-string", "undefined-other"}
	kind := rapid.SampledFrom(kinds).Draw(t, "mutation")
	if len(v.Resources) == 0 {
		done("nothing")
		return
	}
	if len(sites) == 0 {
		switch kind {
		case "type", "direction", "default", "rename", "remove", "add":
			kind = "undefined-type"
		}
	}
	var st site
	if len(sites) > 0 {
		// Prefer the REST methods:
		var rest []site
		for _, x := range sites {
			if restNames[x.m.Name.Snake()] {
				rest = append(rest, x)
			}
		}
		if len(rest) > 0 && rapid.IntRange(0, 3).Draw(t, "preferRest") > 0 {
			sites = rest
		}
		st = rapid.SampledFrom(sites).Draw(t, "mutMethod")
	}
	where := func(p *mm.Param) string {
		return st.r.Name.Text() + "." + st.m.Name.Text() + "." + p.Name.Text()
	}
	pickParam := func() *mm.Param {
		if len(st.m.Params) == 0 {
			return nil
		}
		return rapid.SampledFrom(st.m.Params).Draw(t, "mutParam")
	}
	switch kind {
	case "type":
		p := pickParam()
		if p == nil {
			done("nothing")
			return
		}
		p.Type = anyRef(t, v)
		done("type: of %s is %s", where(p), p.Type.Text())
	case "direction":
		p := pickParam()
		if p == nil {
			done("nothing")
			return
		}
		p.In = rapid.Bool().Draw(t, "mutIn")
		p.Out = rapid.Bool().Draw(t, "mutOut")
		done("direction: of %s is in=%v out=%v", where(p), p.In, p.Out)
	case "default":
		p := pickParam()
		if p == nil {
			done("nothing")
			return
		}
		switch rapid.IntRange(0, 3).Draw(t, "mutDefault") {
		case 0:
			p.Default = nil
		case 1:
			p.Default = rapid.Bool().Draw(t, "mutBool")
		case 2:
			p.Default = rapid.SampledFrom([]int{0, 1, 2, 99, 100, 101}).Draw(t, "mutInt")
		default:
			p.Default = rapid.SampledFrom([]string{"", "1", "100", "true"}).Draw(t, "mutStr")
		}
		done("default: of %s is %v", where(p), p.Default)
	case "rename":
		p := pickParam()
		if p == nil {
			done("nothing")
			return
		}
		name := rapid.SampledFrom([]string{"body", "items", "page", "size", "total", "other", "bodies", "item"}).Draw(t, "mutName")
		for _, q := range st.m.Params {
			if q.Name.Flat() == mm.Id(name).Flat() {
				done("nothing")
				return
			}
		}
		old := where(p)
		p.Name = mm.Id(name)
		done("rename: %s is %s", old, name)
	case "remove":
		p := pickParam()
		if p == nil {
			done("nothing")
			return
		}
		done("remove: %s", where(p))
		var rest []*mm.Param
		for _, q := range st.m.Params {
			if q != p {
				rest = append(rest, q)
			}
		}
		st.m.Params = rest
	case "add":
		p := &mm.Param{Type: anyRef(t, v), In: rapid.Bool().Draw(t, "addIn"), Out: rapid.Bool().Draw(t, "addOut")}
		p.Name = mm.Id(rapid.SampledFrom([]string{"extra", "body", "items", "page", "size", "total"}).Draw(t, "addName"))
		for _, q := range st.m.Params {
			if q.Name.Flat() == p.Name.Flat() {
				p.Name = mm.Id("another")
			}
		}
		for _, q := range st.m.Params {
			if q.Name.Flat() == p.Name.Flat() {
				done("nothing")
				return
			}
		}
		pos := rapid.IntRange(0, len(st.m.Params)).Draw(t, "addPos")
		st.m.Params = append(st.m.Params[:pos:pos], append([]*mm.Param{p}, st.m.Params[pos:]...)...)
		done("add: %s %s in=%v out=%v", where(p), p.Type.Text(), p.In, p.Out)
	case "undefined-type", "undefined-other":
		// Use a type that isn't defined in this version, but may be in others:
		id := mm.Id("missing_thing")
		if kind == "undefined-other" {
			for _, s2 := range c.Model.Services {
				for _, v2 := range s2.Versions {
					for _, x := range v2.Types {
						if v.KindOf(x.Name) == "" {
							id = x.Name
						}
					}
				}
			}
		}
		ref := mm.Ref{Name: id}
		switch rapid.IntRange(0, 3).Draw(t, "undefinedKind") {
		case 1:
			ref = mm.Ref{Kind: mm.List, Name: id}
		case 2:
			ref = mm.Ref{Kind: mm.Map, Index: mm.Id("string"), Name: id}
		case 3:
			ref = mm.Ref{Kind: mm.Map, Index: id, Name: mm.Id("string")}
		}
		var typ *mm.Type
		for _, x := range v.Types {
			if x.Kind == mm.Class {
				typ = x
			}
		}
		a := &mm.Attr{Type: ref}
		a.Name = mm.Id("missing_attribute")
		typ.Attrs = append(typ.Attrs, a)
		done("undefined-type: %s in %s/%s", ref.Text(), s.Name, v.Name)
	case "undefined-resource":
		r := rapid.SampledFrom(v.Resources).Draw(t, "mutResource")
		l := &mm.Locator{Target: mm.Id("missing_resource")}
		l.Name = mm.Id("missing_locator")
		r.Locators = append(r.Locators, l)
		done("undefined-resource: from %s", r.Name.Text())
	case "no-target":
		r := rapid.SampledFrom(v.Resources).Draw(t, "mutResource")
		l := &mm.Locator{}
		l.Name = mm.Id("pointless")
		if rapid.Bool().Draw(t, "pointlessVar") {
			l.Variable = mm.Id("ID")
		}
		r.Locators = append(r.Locators, l)
		done("no-target: locator in %s", r.Name.Text())
	case "loop":
		from := rapid.SampledFrom(v.Resources).Draw(t, "loopFrom")
		to := rapid.SampledFrom(v.Resources).Draw(t, "loopTo")
		l := &mm.Locator{Target: to.Name}
		l.Name = mm.Id("looping")
		for _, x := range from.Locators {
			if x.Name.Flat() == "looping" {
				done("nothing")
				return
			}
		}
		from.Locators = append(from.Locators, l)
		done("loop: from %s to %s", from.Name.Text(), to.Name.Text())
	case "chain":
		// A long chain of new resources, maybe with a locator from the last one to another one of the
		// chain:
		if v.FindResource(mm.Id("chain_0")) != nil {
			done("nothing")
			return
		}
		n := rapid.IntRange(1, 14).Draw(t, "chainLen")
		start := rapid.SampledFrom(v.Resources).Draw(t, "chainStart")
		chain := []*mm.Resource{start}
		for i := 0; i < n; i++ {
			r := &mm.Resource{}
			r.Name = mm.Id(fmt.Sprintf("chain_%d", i))
			l := &mm.Locator{Target: r.Name}
			l.Name = mm.Id("chained")
			chain[i].Locators = append(chain[i].Locators, l)
			v.Resources = append(v.Resources, r)
			chain = append(chain, r)
		}
		back := rapid.IntRange(-1, n).Draw(t, "chainBack")
		if back >= 0 {
			l := &mm.Locator{Target: chain[back].Name}
			l.Name = mm.Id("looping_back")
			if rapid.Bool().Draw(t, "chainVar") {
				l.Variable = mm.Id("id")
			}
			chain[n].Locators = append(chain[n].Locators, l)
		}
		done("chain: of %d resources from %s, going back to %d", n, start.Name.Text(), back)
	case "no-root":
		var rest []*mm.Resource
		for _, r := range v.Resources {
			if r != v.Root() {
				rest = append(rest, r)
			}
		}
		v.Resources = rest
		done("no-root: %s/%s", s.Name, v.Name)
	case "duplicate-type":
		var id mm.Ident
		kind := rapid.SampledFrom([]mm.TypeKind{mm.Enum, mm.Struct, mm.Class}).Draw(t, "dupKind")
		if rapid.IntRange(0, 3).Draw(t, "dupBuiltin") == 0 {
			id = mm.Id(rapid.SampledFrom([]string{"string", "integer", "date", "interface", "long", "float", "boolean"}).Draw(t, "dupScalar"))
		} else {
			id = rapid.SampledFrom(v.Types).Draw(t, "dupType").Name
		}
		d := &mm.Type{Kind: kind}
		d.Name = id
		v.Types = append(v.Types, d)
		done("duplicate-type: %s", id.Text())
	case "duplicate-resource":
		if len(v.Resources) == 0 {
			done("nothing")
			return
		}
		r := rapid.SampledFrom(v.Resources).Draw(t, "dupResource")
		d := &mm.Resource{}
		d.Name = r.Name
		v.Resources = append(v.Resources, d)
		done("duplicate-resource: %s", r.Name.Text())
	case "duplicate-error":
		if len(v.Errors) == 0 {
			done("nothing")
			return
		}
		e := rapid.SampledFrom(v.Errors).Draw(t, "dupError")
		d := &mm.Error{Code: e.Code + 1}
		d.Name = e.Name
		v.Errors = append(v.Errors, d)
		done("duplicate-error: %s", e.Name.Text())
	case "syntax":
		text := rapid.SampledFrom([]string{
			"class { }", "class Bad", "class Bad {", "}", "class Bad { A }", "class Bad { link }",
			"enum Bad { A B } }", "resource Bad { locator }", "resource Bad { locator X }",
			"resource Bad { Get }", "resource Bad { Get { in } }", "error Bad { code }",
			"error Bad { code X }", "error Bad { code \"1\" }", "junk", "@deprecated", "class class { }", "struct Bad { A [] }",
			"struct Bad { A [String] }", "struct Bad { A [[String]]String }", "resource Bad { Get { in X String = } }",
			"resource Bad { Get { in X String = Y } }", "@ann(x) class Bad { }", "@ann(x = ) class Bad { }",
			"@ann(x = 1 class Bad { }", "class Bad { A = 1 }", "error Bad { 1 }", "?", "class Bad { A Str?ing }",
			"class Bad { \"A\" String }", "resource Bad { locator X { target } }", "resource Bad { locator X { variable } }",
			"class Bad { A String, B String }", "class Bad { A String; }", "/* class Bad { }", "class 1Bad { }", "- class Bad { }",
		}).Draw(t, "syntax")
		path := s.Name + "/" + v.Name + "/" + "f00.model"
		if rapid.Bool().Draw(t, "syntaxNew") {
			path = s.Name + "/" + v.Name + "/" + "zz.model"
		}
		c.Extra[path] += "\n" + text + "\n"
		done("syntax: %s", text)
	case "big-number":
		path := s.Name + "/" + v.Name + "/" + "zz.model"
		text := rapid.SampledFrom([]string{
			"error TooBig { code 99999999999999999999 }",
			"@ann(x = 99999999999999999999) error TooBig { code 1 }",
		}).Draw(t, "bigText")
		c.Extra[path] += "\n" + text + "\n"
		done("big-number: %s", text)
	case "bad-string":
		path := s.Name + "/" + v.Name + "/" + "zz.model"
		text := rapid.SampledFrom([]string{
			`@ann(x = "\q") error BadString { code 1 }`,
			"@ann(x = \"a\nb\") error BadString { code 1 }",
			`@ann(x = "\") error BadString { code 1 }`,
		}).Draw(t, "badText")
		c.Extra[path] += "\n" + text + "\n"
		done("bad-string: %s", text)
	}
}

var restNames = map[string]bool{
	"add": true, "delete": true, "async_delete": true, "get": true, "list": true, "post": true,
	"search": true, "update": true, "async_update": true,
}

func anyRef(t *rapid.T, v *mm.Version) mm.Ref {
	var ids []mm.Ident
	for _, typ := range v.Types {
		ids = append(ids, typ.Name)
	}
	for _, s := range []string{"string", "integer", "boolean", "long", "float", "date", "interface"} {
		ids = append(ids, mm.Id(s))
	}
	id := rapid.SampledFrom(ids).Draw(t, "anyType")
	switch rapid.IntRange(0, 4).Draw(t, "anyKind") {
	case 0:
		return mm.Ref{Kind: mm.List, Name: id}
	case 1:
		return mm.Ref{Kind: mm.Map, Index: mm.Id("string"), Name: id}
	}
	return mm.Ref{Name: id}
}

// problems calculates the list of rules that the model breaks. The last word of each item is a text
// that should be in the report.
func (c *MutatedCase) problems() (result []string) {
	add := func(format string, args ...interface{}) { result = append(result, fmt.Sprintf(format, args...)) }
	for _, m := range c.Mutations {
		for _, k := range []string{"syntax:", "big-number:", "bad-string:"} {
			if strings.HasPrefix(m, k) {
				add("%s ", k)
			}
		}
	}
	for _, s := range c.Model.Services {
		for _, v := range s.Versions {
			versionProblems(v, add)
		}
	}
	return
}

func versionProblems(v *mm.Version, add func(string, ...interface{})) {
	// Declarations:
	declared := map[string]bool{}
	for snake := range mm.Scalars {
		declared[mm.Id(snake).Text()] = true
	}
	for _, t := range v.Types {
		if declared[t.Name.Text()] {
			add("type is already defined: %s", t.Name.Text())
		}
		declared[t.Name.Text()] = true
	}
	resources := map[string]*mm.Resource{}
	for _, r := range v.Resources {
		if resources[r.Name.Text()] != nil {
			add("resource is already defined: %s", r.Name.Text())
			continue
		}
		resources[r.Name.Text()] = r
	}
	errors := map[string]bool{}
	for _, e := range v.Errors {
		if errors[e.Name.Text()] {
			add("error is already defined: %s", e.Name.Text())
		}
		errors[e.Name.Text()] = true
	}
	// References:
	ref := func(r mm.Ref) {
		if !declared[r.Name.Text()] {
			add("type is undefined: %s", r.Name.Text())
		}
		if r.Kind == mm.Map && !declared[r.Index.Text()] {
			add("type is undefined: %s", r.Index.Text())
		}
	}
	for _, t := range v.Types {
		for _, a := range t.Attrs {
			ref(a.Type)
		}
	}
	for _, r := range v.Resources {
		for _, l := range r.Locators {
			if len(l.Target.W) == 0 {
				add("locator has no target: %s", l.Name.Text())
			} else if resources[l.Target.Text()] == nil {
				if l.Target.Text() == "Root" {
					continue // Reported as a missing root.
				}
				add("resource is undefined: %s", l.Target.Text())
			}
		}
		for _, m := range r.Methods {
			for _, p := range m.Params {
				ref(p.Type)
			}
			methodProblems(v, r, m, add)
		}
	}
	// Root:
	root := resources["Root"]
	if root == nil {
		add("there is no root: ")
		return
	}
	// Loops reachable from the root:
	var walk func(r *mm.Resource, path []string) bool
	walk = func(r *mm.Resource, path []string) bool {
		for _, x := range path {
			if x == r.Name.Text() {
				return true
			}
		}
		path = append(path[:len(path):len(path)], r.Name.Text())
		for _, l := range r.Locators {
			if len(l.Target.W) == 0 {
				continue
			}
			target := resources[l.Target.Text()]
			if target != nil && walk(target, path) {
				return true
			}
		}
		return false
	}
	if walk(root, nil) {
		add("locators have a loop: ")
	}
}

func methodProblems(v *mm.Version, r *mm.Resource, m *mm.Method, add func(string, ...interface{})) {
	type kind int
	const (
		scalar kind = iota
		strct
		list
		other
	)
	kindOf := func(p *mm.Param) kind {
		switch {
		case p.Type.Kind == mm.List:
			return list
		case p.Type.Kind == mm.Map:
			return other
		case v.GoScalar(p.Type):
			return scalar
		case v.IsStructRef(p.Type):
			return strct
		}
		return other
	}
	count := func(k ...kind) (n int) {
		for _, p := range m.Params {
			for _, x := range k {
				if kindOf(p) == x {
					n++
				}
			}
		}
		return
	}
	fqn := func(p *mm.Param) string { return r.Name.Text() + "." + m.Name.Text() + "." + p.Name.Text() }
	method := r.Name.Text() + "." + m.Name.Text()
	name := m.Name.Snake()
	only := func(kinds ...kind) {
		for _, p := range m.Params {
			ok := false
			for _, k := range kinds {
				ok = ok || kindOf(p) == k
			}
			if !ok {
				what := fqn(p)
				if name == "delete" || name == "async_delete" {
					what = method
				}
				add("%s: bad type of parameter %s", name, what)
			}
		}
	}
	dir := func(in, out bool, kinds ...kind) {
		for _, p := range m.Params {
			for _, k := range kinds {
				if kindOf(p) == k && (p.In != in || p.IsOut() != out) {
					add("%s: bad direction of parameter %s", name, fqn(p))
				}
			}
		}
	}
	named := func(want string, kinds ...kind) {
		for _, p := range m.Params {
			for _, k := range kinds {
				if kindOf(p) == k && p.Name.Snake() != want {
					add("%s: bad name of parameter %s", name, fqn(p))
				}
			}
		}
	}
	exactly := func(kinds ...kind) {
		if count(kinds...) != 1 {
			add("%s: should have exactly one structured parameter %s", name, method)
		}
	}
	integer := func(p *mm.Param) bool { return p.Type.Kind == mm.Plain && p.Type.Name.Snake() == "integer" }
	paging := func() {
		hasItems := false
		for _, p := range m.Params {
			switch p.Name.Snake() {
			case "page", "size":
				want := 1
				if p.Name.Snake() == "size" {
					want = 100
				}
				if !integer(p) {
					add("%s: bad type of parameter %s", name, fqn(p))
				}
				if !p.In || !p.IsOut() {
					add("%s: bad direction of parameter %s", name, fqn(p))
				}
				if literalValue(p.Default) != want {
					add("%s: bad default of parameter %s", name, fqn(p))
				}
			case "total":
				if !integer(p) {
					add("%s: bad type of parameter %s", name, fqn(p))
				}
				if p.In || !p.IsOut() {
					add("%s: bad direction of parameter %s", name, fqn(p))
				}
			case "items":
				hasItems = true
			}
		}
		if !hasItems {
			add("%s: no items in %s", name, method)
		}
	}
	switch name {
	case "add":
		only(scalar, strct)
		exactly(strct)
		dir(true, true, strct)
		named("body", strct)
	case "delete", "async_delete":
		only(scalar)
		dir(true, false, scalar, strct, list, other)
	case "get":
		only(scalar, strct)
		exactly(strct)
		dir(true, false, scalar)
		dir(false, true, strct)
		named("body", strct)
	case "list":
		only(scalar, list)
		exactly(list)
		paging()
		dir(false, true, list)
		named("items", list)
	case "post":
		in, out := 0, 0
		for _, p := range m.Params {
			if p.In {
				in++
			}
			if p.IsOut() {
				out++
			}
			if kindOf(p) != strct {
				add("%s: bad type of parameter %s", name, fqn(p))
			}
		}
		if in > 1 {
			add("%s: more than one input in %s", name, method)
		}
		if out != 1 {
			add("%s: should have one output in %s", name, method)
		}
	case "search":
		bodies := 0
		for _, p := range m.Params {
			if p.In && kindOf(p) != scalar && kindOf(p) != strct {
				add("%s: bad type of input parameter %s", name, fqn(p))
			}
			if p.IsOut() && kindOf(p) != scalar && kindOf(p) != list {
				add("%s: bad type of output parameter %s", name, fqn(p))
			}
			if p.In && kindOf(p) == strct {
				bodies++
				if p.IsOut() {
					add("%s: bad direction of parameter %s", name, fqn(p))
				}
				if p.Name.Snake() != "body" {
					add("%s: bad name of parameter %s", name, fqn(p))
				}
			}
		}
		if bodies != 1 {
			add("%s: should have one body in %s", name, method)
		}
		exactly(list)
		paging()
		dir(false, true, list)
		named("items", list)
	case "update", "async_update":
		only(scalar, strct, list)
		exactly(strct, list)
		dir(true, false, scalar)
		dir(true, true, strct, list)
		named("body", strct, list)
	}
	// Default values:
	for _, p := range m.Params {
		want := ""
		switch literalValue(p.Default).(type) {
		case nil:
			continue
		case bool:
			want = "boolean"
		case int:
			want = "integer"
		case string:
			want = "string"
		}
		if p.Type.Kind != mm.Plain || p.Type.Name.Snake() != want {
			add("default value: bad type of parameter %s", fqn(p))
		}
	}
}

// InputCase is about what is given to the reader as input.
type InputCase struct {
	Model *mm.Model
	// Split says in which of the input directories each of the versions is.
	Split []int
	Junk  []string
	Kind  string
}

func init() {
	C03 = append(C03, rec.NewSub("inputs", 150, 1000, func(t *rapid.T) *InputCase {
		o := mm.DefaultOpts
		o.MaxServices, o.MaxVersions, o.MaxTypes, o.MaxAttrs, o.MaxResources = 3, 2, 1, 2, 2
		c := &InputCase{Model: mm.GenModel(t, o)}
		for _, s := range c.Model.Services {
			for range s.Versions {
				c.Split = append(c.Split, rapid.IntRange(0, 2).Draw(t, "split"))
			}
		}
		c.Junk = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"top.txt", "svc.txt", "dir/x.model"}), 0, 3, rapid.ID[string]).Draw(t, "junk")
		c.Kind = rapid.SampledFrom([]string{"split", "split", "missing", "file"}).Draw(t, "kind")
		return c
	}, checkInputs))
}

// checkInputs checks that models can be divided into multiple input directories, that what isn't in
// a version directory is ignored, and that missing directories are errors.
func checkInputs(f *rec.F, c *InputCase) {
	dirs := []string{scratchDir(), scratchDir(), scratchDir()}
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	n := 0
	for _, s := range c.Model.Services {
		for _, v := range s.Versions {
			base := filepath.Join(dirs[c.Split[n]], s.Name, v.Name)
			n++
			os.MkdirAll(base, 0o755)
			for name, text := range v.Files() {
				os.WriteFile(filepath.Join(base, name), []byte(text), 0o644)
			}
			for _, j := range c.Junk {
				switch j {
				case "top.txt":
					os.WriteFile(filepath.Join(dirs[0], j), []byte("junk"), 0o644)
				case "svc.txt":
					os.WriteFile(filepath.Join(base, "..", j), []byte("junk"), 0o644)
				case "dir/x.model":
					os.MkdirAll(filepath.Join(base, "dir"), 0o755)
					os.WriteFile(filepath.Join(base, j), []byte("junk"), 0o644)
				}
			}
		}
	}
	used := map[int]bool{}
	for _, x := range c.Split {
		used[x] = true
	}
	f.R.Case(key(c.Model.Files())+fmt.Sprint(c.Split, c.Junk, c.Kind), len(used) > 1 || c.Kind != "split", "inputs: "+c.Kind)
	switch c.Kind {
	case "missing":
		r := readDirs(f, append(dirs, filepath.Join(dirs[0], "does_not_exist"))...)
		if r.err == nil || r.model != nil || r.errors == 0 {
			f.Failf("an input directory that doesn't exist isn't reported")
		}
		return
	case "file":
		path := filepath.Join(dirs[0], "file.txt")
		os.WriteFile(path, nil, 0o644)
		r := readDirs(f, append(dirs, path)...)
		if r.err == nil || r.model != nil || r.errors == 0 {
			f.Failf("an input that isn't a directory isn't reported")
		}
		return
	}
	r := readDirs(f, dirs...)
	if r.err != nil || r.model == nil {
		f.Failf("model divided in multiple directories is rejected: %s", r.errs)
	}
	sort.Strings(c.Junk)
	f.Try("inspecting the model", func() { compareModel(f, c.Model, r.model) })
}
