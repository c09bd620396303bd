package inproc

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// C02 checks that the reader returns exactly what is written in the model files.
var C02 = []*rec.Sub{
	rec.NewSub("reader-fidelity", 500, 6000, func(t *rapid.T) ModelCase {
		o := mm.DefaultOpts
		o.MaxServices, o.MaxVersions = 3, 3
		m := mm.GenModel(t, o)
		return ModelCase{Model: m, Files: m.Files()}
	}, func(f *rec.F, c ModelCase) {
		files := c.Model.Files()
		countModel(f.R, key(files), c.Model)
		r := read(f, files)
		if r.err != nil || r.errors != 0 || r.model == nil {
			f.Failf("correct model is rejected: %v\n%s", r.err, r.errs)
		}
		f.Try("inspecting the model", func() { compareModel(f, c.Model, r.model) })
	}),
}

// countModel records a model.
func countModel(r *rec.R, key string, m *mm.Model) {
	types, attrs, resources, methods, params, locators, errors, anns, docs := 0, 0, 0, 0, 0, 0, 0, 0, 0
	for _, s := range m.Services {
		for _, v := range s.Versions {
			types += len(v.Types)
			resources += len(v.Resources)
			errors += len(v.Errors)
			for _, t := range v.Types {
				attrs += len(t.Attrs) + len(t.Values)
				anns += len(t.Anns)
				docs += len(t.Doc)
				for _, a := range t.Attrs {
					anns += len(a.Anns)
					docs += len(a.Doc)
				}
			}
			for _, x := range v.Resources {
				methods += len(x.Methods)
				locators += len(x.Locators)
				for _, y := range x.Methods {
					params += len(y.Params)
				}
			}
		}
	}
	classes := []string{}
	add := func(name string, ok bool) {
		if ok {
			classes = append(classes, name)
		}
	}
	add("with attributes", attrs > 0)
	add("with methods", methods > 0)
	add("with parameters", params > 0)
	add("with locators", locators > 0)
	add("with errors", errors > 0)
	add("with annotations", anns > 0)
	add("with documentation", docs > 0)
	add("with several services", len(m.Services) > 1)
	r.Case(key, attrs > 0 && methods > 0 && locators > 0, classes...)
	if r.WantSample() && attrs > 0 && methods > 0 && len(key) < 6000 {
		r.Sample(key)
	}
}

type cmp struct {
	f    *rec.F
	path string
}

func (c cmp) at(format string, args ...interface{}) cmp {
	return cmp{f: c.f, path: c.path + "/" + fmt.Sprintf(format, args...)}
}

func (c cmp) eq(what string, got, want interface{}) {
	if !reflect.DeepEqual(got, want) {
		c.f.Failf("%s: %s is %#v instead of %#v", c.path, what, got, want)
	}
}

func (c cmp) name(got *names.Name, want mm.Ident) {
	if got == nil || words(got) != identWords(want) || got.Camel() != want.Camel() {
		c.f.Failf("%s: name is %v instead of %s", c.path, got, want.Text())
	}
}

type described interface {
	concepts.Annotated
	Doc() string
	Name() *names.Name
}

func (c cmp) common(got described, want *mm.Common) {
	c.name(got.Name(), want.Name)
	c.eq("documentation", got.Doc(), want.DocText())
	c.eq("number of annotations", len(got.Annotations()), len(want.Anns))
	for i, a := range got.Annotations() {
		w := want.Anns[i]
		c.eq("annotation", a.Name(), w.Name)
		for _, p := range w.Params {
			c.eq("parameter "+p.Name+" of annotation "+w.Name, a.FindParameter(p.Name), literalValue(p.Value))
		}
		c.eq("undefined parameter of annotation "+w.Name, a.FindParameter("p99"), nil)
		if got.GetAnnotation(w.Name) == nil {
			c.f.Failf("%s: annotation '%s' can't be found", c.path, w.Name)
		}
	}
	if got.GetAnnotation("junk") != nil {
		c.f.Failf("%s: annotation 'junk' doesn't exist but it is found", c.path)
	}
}

func literalValue(v interface{}) interface{} {
	if x, ok := v.(float64); ok { // After a round trip through JSON.
		return int(x)
	}
	return v
}

// snakeSort sorts identifiers in the order of the metamodel, which is word by word.
func sortIdents(ids []mm.Ident) {
	sort.SliceStable(ids, func(i, j int) bool { return compareIdents(ids[i], ids[j]) < 0 })
}

func compareModel(f *rec.F, want *mm.Model, got *concepts.Model) {
	c := cmp{f: f, path: "model"}
	services := append([]*mm.Service{}, want.Services...)
	sort.SliceStable(services, func(i, j int) bool {
		return compareIdents(mm.Id(services[i].Name), mm.Id(services[j].Name)) < 0
	})
	c.eq("number of services", len(got.Services()), len(services))
	for i, s := range services {
		gs := got.Services()[i]
		c := c.at("%s", s.Name)
		c.eq("snake name", gs.Name().Snake(), s.Name)
		c.eq("owner", gs.Owner() == got, true)
		c.eq("found by name", got.FindService(names.ParseUsingSeparator(s.Name, "_")) == gs, true)
		versions := append([]*mm.Version{}, s.Versions...)
		sort.SliceStable(versions, func(i, j int) bool {
			return compareIdents(mm.Id(versions[i].Name), mm.Id(versions[j].Name)) < 0
		})
		c.eq("number of versions", len(gs.Versions()), len(versions))
		for j, v := range versions {
			gv := gs.Versions()[j]
			c := c.at("%s", v.Name)
			c.eq("snake name", gv.Name().Snake(), v.Name)
			c.eq("owner", gv.Owner() == gs, true)
			c.eq("found by name", gs.FindVersion(names.ParseUsingSeparator(v.Name, "_")) == gv, true)
			c.version(v, gv)
		}
	}
}

type typeSpec struct {
	id          mm.Ident
	kind        concepts.TypeKind
	decl        *mm.Type
	elem, index string
}

// expectedTypes calculates all the types that the version should contain.
func expectedTypes(v *mm.Version) []typeSpec {
	specs := map[string]typeSpec{}
	add := func(s typeSpec) {
		k := identWords(s.id)
		if _, ok := specs[k]; !ok {
			specs[k] = s
		}
	}
	for snake := range mm.Scalars {
		kind := concepts.ScalarType
		if snake == "interface" {
			kind = concepts.InterfaceType
		}
		add(typeSpec{id: mm.Id(snake), kind: kind})
	}
	kinds := map[mm.TypeKind]concepts.TypeKind{
		mm.Enum: concepts.EnumType, mm.Struct: concepts.StructType, mm.Class: concepts.ClassType,
	}
	for _, t := range v.Types {
		add(typeSpec{id: t.Name, kind: kinds[t.Kind], decl: t})
	}
	ref := func(r mm.Ref) {
		if r.Kind == mm.Map {
			id := mm.Ident{W: append(append(append([]mm.Word{}, r.Index.W...), r.Name.W...), mm.Word{T: "map"})}
			add(typeSpec{id: id, kind: concepts.MapType, elem: identWords(r.Name), index: identWords(r.Index)})
		}
	}
	for _, t := range v.Types {
		for _, a := range t.Attrs {
			ref(a.Type)
		}
	}
	for _, r := range v.Resources {
		for _, m := range r.Methods {
			for _, p := range m.Params {
				ref(p.Type)
			}
		}
	}
	var all []typeSpec
	for _, s := range specs {
		all = append(all, s)
		id := mm.Ident{W: append(append([]mm.Word{}, s.id.W...), mm.Word{T: "list"})}
		all = append(all, typeSpec{id: id, kind: concepts.ListType, elem: identWords(s.id)})
	}
	sort.SliceStable(all, func(i, j int) bool { return compareIdents(all[i].id, all[j].id) < 0 })
	return all
}

func (c cmp) version(v *mm.Version, gv *concepts.Version) {
	specs := expectedTypes(v)
	got := gv.Types()
	c.eq("names of types", typeNames(got), specNames(specs))
	find := map[string]*concepts.Type{}
	for _, t := range got {
		find[words(t.Name())] = t
	}
	for i, s := range specs {
		gt := got[i]
		c := c.at("%s", s.id.Text())
		c.eq("kind", gt.Kind().String(), s.kind.String())
		c.eq("owner", gt.Owner() == gv, true)
		c.eq("found by name", gv.FindType(gt.Name()) == gt, true)
		if s.decl != nil {
			c.eq("found by parsed name", gv.FindType(nameOf(s.id)) == gt, true)
		}
		if s.elem != "" {
			c.eq("element", gt.Element() == find[s.elem], true)
		}
		if s.index != "" {
			c.eq("index", gt.Index() == find[s.index], true)
		}
		c.predicates(s, gt)
		if s.decl == nil {
			c.eq("number of attributes", len(gt.Attributes()), 0)
			c.eq("number of values", len(gt.Values()), 0)
			continue
		}
		c.common(gt, &s.decl.Common)
		c.members(s.decl, gt, find)
	}

	resources := append([]*mm.Resource{}, v.Resources...)
	sort.SliceStable(resources, func(i, j int) bool { return compareIdents(resources[i].Name, resources[j].Name) < 0 })
	c.eq("number of resources", len(gv.Resources()), len(resources))
	byName := map[string]*concepts.Resource{}
	for _, r := range gv.Resources() {
		byName[words(r.Name())] = r
	}
	for i, r := range resources {
		gr := gv.Resources()[i]
		c := c.at("%s", r.Name.Text())
		c.common(gr, &r.Common)
		c.eq("owner", gr.Owner() == gv, true)
		c.eq("found by name", gv.FindResource(nameOf(r.Name)) == gr, true)
		c.eq("root", gr.IsRoot(), r.Name.Text() == "Root")
		c.resource(r, gr, find, byName)
	}
	if gv.Root() == nil || words(gv.Root().Name()) != "root" {
		c.f.Failf("%s: the root resource isn't the one named 'Root'", c.path)
	}

	errs := append([]*mm.Error{}, v.Errors...)
	sort.SliceStable(errs, func(i, j int) bool { return compareIdents(errs[i].Name, errs[j].Name) < 0 })
	c.eq("number of errors", len(gv.Errors()), len(errs))
	for i, e := range errs {
		ge := gv.Errors()[i]
		c := c.at("%s", e.Name.Text())
		c.common(ge, &e.Common)
		c.eq("code", ge.Code(), e.Code)
		c.eq("owner", ge.Owner() == gv, true)
		c.eq("found by name", gv.FindError(nameOf(e.Name)) == ge, true)
	}
	c.paths(v, gv)
}

func typeNames(types concepts.TypeSlice) (r []string) {
	for _, t := range types {
		r = append(r, words(t.Name()))
	}
	return
}

func specNames(specs []typeSpec) (r []string) {
	for _, s := range specs {
		r = append(r, identWords(s.id))
	}
	return
}

func (c cmp) predicates(s typeSpec, t *concepts.Type) {
	builtin := ""
	if s.decl == nil && s.elem == "" {
		builtin = s.id.Snake()
	}
	c.eq("is boolean", t.IsBoolean(), builtin == "boolean")
	c.eq("is integer", t.IsInteger(), builtin == "integer")
	c.eq("is long", t.IsLong(), builtin == "long")
	c.eq("is float", t.IsFloat(), builtin == "float")
	c.eq("is string", t.IsString(), builtin == "string")
	c.eq("is date", t.IsDate(), builtin == "date")
	c.eq("is interface", t.IsInterface(), builtin == "interface")
	c.eq("is class", t.IsClass(), s.kind == concepts.ClassType)
	c.eq("is struct", t.IsStruct(), s.kind == concepts.ClassType || s.kind == concepts.StructType)
	c.eq("is enum", t.IsEnum(), s.kind == concepts.EnumType)
	c.eq("is list", t.IsList(), s.kind == concepts.ListType)
	c.eq("is map", t.IsMap(), s.kind == concepts.MapType)
	c.eq("is scalar", t.IsScalar(), s.kind == concepts.EnumType || builtin != "")
}

func (c cmp) ref(r mm.Ref, got *concepts.Type, find map[string]*concepts.Type) {
	var id mm.Ident
	switch r.Kind {
	case mm.List:
		id = mm.Ident{W: append(append([]mm.Word{}, r.Name.W...), mm.Word{T: "list"})}
	case mm.Map:
		id = mm.Ident{W: append(append(append([]mm.Word{}, r.Index.W...), r.Name.W...), mm.Word{T: "map"})}
	default:
		id = r.Name
	}
	if got == nil {
		c.f.Failf("%s: type is nil", c.path)
	}
	c.eq("type", words(got.Name()), identWords(id))
	c.eq("type is the one of the version", got == find[identWords(id)], true)
}

func (c cmp) members(t *mm.Type, gt *concepts.Type, find map[string]*concepts.Type) {
	attrs := append([]*mm.Attr{}, t.Attrs...)
	sort.SliceStable(attrs, func(i, j int) bool { return compareIdents(attrs[i].Name, attrs[j].Name) < 0 })
	c.eq("number of attributes", len(gt.Attributes()), len(attrs))
	for i, a := range attrs {
		ga := gt.Attributes()[i]
		c := c.at("%s", a.Name.Text())
		c.common(ga, &a.Common)
		c.eq("link", ga.Link(), a.Link)
		c.eq("owner", ga.Owner() == gt, true)
		c.eq("link owner", ga.LinkOwner() == nil, true)
		c.eq("found by name", gt.FindAttribute(nameOf(a.Name)) == ga, true)
		c.ref(a.Type, ga.Type(), find)
	}
	values := append([]*mm.Value{}, t.Values...)
	sort.SliceStable(values, func(i, j int) bool { return compareIdents(values[i].Name, values[j].Name) < 0 })
	c.eq("number of values", len(gt.Values()), len(values))
	for i, x := range values {
		gx := gt.Values()[i]
		c := c.at("%s", x.Name.Text())
		c.common(gx, &x.Common)
		c.eq("type", gx.Type() == gt, true)
	}
}

func (c cmp) resource(r *mm.Resource, gr *concepts.Resource, find map[string]*concepts.Type, byName map[string]*concepts.Resource) {
	methods := append([]*mm.Method{}, r.Methods...)
	sort.SliceStable(methods, func(i, j int) bool { return compareIdents(methods[i].Name, methods[j].Name) < 0 })
	c.eq("number of methods", len(gr.Methods()), len(methods))
	for i, m := range methods {
		gm := gr.Methods()[i]
		c := c.at("%s", m.Name.Text())
		c.common(gm, &m.Common)
		c.eq("owner", gm.Owner() == gr, true)
		c.eq("found by name", gr.FindMethod(nameOf(m.Name)) == gm, true)
		known := map[string]bool{}
		for _, k := range []struct {
			name string
			got  bool
		}{
			{"add", gm.IsAdd()}, {"delete", gm.IsDelete()}, {"async_delete", gm.IsAsyncDelete()},
			{"get", gm.IsGet()}, {"list", gm.IsList()}, {"post", gm.IsPost()}, {"search", gm.IsSearch()},
			{"update", gm.IsUpdate()}, {"async_update", gm.IsAsyncUpdate()},
		} {
			known[k.name] = true
			c.eq("is "+k.name, k.got, m.Name.Snake() == k.name)
		}
		c.eq("is action", gm.IsAction(), !known[m.Name.Snake()])
		params := append([]*mm.Param{}, m.Params...)
		sort.SliceStable(params, func(i, j int) bool { return compareIdents(params[i].Name, params[j].Name) < 0 })
		c.eq("number of parameters", len(gm.Parameters()), len(params))
		for j, p := range params {
			gp := gm.Parameters()[j]
			c := c.at("%s", p.Name.Text())
			c.common(gp, &p.Common)
			c.eq("owner", gp.Owner() == gm, true)
			c.eq("found by name", gm.GetParameter(nameOf(p.Name)) == gp, true)
			c.eq("in", gp.In(), p.In)
			c.eq("out", gp.Out(), p.IsOut())
			c.eq("default", gp.Default(), literalValue(p.Default))
			switch m.Name.Snake() {
			case "list", "search":
				c.eq("is items", gp.IsItems(), p.Name.Snake() == "items")
			}
			switch m.Name.Snake() {
			case "add", "get", "search", "update", "async_update":
				c.eq("is body", gp.IsBody(), p.Name.Snake() == "body")
			}
			c.ref(p.Type, gp.Type(), find)
		}
	}
	locators := append([]*mm.Locator{}, r.Locators...)
	sort.SliceStable(locators, func(i, j int) bool { return compareIdents(locators[i].Name, locators[j].Name) < 0 })
	c.eq("number of locators", len(gr.Locators()), len(locators))
	var variable *concepts.Locator
	var constants concepts.LocatorSlice
	for i, l := range locators {
		gl := gr.Locators()[i]
		c := c.at("%s", l.Name.Text())
		c.common(gl, &l.Common)
		c.eq("owner", gl.Owner() == gr, true)
		c.eq("variable", gl.Variable(), l.IsVar())
		c.eq("target", gl.Target() == byName[identWords(l.Target)], true)
		if l.IsVar() {
			variable = gl
		} else {
			constants = append(constants, gl)
		}
	}
	c.eq("variable locator", gr.VariableLocator() == variable, true)
	got := gr.ConstantLocators()
	c.eq("number of constant locators", len(got), len(constants))
	for i := range got {
		c.eq("constant locator", got[i] == constants[i], true)
	}
}

// paths checks that the paths are exactly the chains of locators that start in the root.
func (c cmp) paths(v *mm.Version, gv *concepts.Version) {
	var want []string
	var walk func(r *mm.Resource, prefix string)
	walk = func(r *mm.Resource, prefix string) {
		for _, l := range r.Locators {
			p := prefix + "/" + r.Name.Text() + "." + l.Name.Text()
			want = append(want, p)
			walk(v.FindResource(l.Target), p)
		}
	}
	walk(v.Root(), "")
	var got []string
	for _, path := range gv.Paths() {
		p := ""
		for _, l := range path {
			p += "/" + l.Owner().Name().Camel() + "." + l.Name().Camel()
		}
		got = append(got, p)
	}
	sort.Strings(want)
	sort.Strings(got)
	c.eq("paths", got, want)
}
