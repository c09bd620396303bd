package inproc

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// C05 checks the references to types of other versions.
var C05 = []*rec.Sub{
	rec.NewSub("references", 400, 5000, func(t *rapid.T) ModelCase {
		o := mm.DefaultOpts
		o.MaxAttrs = 5
		m := mm.GenRefModel(t, o)
		return ModelCase{Model: m, Files: m.Files()}
	}, func(f *rec.F, c ModelCase) {
		files := c.Model.Files()
		countRefs(f.R, key(files), c.Model)
		r := read(f, files)
		if r.err != nil || r.errors != 0 || r.model == nil {
			f.Failf("correct model with references is rejected: %v\n%s", r.err, r.errs)
		}
		f.Try("inspecting the model", func() { compareRefModel(f, c.Model, r.model) })
	}),
	rec.NewSub("wrong references", 250, 2500, genBadRef, checkBadRef),
}

func countRefs(r *rec.R, key string, m *mm.Model) {
	refs, chains, links, imports := 0, 0, 0, 0
	for _, s := range m.Services {
		for _, v := range s.Versions {
			n := 0
			for _, t := range v.Types {
				if t.RefPath() == "" {
					continue
				}
				n++
				_, _, rt := m.Lookup(t.RefPath())
				if rt != nil && rt.RefPath() != "" {
					chains++
				}
			}
			refs += n
			if n > 0 {
				for _, o := range m.Expand(s, v) {
					if o.Version == v {
						continue
					}
					imports++
					for _, a := range o.Decl.Attrs {
						if a.Link {
							links++
						}
					}
				}
			}
		}
	}
	var classes []string
	if chains > 0 {
		classes = append(classes, "with chains of references")
	}
	if links > 0 {
		classes = append(classes, "with links in the imported types")
	}
	if imports > refs {
		classes = append(classes, "with indirectly imported types")
	}
	r.Case(key, refs > 0 && (imports > refs || links > 0), classes...)
	if r.WantSample() && links > 0 && len(key) < 6000 {
		r.Sample(key)
	}
}

// compareRefModel compares the types of all the versions. The types that aren't imported are compared
// in the same way than for models without references.
func compareRefModel(f *rec.F, want *mm.Model, got *concepts.Model) {
	c := cmp{f: f, path: "model"}
	c.eq("number of services", len(got.Services()), len(want.Services))
	for _, s := range want.Services {
		gs := got.FindService(names.ParseUsingSeparator(s.Name, "_"))
		if gs == nil {
			f.Failf("service '%s' doesn't exist", s.Name)
		}
		c.eq("number of versions of "+s.Name, len(gs.Versions()), len(s.Versions))
		for _, v := range s.Versions {
			gv := gs.FindVersion(names.ParseUsingSeparator(v.Name, "_"))
			if gv == nil {
				f.Failf("version '%s/%s' doesn't exist", s.Name, v.Name)
			}
			c.at("%s/%s", s.Name, v.Name).refVersion(want, s, v, gv)
		}
	}
}

func (c cmp) refVersion(m *mm.Model, s *mm.Service, v *mm.Version, gv *concepts.Version) {
	expanded := m.Expand(s, v)
	explicit := map[string]bool{}
	for _, t := range v.Types {
		if t.RefPath() != "" {
			explicit[t.Name.Text()] = true
		}
	}

	// Calculate the names of the types, including lists and maps:
	flat := &mm.Version{Name: v.Name, Resources: v.Resources}
	for _, o := range expanded {
		decl := *o.Decl
		if o.Version != v {
			// The lists and maps used only by links to types of other versions aren't imported:
			decl.Attrs = nil
			for _, a := range o.Decl.Attrs {
				if !a.Link {
					decl.Attrs = append(decl.Attrs, a)
				}
			}
		}
		flat.Types = append(flat.Types, &decl)
	}
	specs := expectedTypes(flat)
	got := gv.Types()
	c.eq("names of types", typeNames(got), specNames(specs))
	for i, spec := range specs {
		gt := got[i]
		c := c.at("%s", spec.id.Text())
		c.eq("kind", gt.Kind().String(), spec.kind.String())
		c.eq("owner", versionName(gt.Owner()), versionName(gv))
		if spec.elem != "" {
			c.eq("element", words(gt.Element().Name()), spec.elem)
		}
		if spec.index != "" {
			c.eq("index", words(gt.Index().Name()), spec.index)
		}
		if spec.decl == nil {
			continue
		}
		origin := expanded[spec.id.Text()]
		decl := origin.Decl
		c.common(gt, &decl.Common)
		c.eq("number of attributes", len(gt.Attributes()), len(decl.Attrs))
		c.eq("number of values", len(gt.Values()), len(decl.Values))
		for _, a := range decl.Attrs {
			ga := gt.FindAttribute(nameOf(a.Name))
			c := c.at("%s", a.Name.Text())
			if ga == nil {
				c.f.Failf("%s: attribute doesn't exist", c.path)
			}
			c.common(ga, &a.Common)
			c.eq("link", ga.Link(), a.Link)
			c.refType(a.Type, ga.Type(), m, origin)
			c.linkOwner(m, s, v, expanded, explicit, origin, a, ga)
		}
		values := append([]*mm.Value{}, decl.Values...)
		sort.SliceStable(values, func(i, j int) bool { return compareIdents(values[i].Name, values[j].Name) < 0 })
		for j, x := range values {
			c.at("%s", x.Name.Text()).common(gt.Values()[j], &x.Common)
		}
	}
	for _, r := range v.Resources {
		gr := gv.FindResource(nameOf(r.Name))
		c := c.at("%s", r.Name.Text())
		if gr == nil {
			c.f.Failf("%s: resource doesn't exist", c.path)
		}
		for _, x := range r.Methods {
			gx := gr.FindMethod(nameOf(x.Name))
			c := c.at("%s", x.Name.Text())
			if gx == nil {
				c.f.Failf("%s: method doesn't exist", c.path)
			}
			for _, p := range x.Params {
				gp := gx.GetParameter(nameOf(p.Name))
				c := c.at("%s", p.Name.Text())
				if gp == nil {
					c.f.Failf("%s: parameter doesn't exist", c.path)
				}
				c.refType(p.Type, gp.Type(), m, mm.Origin{Service: s, Version: v})
			}
		}
	}
}

// refType checks the name and the kind of the type of an attribute or parameter.
func (c cmp) refType(r mm.Ref, got *concepts.Type, m *mm.Model, origin mm.Origin) {
	if got == nil {
		c.f.Failf("%s: type is nil", c.path)
	}
	elem := got
	switch r.Kind {
	case mm.List:
		c.eq("is list", got.IsList(), true)
		elem = got.Element()
	case mm.Map:
		c.eq("is map", got.IsMap(), true)
		c.eq("index", words(got.Index().Name()), identWords(r.Index))
		elem = got.Element()
	}
	c.eq("type", words(elem.Name()), identWords(r.Name))
	if o, ok := m.Expand(origin.Service, origin.Version)[r.Name.Text()]; ok {
		kinds := map[mm.TypeKind]concepts.TypeKind{
			mm.Enum: concepts.EnumType, mm.Struct: concepts.StructType, mm.Class: concepts.ClassType,
		}
		c.eq("kind of type", elem.Kind().String(), kinds[o.Decl.Kind].String())
	}
}

// linkOwner checks the version where the target of a link lives.
func (c cmp) linkOwner(m *mm.Model, s *mm.Service, v *mm.Version, expanded map[string]mm.Origin,
	explicit map[string]bool, origin mm.Origin, a *mm.Attr, ga *concepts.Attribute) {
	got := ga.LinkOwner()
	target := a.Type.Name.Text()
	switch {
	case origin.Version == v:
		// Declared in this version:
		c.eq("version of the target of the link", versionName(got), "")
	case !a.Link:
		c.eq("version of the type", versionName(got), "")
		// The type itself belongs to the version that imports it:
		t := ga.Type()
		if t.IsList() || t.IsMap() {
			t = t.Element()
		}
		if !t.IsBasicType() {
			c.eq("owner of the type", versionName(t.Owner()), s.Name+"/"+v.Name)
		}
	case explicit[target]:
		c.eq("version of the target of the link", versionName(got), "")
	default:
		// The link goes to some other version where the type exists:
		if got == nil || versionName(got) == s.Name+"/"+v.Name {
			c.f.Failf("%s: the link doesn't go to other version", c.path)
		}
		if !chained(m, v) {
			c.eq("version of the target of the link", versionName(got), origin.Service.Name+"/"+origin.Version.Name)
		}
		for _, ms := range m.Services {
			for _, mv := range ms.Versions {
				if ms.Name+"/"+mv.Name == versionName(got) {
					if o, ok := m.Expand(ms, mv)[target]; !ok || o != m.Expand(origin.Service, origin.Version)[target] {
						c.f.Failf("%s: version '%s' doesn't contain the target of the link", c.path, versionName(got))
					}
					return
				}
			}
		}
		c.f.Failf("%s: version '%s' of the target of the link doesn't exist", c.path, versionName(got))
	}
}

// chained says if some of the references of the version go to versions that also have references.
func chained(m *mm.Model, v *mm.Version) bool {
	for _, t := range v.Types {
		if p := t.RefPath(); p != "" {
			_, rv, _ := m.Lookup(p)
			for _, rt := range rv.Types {
				if rt.RefPath() != "" {
					return true
				}
			}
		}
	}
	return false
}

func versionName(v *concepts.Version) string {
	if v == nil {
		return ""
	}
	return v.Owner().Name().Snake() + "/" + v.Name().Snake()
}

// BadRef is a model with references, and the way to make one of them wrong.
type BadRef struct {
	Model *mm.Model
	Pick  int
	Kind  string
	Extra string
}

var badRefKinds = []string{"type", "version", "service", "components", "self", "loop", "inputs"}

func genBadRef(t *rapid.T) BadRef {
	o := mm.DefaultOpts
	o.MaxAttrs, o.MaxTypes, o.MaxResources = 3, 2, 3
	return BadRef{
		Model: mm.GenRefModel(t, o),
		Pick:  rapid.IntRange(0, 1<<16).Draw(t, "pick"),
		Kind:  rapid.SampledFrom(badRefKinds).Draw(t, "kind"),
		Extra: rapid.SampledFrom([]string{"missing", "x", "cluster", "", "..", "v9"}).Draw(t, "extra"),
	}
}

func checkBadRef(f *rec.F, c BadRef) {
	m := c.Model
	var refs []*mm.Type
	owner := map[*mm.Type][2]string{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if t.RefPath() != "" {
					refs = append(refs, t)
					owner[t] = [2]string{s.Name, v.Name}
				}
			}
		}
	}
	if len(refs) == 0 {
		f.R.Case(key(m.Files()), false)
		return
	}
	t := refs[c.Pick%len(refs)]
	param := &t.Anns[0].Params[0]
	original := t.RefPath()
	defer func() { param.Value = original }()
	chunks := strings.Split(strings.TrimPrefix(original, "/"), "/")
	what := c.Kind
	var undo func()
	switch c.Kind {
	case "type":
		chunks[2] = "no_" + c.Extra
	case "version":
		chunks[1] = "no_" + c.Extra
	case "service":
		chunks[0] = "no_" + c.Extra
	case "components":
		switch c.Pick / 7 % 3 {
		case 0:
			chunks = chunks[:2]
		case 1:
			chunks = chunks[:1]
		case 2:
			chunks = append(chunks, c.Extra)
		}
	case "self":
		chunks[0], chunks[1] = owner[t][0], owner[t][1]
	case "loop":
		// Add to the referenced version a reference to something of the referring version:
		_, rv, _ := m.Lookup(original)
		back := &mm.Type{Kind: mm.Class}
		back.Name = mm.Id("back_reference")
		back.Anns = []mm.Ann{{Name: "ref", Params: []mm.AnnParam{{
			Name: "path", Value: "/" + owner[t][0] + "/" + owner[t][1] + "/back_reference",
		}}}}
		plain := &mm.Type{Kind: mm.Class}
		plain.Name = back.Name
		var sv *mm.Version
		for _, s := range m.Services {
			for _, v := range s.Versions {
				if s.Name == owner[t][0] && v.Name == owner[t][1] {
					sv = v
				}
			}
		}
		rTypes, rOrder, rCuts := rv.Types, rv.Order, rv.Cuts
		sTypes, sOrder, sCuts := sv.Types, sv.Order, sv.Cuts
		rv.Types, rv.Order, rv.Cuts = append(append([]*mm.Type{}, rv.Types...), back), nil, nil
		sv.Types, sv.Order, sv.Cuts = append(append([]*mm.Type{}, sv.Types...), plain), nil, nil
		undo = func() {
			rv.Types, rv.Order, rv.Cuts = rTypes, rOrder, rCuts
			sv.Types, sv.Order, sv.Cuts = sTypes, sOrder, sCuts
		}
	}
	param.Value = "/" + strings.Join(chunks, "/")
	files := m.Files()
	if undo != nil {
		undo()
	}
	f.R.Case(c.Kind+key(files), true, "wrong "+what)
	if f.R.WantSample() {
		f.R.Sample(fmt.Sprintf("%s: %s", what, param.Value))
	}
	var r readResult
	if c.Kind == "inputs" {
		a, b := writeFiles(files), writeFiles(map[string]string{"unused_service/notes.txt": ""})
		defer os.RemoveAll(a)
		defer os.RemoveAll(b)
		r = readDirs(f, a, b)
	} else {
		r = read(f, files)
	}
	if r.err == nil || r.model != nil || r.errors == 0 {
		f.Failf("model with wrong reference '%s' (%s) is accepted", param.Value, what)
	}
}
