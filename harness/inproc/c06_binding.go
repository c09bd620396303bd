package inproc

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"

	"pgregory.net/rapid"

	"vlib/mm"
	"vlib/rec"
)

// C06 checks the mapping from the model to the HTTP protocol.
var C06 = []*rec.Sub{
	rec.NewSub("binding", 500, 5000, func(t *rapid.T) ModelCase {
		o := mm.DefaultOpts
		o.MaxTypes, o.MaxAttrs = 2, 4
		m := mm.GenModel(t, o)
		return ModelCase{Model: m, Files: m.Files()}
	}, checkBinding),
}

// paramNames returns the names of the parameters that meet the condition, in the order of the metamodel.
func paramNames(m *mm.Method, cond func(p *mm.Param) bool) []string {
	params := append([]*mm.Param{}, m.Params...)
	sort.SliceStable(params, func(i, j int) bool { return compareIdents(params[i].Name, params[j].Name) < 0 })
	names := []string{}
	for _, p := range params {
		if cond(p) {
			names = append(names, identWords(p.Name))
		}
	}
	return names
}

func gotParams(params []*concepts.Parameter) []string {
	names := []string{}
	for _, p := range params {
		names = append(names, words(p.Name()))
	}
	return names
}

func checkBinding(f *rec.F, c ModelCase) {
	files := c.Model.Files()
	countModel(f.R, key(files), c.Model)
	r := read(f, files)
	if r.err != nil {
		f.Failf("correct model is rejected: %s", r.errs)
	}
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	rep := newReporter(out, errs)
	binding, err := http.NewBindingCalculator().Reporter(rep).Build()
	if err != nil {
		f.Failf("can't create binding calculator: %v", err)
	}
	goNames, err := golang.NewNamesCalculator().Reporter(rep).Build()
	if err != nil {
		f.Failf("can't create names calculator: %v", err)
	}
	_ = goNames
	f.Try("calculating the binding", func() {
		for _, s := range c.Model.Services {
			for _, v := range s.Versions {
				bindVersion(cmp{f: f, path: s.Name + "/" + v.Name}, binding, s, v, findVersion(r.model, s, v))
			}
		}
	})
	if rep.Errors() > 0 {
		f.Failf("errors reported: %s", errs)
	}
}

func findVersion(model *concepts.Model, s *mm.Service, v *mm.Version) *concepts.Version {
	for _, gs := range model.Services() {
		for _, gv := range gs.Versions() {
			if gs.Name().Snake() == s.Name && gv.Name().Snake() == v.Name {
				return gv
			}
		}
	}
	panic(fmt.Sprintf("can't find version %s/%s", s.Name, v.Name))
}

// HTTPMethod is the expected HTTP method and status code.
func HTTPMethod(m *mm.Method) (method, status string) {
	switch m.Name.Snake() {
	case "add", "post":
		return "POST", "201"
	case "delete":
		return "DELETE", "204"
	case "async_delete":
		return "DELETE", "202"
	case "get", "list":
		return "GET", "200"
	case "update":
		return "PATCH", "200"
	case "async_update":
		return "PATCH", "202"
	}
	return "POST", "200"
}

func bindVersion(c cmp, b *http.BindingCalculator, s *mm.Service, v *mm.Version, gv *concepts.Version) {
	c.eq("service segment", b.ServiceSegment(gv.Owner()), s.Name)
	c.eq("version segment", b.VersionSegment(gv), v.Name)
	for _, t := range v.Types {
		gt := gv.FindType(nameOf(t.Name))
		for _, a := range t.Attrs {
			c := c.at("%s/%s", t.Name.Text(), a.Name.Text())
			c.eq("attribute name", b.AttributeName(gt.FindAttribute(nameOf(a.Name))), a.JSONName())
		}
		for _, x := range t.Values {
			for _, gx := range gt.Values() {
				if words(gx.Name()) == identWords(x.Name) {
					c.at("%s/%s", t.Name.Text(), x.Name.Text()).eq("value name", b.EnumValueName(gx), x.JSONName())
				}
			}
		}
	}
	for _, r := range v.Resources {
		gr := gv.FindResource(nameOf(r.Name))
		for _, l := range r.Locators {
			for _, gl := range gr.Locators() {
				if words(gl.Name()) == identWords(l.Name) {
					c.at("%s/%s", r.Name.Text(), l.Name.Text()).eq("segment", b.LocatorSegment(gl), l.Segment())
				}
			}
		}
		for _, m := range r.Methods {
			gm := gr.FindMethod(nameOf(m.Name))
			c := c.at("%s/%s", r.Name.Text(), m.Name.Text())
			method, status := HTTPMethod(m)
			c.eq("HTTP method", b.Method(gm), method)
			c.eq("status", b.DefaultStatus(gm), status)
			action := !restNames[m.Name.Snake()]
			segment := ""
			if action {
				segment = m.Segment()
			}
			c.eq("segment", b.MethodSegment(gm), segment)
			c.eq("request parameters", gotParams(b.RequestParameters(gm)), paramNames(m, func(p *mm.Param) bool { return p.In }))
			c.eq("query parameters", gotParams(b.RequestQueryParameters(gm)), paramNames(m, func(p *mm.Param) bool {
				return !action && p.In && v.GoScalar(p.Type)
			}))
			c.eq("body parameters", gotParams(b.RequestBodyParameters(gm)), paramNames(m, func(p *mm.Param) bool {
				return p.In && (action || !v.GoScalar(p.Type))
			}))
			c.eq("response parameters", gotParams(b.ResponseParameters(gm)), paramNames(m, func(p *mm.Param) bool { return p.IsOut() }))
			c.eq("response body parameters", gotParams(b.ResponseBodyParameters(gm)), paramNames(m, func(p *mm.Param) bool { return p.IsOut() }))
			for _, p := range m.Params {
				gp := gm.GetParameter(nameOf(p.Name))
				c := c.at("%s", p.Name.Text())
				c.eq("query name", b.QueryParameterName(gp), p.QueryName())
				c.eq("body name", b.BodyParameterName(gp), p.JSONName())
			}
		}
	}
}
