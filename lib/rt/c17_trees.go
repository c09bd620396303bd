package rt

import (
	"os"
	"path/filepath"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// DirCase selects a version.
type DirCase struct {
	Dir string
}

func genDir(t *rapid.T) *DirCase { return &DirCase{Dir: pickEnv(t).Dir} }

// pathTree calculates the tree of paths of a resource, and the number of nodes.
func pathTree(v *mm.Version, r *mm.Resource) (*J, int) {
	j := &J{K: "obj"}
	count := 1
	for _, m := range r.Methods {
		if isAction(m) {
			j.add(m.Segment(), &J{K: "null"})
			count++
		}
	}
	for _, l := range r.Locators {
		label := l.Segment()
		if l.IsVar() {
			label = "-"
		}
		branch, n := pathTree(v, v.FindResource(l.Target))
		j.add(label, branch)
		count += n
	}
	if len(j.Key) == 0 {
		return &J{K: "null"}, count
	}
	return j, count
}

// get finds a member of an object.
func (j *J) get(key string) *J {
	if j == nil {
		return nil
	}
	for i, k := range j.Key {
		if k == key {
			return j.A[i]
		}
	}
	return nil
}

func init() {
	Sub("C17", "tree", 250, 250, genDir, func(f *rec.F, c *DirCase) {
		e := GetEnv(c.Dir)
		p := Pkgs["metrics"]
		if p == nil {
			f.Failf("there is no metrics package")
		}
		text := p.Sym("pathTreeData").String()
		j, err := ParseJ([]byte(text))
		if err != nil {
			f.Failf("the tree isn't valid JSON: %v", err)
		}
		api := j.get("api")
		if len(j.Key) != 1 || api == nil {
			f.Failf("the top level of the tree should have only the 'api' branch, but it has %q", j.Key)
		}
		if len(api.Key) != len(Model.Services) {
			f.Failf("there should be %d services, but there are %q", len(Model.Services), api.Key)
		}
		svc := api.get(e.S.Name)
		if svc == nil {
			f.Failf("there is no branch for service '%s': %q", e.S.Name, api.Key)
		}
		if len(svc.Key) != len(e.S.Versions) {
			f.Failf("service '%s' should have %d versions, but it has %q", e.S.Name, len(e.S.Versions), svc.Key)
		}
		version := svc.get(e.V.Name)
		if version == nil {
			f.Failf("there is no branch for version '%s' of service '%s': %q", e.V.Name, e.S.Name, svc.Key)
		}
		expected, n := pathTree(e.V, e.V.Root())
		if d := DiffJ(c.Dir, expected, version); d != "" {
			f.Failf("the tree of paths isn't correct: %s", d)
		}
		f.R.Case(key(c)+expected.Text(), n > 2)
		if n > 2 && f.R.WantSample() {
			f.R.Sample(clip(expected.Text()))
		}
	})

	Sub("C18", "specification", 250, 250, genDir, func(f *rec.F, c *DirCase) {
		e := GetEnv(c.Dir)
		embedded, ok := e.Pkg.Sym("OpenAPI").Interface().([]byte)
		if !ok {
			f.Failf("the type of the variable isn't a slice of bytes")
		}
		data, err := os.ReadFile(filepath.Join(ModelDir, "openapi", e.S.Name, e.V.Name, "openapi.json"))
		if err != nil {
			f.Failf("the specification hasn't been generated: %v", err)
		}
		expected, err := ParseJ(data)
		if err != nil {
			f.Failf("the specification isn't valid JSON: %v", err)
		}
		actual, err := ParseJ(embedded)
		if err != nil {
			f.Failf("the embedded specification isn't valid JSON: %v", err)
		}
		if d := DiffJ(c.Dir, expected, actual); d != "" {
			f.Failf("the embedded specification is different: %s", d)
		}
		n := 0
		if paths := actual.get("paths"); paths != nil {
			n = len(paths.Key)
		}
		f.R.Case(key(c)+string(data), n > 1)
		if n > 1 && f.R.WantSample() {
			f.R.Sample(clip(string(embedded)))
		}
	})
}
