package rt

import (
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// C05 checks that the code generated for versions with references behaves like the code generated for
// versions that declare the same types, and that the links of the imported types go to other versions.
func init() {
	for _, id := range []string{"C08", "C09", "C10", "C11"} {
		for _, s := range Props[id] {
			switch s.Name {
			case "api", "accessors", "builders", "write and read", "read":
				Props["C05"] = append(Props["C05"], s)
			}
		}
	}
	Sub("C05", "links to other versions", 400, 6000, genForeign, checkForeign)
}

// ForeignCase is a link of an imported type to a type of other version.
type ForeignCase struct {
	Dir, Type, Attr string
	Owner           string
	V               *Val
}

type foreign struct {
	e *Env
	t *mm.Type
	a *mm.Attr
}

var foreigns []foreign

// allForeign finds the links to types of other versions.
func allForeign() []foreign {
	if foreigns != nil {
		return foreigns
	}
	data, err := os.ReadFile(filepath.Join(ModelDir, "source.json"))
	if err != nil {
		panic(err)
	}
	source := &mm.Model{}
	if err := json.Unmarshal(data, source); err != nil {
		panic(err)
	}
	for _, s := range source.Services {
		for _, v := range s.Versions {
			e := GetEnv(v.Package(s))
			for _, typ := range e.structs() {
				o := source.Expand(s, v)[typ.Name.Text()]
				for _, a := range o.Decl.Attrs {
					if attrByName(typ, a.Name.Text()) == nil {
						foreigns = append(foreigns, foreign{e, typ, a})
					}
				}
			}
		}
	}
	return foreigns
}

func attrByName(typ *mm.Type, text string) *mm.Attr {
	for _, a := range typ.Attrs {
		if a.Name.Text() == text {
			return a
		}
	}
	return nil
}

// owner finds the version that contains the type of a link.
func (x foreign) owner() *Env {
	t := Method(reflect.Zero(reflect.PointerTo(x.e.Pkg.Type(x.t.GoName()))), x.a.GoName()).Type().Out(0)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	dir := strings.TrimPrefix(t.PkgPath(), "example.com/gm/g/")
	for _, e := range Envs() {
		if e.Dir == dir {
			return e
		}
	}
	return nil
}

func genForeign(t *rapid.T) *ForeignCase {
	all := allForeign()
	if len(all) == 0 {
		return &ForeignCase{}
	}
	x := rapid.SampledFrom(all).Draw(t, "link")
	c := &ForeignCase{Dir: x.e.Dir, Type: x.t.Name.Text(), Attr: x.a.Name.Text()}
	if o := x.owner(); o != nil && o.V.Find(x.a.Type.Name) != nil {
		c.Owner = o.Dir
		c.V = o.GenRef(t, "value", x.a.Type, 2)
	}
	return c
}

func checkForeign(f *rec.F, c *ForeignCase) {
	if c.Dir == "" {
		f.R.Case("none", false)
		return
	}
	for _, x := range allForeign() {
		if x.e.Dir != c.Dir || x.t.Name.Text() != c.Type || x.a.Name.Text() != c.Attr {
			continue
		}
		o := x.owner()
		if o == nil || o.V.Find(x.a.Type.Name) == nil || o == x.e {
			f.Failf("the type of link '%s' of '%s' isn't in other version", c.Attr, c.Type)
		}
		// Build:
		b := Call(x.e.Pkg.Sym("New" + x.t.GoName()))[0]
		CallM(b, x.a.GoName(), o.Arg(x.a.Type, true, c.V))
		out := CallM(b, "Build")
		if err := Err(out); err != nil {
			f.Failf("can't build: %v", err)
		}
		verify := func(what string, object reflect.Value, v *Val) {
			if d := o.Diff(what, x.a.Type, true, v, CallM(object, x.a.GoName())[0]); d != "" {
				f.Failf("the link isn't correct: %s", d)
			}
			if got := CallM(object, "Get"+x.a.GoName()); !got[1].Bool() {
				f.Failf("%s: the link isn't set", what)
			}
		}
		object := out[0]
		verify("built", object, c.V)
		// Copy:
		b = Call(x.e.Pkg.Sym("New" + x.t.GoName()))[0]
		CallM(b, "Copy", object)
		out = CallM(b, "Build")
		if err := Err(out); err != nil {
			f.Failf("can't build the copy: %v", err)
		}
		verify("copied", out[0], c.V)
		// Write:
		var buffer bytes.Buffer
		if err := Err(Call(x.e.Pkg.Sym("Marshal"+x.t.GoName()), object, &buffer)); err != nil {
			f.Failf("can't write: %v", err)
		}
		j, err := ParseJ(buffer.Bytes())
		if err != nil {
			f.Failf("the result isn't valid JSON: %v: %s", err, clip(buffer.String()))
		}
		expected := &J{K: "obj"}
		if x.t.Kind == mm.Class {
			expected.add("kind", jStr(x.t.GoName()))
		}
		expected.add(x.a.JSONName(), o.JDoc(x.a.Type, true, c.V, false))
		if d := DiffJ("", expected, j); d != "" {
			f.Failf("the JSON representation isn't correct: %s: %s", d, clip(buffer.String()))
		}
		// Read:
		out = Call(x.e.Pkg.Sym("Unmarshal"+x.t.GoName()), buffer.String())
		if err := Err(out); err != nil {
			f.Failf("can't read what was written: %v: %s", err, clip(buffer.String()))
		}
		verify("read", out[0], c.V.Wire())
		f.R.Case("foreign"+key(c), true, "links to other versions")
		return
	}
	f.R.Case("unknown", false)
}
