package rt

import (
	"bytes"
	"reflect"
	"strconv"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// BOp is an operation on builders.
type BOp struct {
	K    string
	B    int      // Builder.
	O    int      `json:",omitempty"` // Object.
	Attr string   `json:",omitempty"`
	V    *Val     `json:",omitempty"`
	Refs []int    `json:",omitempty"` // Other builders.
	Keys []string `json:",omitempty"`
	S    string   `json:",omitempty"`
	Flag bool     `json:",omitempty"`
}

// BCase is a history of operations on a set of builders.
type BCase struct {
	Dir   string
	Types []string // Types of the builders.
	Ops   []*BOp
}

func genBuilders(t *rapid.T) *BCase {
	e := pickEnv(t)
	main := pickStruct(t, e)
	c := &BCase{Dir: e.Dir}
	// Builders for the types used by the attributes go first, because builders can only contain
	// builders with lower index:
	for _, a := range main.Attrs {
		if e.isStruct(a.Type.Name) && len(c.Types) < 4 && rapid.Bool().Draw(t, "nested") {
			c.Types = append(c.Types, a.Type.Name.Text())
			if rapid.Bool().Draw(t, "two") {
				c.Types = append(c.Types, a.Type.Name.Text())
			}
		}
	}
	for n := rapid.IntRange(1, 2).Draw(t, "mains"); n > 0; n-- {
		c.Types = append(c.Types, main.Name.Text())
	}
	var objects []string
	scribbled := map[int]bool{}
	n := genCount(t, "ops", 1, 14, 40)
	for i := 0; i < n; i++ {
		b := rapid.IntRange(0, len(c.Types)-1).Draw(t, "builder")
		if rapid.Bool().Draw(t, "last") {
			b = len(c.Types) - 1
		}
		typ := e.typeByText(c.Types[b])
		op := &BOp{B: b}
		kind := rapid.IntRange(0, 11).Draw(t, "kind")
		switch {
		case kind <= 1 && typ.Kind == mm.Class:
			switch rapid.IntRange(0, 2).Draw(t, "builtin") {
			case 0:
				op.K, op.S = "id", GenString(t, "id")
			case 1:
				op.K, op.S = "href", GenString(t, "href")
			default:
				op.K, op.Flag = "link", rapid.Bool().Draw(t, "flag")
			}
		case kind <= 7 && len(typ.Attrs) > 0:
			a := rapid.SampledFrom(typ.Attrs).Draw(t, "attr")
			op.Attr = a.Name.Text()
			op.K = "set"
			var candidates []int
			for j := 0; j < b; j++ {
				if c.Types[j] == a.Type.Name.Text() {
					candidates = append(candidates, j)
				}
			}
			switch {
			case e.isStruct(a.Type.Name) && len(candidates) > 0 && rapid.IntRange(0, 3).Draw(t, "useRefs") != 0:
				op.K = "nest"
				switch a.Type.Kind {
				case mm.Plain:
					op.Refs = []int{rapid.SampledFrom(candidates).Draw(t, "ref")}
				case mm.List:
					op.Refs = rapid.SliceOfN(rapid.SampledFrom(candidates), 0, 3).Draw(t, "refs")
				default:
					op.Keys = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"", "a", "b", "my key"}), 0, 3, rapid.ID[string]).Draw(t, "keys")
					for range op.Keys {
						op.Refs = append(op.Refs, rapid.SampledFrom(candidates).Draw(t, "ref"))
					}
				}
			case (a.Type.Kind == mm.Map || e.isStruct(a.Type.Name) && a.Type.Kind == mm.Plain) && rapid.IntRange(0, 2).Draw(t, "unset") == 0:
				op.K = "unset"
			default:
				op.V = e.GenRef(t, "v", a.Type, 1)
			}
		case kind == 10 && len(objects) > 0 && rapid.Bool().Draw(t, "scribble"):
			op.K = "scribble"
			op.O = rapid.IntRange(0, len(objects)-1).Draw(t, "object")
			scribbled[op.O] = true
		case kind <= 9:
			op.K = "build"
			op.O = len(objects)
			objects = append(objects, c.Types[b])
		default:
			var candidates []int
			for j, o := range objects {
				if o == c.Types[b] && !scribbled[j] {
					candidates = append(candidates, j)
				}
			}
			if len(candidates) == 0 {
				op.K = "copynil"
			} else {
				op.K = "copy"
				op.O = rapid.SampledFrom(candidates).Draw(t, "object")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type setting struct {
	v    *Val
	refs []*bmodel
	keys []string
}

type bmodel struct {
	typ      *mm.Type
	id, href *string
	link     bool
	fields   map[string]*setting
}

// snapshot calculates the value that the builder should build.
func (m *bmodel) snapshot() *Val {
	v := &Val{ID: m.id, HREF: m.href, Link: m.link, Fields: map[string]*Val{}}
	for _, a := range m.typ.Attrs {
		s := m.fields[a.Name.Text()]
		if s == nil {
			continue
		}
		switch {
		case s.v != nil:
			v.Fields[a.Name.Text()] = s.v
		case a.Type.Kind == mm.Plain:
			v.Fields[a.Name.Text()] = s.refs[0].snapshot()
		default:
			l := &Val{Items: []*Val{}, Keys: s.keys}
			for _, r := range s.refs {
				l.Items = append(l.Items, r.snapshot())
			}
			v.Fields[a.Name.Text()] = l
		}
	}
	return v
}

func attrByText(typ *mm.Type, text string) *mm.Attr {
	for _, a := range typ.Attrs {
		if a.Name.Text() == text {
			return a
		}
	}
	panic("no attribute " + text)
}

func (e *Env) marshal(f *rec.F, typ *mm.Type, o reflect.Value) []byte {
	var b bytes.Buffer
	if err := Err(Call(e.Pkg.Sym("Marshal"+typ.GoName()), o, &b)); err != nil {
		f.Failf("can't marshal object of type '%s': %v", typ.Name.Text(), err)
	}
	return b.Bytes()
}

func checkBuilders(f *rec.F, c *BCase) {
	e := GetEnv(c.Dir)
	var builders []reflect.Value
	var models []*bmodel
	for _, t := range c.Types {
		typ := e.typeByText(t)
		builders = append(builders, Call(e.Pkg.Sym("New" + typ.GoName()))[0])
		models = append(models, &bmodel{typ: typ, fields: map[string]*setting{}})
	}
	type object struct {
		typ *mm.Type
		o   reflect.Value
		v   *Val
	}
	var objects []*object
	verify := func(when string, o *object) {
		if o.v == nil {
			return
		}
		if d := e.DiffStruct(o.typ.Name.Text(), o.typ, o.v, o.o); d != "" {
			f.Failf("%s: %s", when, d)
		}
	}
	builds, nests, copies := 0, 0, 0
	for i, op := range c.Ops {
		b, m := builders[op.B], models[op.B]
		chained := func(out []reflect.Value) {
			if out[0].Pointer() != b.Pointer() {
				f.Failf("operation %d: the setter doesn't return the builder", i)
			}
		}
		switch op.K {
		case "id":
			s := op.S
			m.id = &s
			chained(CallM(b, "ID", s))
		case "href":
			s := op.S
			m.href = &s
			chained(CallM(b, "HREF", s))
		case "link":
			m.link = op.Flag
			chained(CallM(b, "Link", op.Flag))
		case "set":
			a := attrByText(m.typ, op.Attr)
			arg := e.Arg(a.Type, a.Link, op.V)
			chained(CallM(b, a.GoName(), arg))
			m.fields[op.Attr] = &setting{v: op.V}
			if arg.Kind() == reflect.Slice {
				// The setter should have copied the slice:
				for j := 0; j < arg.Len(); j++ {
					arg.Index(j).Set(reflect.Zero(arg.Type().Elem()))
				}
			}
		case "nest":
			nests++
			a := attrByText(m.typ, op.Attr)
			s := &setting{keys: op.Keys}
			for _, r := range op.Refs {
				s.refs = append(s.refs, models[r])
			}
			m.fields[op.Attr] = s
			t := e.BuilderType(a.Type, a.Link)
			switch {
			case a.Type.Kind == mm.Plain:
				chained(CallM(b, a.GoName(), builders[op.Refs[0]]))
			case a.Type.Kind == mm.Map:
				arg := reflect.MakeMap(t)
				for j, r := range op.Refs {
					arg.SetMapIndex(reflect.ValueOf(op.Keys[j]), builders[r])
				}
				chained(CallM(b, a.GoName(), arg))
			default:
				slice := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(e.Pkg.Type(e.V.Find(a.Type.Name).GoName()+"Builder"))), 0, 0)
				for _, r := range op.Refs {
					slice = reflect.Append(slice, builders[r])
				}
				if a.Link {
					lb := Call(e.Pkg.Sym("New" + e.V.Find(a.Type.Name).GoName() + "List"))[0]
					CallM(lb, "Items", slice)
					chained(CallM(b, a.GoName(), lb))
				} else {
					chained(CallM(b, a.GoName(), slice))
				}
				for j := 0; j < slice.Len(); j++ {
					slice.Index(j).Set(reflect.Zero(slice.Type().Elem()))
				}
			}
		case "unset":
			a := attrByText(m.typ, op.Attr)
			chained(CallM(b, a.GoName(), reflect.Zero(e.BuilderType(a.Type, a.Link))))
			delete(m.fields, op.Attr)
		case "build":
			builds++
			out := CallM(b, "Build")
			if err := Err(out); err != nil {
				f.Failf("operation %d: can't build: %v", i, err)
			}
			o := &object{typ: m.typ, o: out[0], v: m.snapshot()}
			objects = append(objects, o)
			verify("just after building it, in operation "+itoa(i), o)
		case "scribble":
			// Changing the lists and maps of an object changes nothing else:
			e.scribble(objects[op.O].typ, objects[op.O].o)
			objects[op.O].v = nil
		case "copynil":
			out := CallM(b, "Copy", reflect.Zero(reflect.PointerTo(e.Pkg.Type(m.typ.GoName()))))
			chained(out)
		case "copy":
			copies++
			o := objects[op.O]
			chained(CallM(b, "Copy", o.o))
			m.id, m.href, m.link = o.v.ID, o.v.HREF, o.v.Link
			m.fields = map[string]*setting{}
			for k, v := range o.v.Fields {
				m.fields[k] = &setting{v: v}
			}
			// What is built now should be the same object:
			out := CallM(b, "Build")
			if err := Err(out); err != nil {
				f.Failf("operation %d: can't build: %v", i, err)
			}
			verify("a copy, in operation "+itoa(i), &object{typ: m.typ, o: out[0], v: o.v})
			if x, y := e.marshal(f, m.typ, o.o), e.marshal(f, m.typ, out[0]); !bytes.Equal(x, y) {
				// The order of the keys of values of interface type isn't defined, so the documents are
				// compared instead of the bytes:
				jx, errx := ParseJ(x)
				jy, erry := ParseJ(y)
				if errx != nil || erry != nil {
					f.Failf("operation %d: can't parse %s or %s", i, x, y)
				}
				if d := DiffJ("", jx, jy); d != "" {
					f.Failf("operation %d: the JSON representation of the copy is different: %s instead of %s: %s", i, y, x, d)
				}
			}
		}
		empty := m.id == nil && m.href == nil && len(m.fields) == 0
		if x := CallM(b, "Empty")[0].Bool(); x != empty {
			f.Failf("after operation %d (%s) the builder says that it is empty: %v", i, op.K, x)
		}
		if op.K != "build" {
			for j, o := range objects {
				verify("object "+itoa(j)+" changed in operation "+itoa(i)+" ("+op.K+")", o)
			}
		}
	}
	for i, b := range builders {
		out := CallM(b, "Build")
		if err := Err(out); err != nil {
			f.Failf("can't build at the end: %v", err)
		}
		verify("builder "+itoa(i)+" at the end", &object{typ: models[i].typ, o: out[0], v: models[i].snapshot()})
	}
	for j, o := range objects {
		verify("object "+itoa(j)+" at the end", o)
	}
	var classes []string
	if nests > 0 {
		classes = append(classes, "nested builders")
	}
	if copies > 0 {
		classes = append(classes, "copies")
	}
	if builds > 1 {
		classes = append(classes, "several objects")
	}
	nontrivial := len(c.Ops) > 3 && builds > 0
	f.R.Case(key(c), nontrivial, classes...)
	if nontrivial && f.R.WantSample() {
		f.R.Sample(c)
	}
}

// scribble changes the lists and maps that the getters of an object return, and those of the objects that it
// contains.
func (e *Env) scribble(typ *mm.Type, o reflect.Value) {
	if o.IsNil() {
		return
	}
	for _, a := range typ.Attrs {
		value := CallM(o, a.GoName())[0]
		if a.Link && a.Type.Kind == mm.List {
			if value.IsNil() {
				continue
			}
			value = CallM(value, "Items")[0]
		}
		elem := e.V.Find(a.Type.Name)
		isStruct := e.isStruct(a.Type.Name)
		switch {
		case value.Kind() == reflect.Slice && a.Type.Kind == mm.List:
			for i := 0; i < value.Len(); i++ {
				if isStruct {
					e.scribble(elem, value.Index(i))
				}
				value.Index(i).Set(reflect.Zero(value.Type().Elem()))
			}
		case value.Kind() == reflect.Map && a.Type.Kind == mm.Map:
			for _, k := range value.MapKeys() {
				if isStruct {
					e.scribble(elem, value.MapIndex(k))
				}
				value.SetMapIndex(k, reflect.Value{})
			}
			if !value.IsNil() {
				value.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(value.Type().Elem()))
			}
		case isStruct && a.Type.Kind == mm.Plain:
			e.scribble(elem, value)
		}
	}
}

// LBCase is a history for list builders.
type LBCase struct {
	Dir, Type string
	A, B      *Val
}

func init() {
	Sub("C10", "builders", 2500, 25000, genBuilders, checkBuilders)
	Sub("C10", "builders at the same time", 60, 1000, rec.GenTogether(genBuilders), rec.CheckTogether(checkBuilders)).Risky = true

	Sub("C10", "list builders", 150, 2500, func(t *rapid.T) *LBCase {
		e := pickEnv(t)
		typ := pickStruct(t, e)
		ref := mm.Ref{Kind: mm.List, Name: typ.Name}
		return &LBCase{Dir: e.Dir, Type: typ.Name.Text(), A: e.GenRef(t, "a", ref, 2), B: e.GenRef(t, "b", ref, 1)}
	}, func(f *rec.F, c *LBCase) {
		e := GetEnv(c.Dir)
		typ := e.typeByText(c.Type)
		ref := mm.Ref{Kind: mm.List, Name: typ.Name}
		build := func(lb reflect.Value) reflect.Value {
			out := CallM(lb, "Build")
			if err := Err(out); err != nil {
				f.Failf("can't build list: %v", err)
			}
			return out[0]
		}
		verify := func(when string, v *Val, l reflect.Value) {
			if d := e.Diff(c.Type+"List", ref, true, v, l); d != "" {
				f.Failf("%s: %s", when, d)
			}
		}
		lb := e.ListBuilder(typ, c.A)
		la := build(lb)
		verify("first list", c.A, la)
		// Reuse the builder for other items:
		items := reflect.MakeSlice(Method(lb, "Items").Type().In(0), 0, 0)
		var bs []reflect.Value
		for _, x := range c.B.Items {
			bs = append(bs, e.Builder(typ, x))
			items = reflect.Append(items, bs[len(bs)-1])
		}
		CallM(lb, "Items", items)
		l2 := build(lb)
		verify("second list", c.B, l2)
		verify("first list after reusing the builder", c.A, la)
		// Changing the item builders doesn't change the lists already built:
		if typ.Kind == mm.Class {
			for _, b := range bs {
				CallM(b, "ID", "changed")
			}
		}
		for _, b := range bs {
			CallM(b, "Copy", Call(e.Pkg.Sym("New" + typ.GoName()))[0].MethodByName("Build").Call(nil)[0])
		}
		verify("second list after changing the item builders", c.B, l2)
		// Copies:
		CallM(lb, "Copy", la)
		verify("copy of first list", c.A, build(lb))
		CallM(lb, "Copy", l2)
		verify("copy of second list", c.B, build(lb))
		verify("first list at the end", c.A, la)
		CallM(lb, "Copy", reflect.Zero(la.Type()))
		verify("copy of nil list", &Val{}, build(lb))
		f.R.Case("lb"+key(c), len(c.A.Items) > 0 && len(c.B.Items) > 0, "list builders")
	})
}

func itoa(n int) string { return strconv.Itoa(n) }
