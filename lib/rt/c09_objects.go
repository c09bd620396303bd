package rt

import (
	"encoding/json"
	"fmt"
	"reflect"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// ObjCase is an object of some type.
type ObjCase struct {
	Dir  string
	Type string
	V    *Val
	Seed uint64 `json:",omitempty"`
	Stop int    `json:",omitempty"`
	S    string `json:",omitempty"`
}

func key(c interface{}) string {
	data, _ := json.Marshal(c)
	return string(data)
}

func genObj(t *rapid.T) *ObjCase {
	e := pickEnv(t)
	typ := pickStruct(t, e)
	return &ObjCase{Dir: e.Dir, Type: typ.Name.Text(), V: e.GenStruct(t, "v", typ, rapid.SampledFrom([]int{3, 1, 2}).Draw(t, "depth"))}
}

func objClasses(typ *mm.Type, v *Val) []string {
	var classes []string
	classes = append(classes, string(typ.Kind))
	if len(typ.Attrs) > 29 {
		classes = append(classes, "wide bitmap")
	}
	for _, a := range typ.Attrs {
		if v.Fields[a.Name.Text()] == nil {
			continue
		}
		kind := [...]string{"", "list of ", "map of "}[a.Type.Kind]
		if a.Link {
			kind = "link " + kind
		}
		classes = append(classes, "attribute "+kind+a.Type.Name.Snake())
	}
	for i, c := range classes {
		if len(c) > 10 && c[:10] == "attribute " {
			classes[i] = shorten(c)
		}
	}
	return classes
}

func shorten(c string) string {
	for s := range mm.Scalars {
		if len(c) > len(s) && c[len(c)-len(s)-1:] == " "+s {
			return c
		}
	}
	// Declared types:
	i := len(c) - 1
	for i > 0 && c[i] != ' ' {
		i--
	}
	return c[:i] + " declared type"
}

func init() {
	Sub("C09", "accessors", 700, 12000, genObj, func(f *rec.F, c *ObjCase) {
		e := GetEnv(c.Dir)
		typ := e.typeByText(c.Type)
		o, err := e.Build(typ, c.V)
		if err != nil {
			f.Failf("can't build object of type '%s': %v", c.Type, err)
		}
		if d := e.DiffStruct(c.Type, typ, c.V, o); d != "" {
			f.Failf("object doesn't contain what was put in it: %s", d)
		}
		f.R.Case(key(c), len(c.V.Fields) > 1, objClasses(typ, c.V)...)
		if f.R.WantSample() && len(c.V.Fields) > 1 {
			f.R.Sample(c)
		}
	})

	Sub("C09", "nil objects and lists", 60, 400, func(t *rapid.T) *ObjCase {
		e := pickEnv(t)
		return &ObjCase{Dir: e.Dir, Type: pickStruct(t, e).Name.Text(), Stop: rapid.IntRange(-3, 3).Draw(t, "index")}
	}, func(f *rec.F, c *ObjCase) {
		e := GetEnv(c.Dir)
		typ := e.typeByText(c.Type)
		name := typ.GoName()
		o := reflect.Zero(reflect.PointerTo(e.Pkg.Type(name)))
		l := reflect.Zero(reflect.PointerTo(e.Pkg.Type(name + "List")))
		zero := func(v reflect.Value, method string, args ...interface{}) {
			for _, out := range CallM(v, method, args...) {
				if !out.IsZero() {
					f.Failf("%s.%s of a nil returns %v", v.Type(), method, out)
				}
			}
		}
		if typ.Kind == mm.Class {
			for _, s := range []string{"Kind", "LinkKind", "NilKind", "ListKind", "ListLinkKind", "ListNilKind"} {
				expected := name + s[:len(s)-4]
				if v := e.Pkg.Sym(name + s).String(); v != expected {
					f.Failf("constant %s%s is '%s' but it should be '%s'", name, s, v, expected)
				}
			}
			if k := CallM(o, "Kind")[0].String(); k != name+"Nil" {
				f.Failf("kind of nil object is '%s'", k)
			}
			if k := CallM(l, "Kind")[0].String(); k != name+"ListNil" {
				f.Failf("kind of nil list is '%s'", k)
			}
			for _, m := range []string{"Link", "ID", "GetID", "HREF", "GetHREF"} {
				zero(o, m)
			}
			for _, m := range []string{"Link", "HREF", "GetHREF"} {
				zero(l, m)
			}
		}
		for _, a := range typ.Attrs {
			zero(o, a.GoName())
			zero(o, "Get"+a.GoName())
		}
		for _, v := range []reflect.Value{o, l, reflect.Zero(reflect.PointerTo(e.Pkg.Type(name + "Builder"))),
			reflect.Zero(reflect.PointerTo(e.Pkg.Type(name + "ListBuilder")))} {
			if !CallM(v, "Empty")[0].Bool() {
				f.Failf("nil %s isn't empty", v.Type())
			}
		}
		zero(l, "Len")
		zero(l, "Items")
		zero(l, "Get", c.Stop)
		if s := CallM(l, "Slice")[0]; s.Len() != 0 {
			f.Failf("slice of nil list isn't empty")
		}
		for _, m := range []string{"Each", "Range"} {
			fn := Method(l, m)
			cb := reflect.MakeFunc(fn.Type().In(0), func(args []reflect.Value) []reflect.Value {
				f.Failf("%s of nil list calls the function", m)
				return nil
			})
			Call(fn, cb)
		}
		f.R.Case("nil"+key(c), len(typ.Attrs) > 1, "nil")
	})

	Sub("C09", "lists", 150, 3000, func(t *rapid.T) *ObjCase {
		e := pickEnv(t)
		typ := pickStruct(t, e)
		v := &Val{}
		for n := rapid.IntRange(0, 5).Draw(t, "len"); n > 0; n-- {
			v.Items = append(v.Items, e.GenStruct(t, "v", typ, 1))
		}
		c := &ObjCase{Dir: e.Dir, Type: typ.Name.Text(), V: v, Stop: rapid.IntRange(0, 6).Draw(t, "stop")}
		c.S = GenString(t, "href")
		return c
	}, checkList)
}

func checkList(f *rec.F, c *ObjCase) {
	e := GetEnv(c.Dir)
	typ := e.typeByText(c.Type)
	name := typ.GoName()
	ref := mm.Ref{Kind: mm.List, Name: typ.Name}
	n := len(c.V.Items)
	lb := e.ListBuilder(typ, c.V)
	if b := CallM(lb, "Empty")[0].Bool(); b != (n == 0) {
		f.Failf("list builder with %d items says that it is empty: %v", n, b)
	}
	out := CallM(lb, "Build")
	if err := Err(out); err != nil {
		f.Failf("can't build list: %v", err)
	}
	l := out[0]
	check := func(when string) {
		if d := e.Diff(c.Type+"List", ref, true, c.V, l); d != "" {
			f.Failf("%s: %s", when, d)
		}
		if b := CallM(l, "Empty")[0].Bool(); b != (n == 0) {
			f.Failf("%s: list with %d items says that it is empty: %v", when, n, b)
		}
		items := CallM(l, "Items")[0]
		slice := CallM(l, "Slice")[0]
		if items.Len() != n || slice.Len() != n {
			f.Failf("%s: list with %d items returns %d items and a slice of %d", when, n, items.Len(), slice.Len())
		}
		for i := -2; i < n+3; i++ {
			item := CallM(l, "Get", i)[0]
			if i < 0 || i >= n {
				if !item.IsNil() {
					f.Failf("%s: item %d of list with %d items isn't nil", when, i, n)
				}
				continue
			}
			if items.Index(i).Pointer() != item.Pointer() || slice.Index(i).Pointer() != item.Pointer() {
				f.Failf("%s: item %d of the list is different in Get, Items and Slice", when, i)
			}
		}
		for _, m := range []string{"Each", "Range"} {
			fn := Method(l, m)
			calls := 0
			msg := ""
			cb := reflect.MakeFunc(fn.Type().In(0), func(args []reflect.Value) []reflect.Value {
				item := args[len(args)-1]
				if calls >= n || item.Pointer() != items.Index(calls).Pointer() {
					msg = fmt.Sprintf("%s: call %d of %s receives a wrong item", when, calls, m)
				}
				if m == "Range" && int(args[0].Int()) != calls {
					msg = fmt.Sprintf("%s: call %d of Range receives index %d", when, calls, args[0].Int())
				}
				calls++
				return []reflect.Value{reflect.ValueOf(calls != c.Stop)}
			})
			Call(fn, cb)
			if msg != "" {
				f.Failf("%s", msg)
			}
			expected := n
			if c.Stop > 0 && c.Stop < n {
				expected = c.Stop
			}
			if calls != expected {
				f.Failf("%s: %s of list with %d items made %d calls, but the function asked to stop at %d", when, m, n, calls, c.Stop)
			}
		}
	}
	check("after building the list")

	// The slice is a copy:
	slice := CallM(l, "Slice")[0]
	for i := 0; i < slice.Len(); i++ {
		slice.Index(i).Set(reflect.Zero(slice.Type().Elem()))
	}
	check("after changing the slice")

	// Setters:
	flags := func(link bool, href string) {
		if typ.Kind != mm.Class {
			return
		}
		kind := name + "List"
		if link {
			kind += "Link"
		}
		if k := CallM(l, "Kind")[0].String(); k != kind {
			f.Failf("kind of list is '%s' but should be '%s'", k, kind)
		}
		if b := CallM(l, "Link")[0].Bool(); b != link {
			f.Failf("link flag of list is %v but should be %v", b, link)
		}
		if s := CallM(l, "HREF")[0].String(); s != href {
			f.Failf("link of list is %q but should be %q", s, href)
		}
		out := CallM(l, "GetHREF")
		if out[0].String() != href || out[1].Bool() != (href != "") {
			f.Failf("GetHREF of list with link %q returns %q, %v", href, out[0].String(), out[1].Bool())
		}
	}
	flags(false, "")
	CallM(l, "SetLink", true)
	flags(true, "")
	CallM(l, "SetHREF", c.S)
	flags(true, c.S)
	CallM(l, "SetLink", false)
	flags(false, c.S)
	check("after changing the flags")

	// Replace the items with the same ones in the opposite order:
	items := CallM(l, "Items")[0]
	other := reflect.MakeSlice(items.Type(), n, n)
	reversed := &Val{}
	for i := 0; i < n; i++ {
		other.Index(i).Set(items.Index(n - 1 - i))
		reversed.Items = append(reversed.Items, c.V.Items[n-1-i])
	}
	CallM(l, "SetItems", other)
	c2 := *c
	c2.V = reversed
	orig := c
	c = &c2
	check("after replacing the items")
	flags(false, c.S)
	f.R.Case("list"+key(orig), n > 1, "list of "+string(typ.Kind))
}
