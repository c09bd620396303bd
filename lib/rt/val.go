package rt

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"vlib/mm"

	"pgregory.net/rapid"
)

// Date is a date.
type Date struct {
	Sec  int64
	Nsec int64 `json:",omitempty"`
	Off  int   `json:",omitempty"` // Minutes.
}

func (d *Date) time() time.Time {
	loc := time.UTC
	if d.Off != 0 {
		loc = time.FixedZone("", d.Off*60)
	}
	return time.Unix(d.Sec, d.Nsec).In(loc)
}

// Val is a value of some type of the model.
type Val struct {
	B      bool            `json:",omitempty"`
	I      int64           `json:",omitempty"`
	F      float64         `json:",omitempty"`
	S      string          `json:",omitempty"`
	T      *Date           `json:",omitempty"`
	X      interface{}     `json:",omitempty"`
	ID     *string         `json:",omitempty"`
	HREF   *string         `json:",omitempty"`
	Link   bool            `json:",omitempty"`
	Fields map[string]*Val `json:",omitempty"`
	Items  []*Val          `json:",omitempty"`
	Keys   []string        `json:",omitempty"`
}

var stringPieces = []string{
	"", "a", "b", "xyz", " ", "\"", "\\", "/", "<", ">", "&", "\n", "\t", "\r", "\x00", "\x1f", "\x7f", "ñ", "日本", "😀",
	"\u2028", "\u2029", "{}", "[", "null", "true", "0", ":", ",", "%", "%d", "\b", "\f", "\u00a0", "\ufeff", "'", "`", "$",
	"?", "=", "&", "#", "+", ";",
}

// GenString generates a string.
func GenString(t *rapid.T, label string) string {
	if rapid.IntRange(0, 79).Draw(t, label+"Long") == 79 {
		// Longer than the buffers used to read and write:
		piece := rapid.SampledFrom([]string{"x", "0123456789", "日本", "\"\\", "\n"}).Draw(t, label+"LongPiece")
		n := rapid.SampledFrom([]int{511, 512, 4095, 4096, 4097, 5000, 65535, 70000}).Draw(t, label+"LongLen")
		return strings.Repeat(piece, n/len(piece)+1)
	}
	switch rapid.IntRange(0, 5).Draw(t, label+"Form") {
	case 0:
		return ""
	case 1, 2:
		return rapid.SampledFrom([]string{"a", "mycluster", "123", "us-east-1", "x y"}).Draw(t, label+"Plain")
	case 3:
		return strings.ToValidUTF8(rapid.StringN(0, 8, 32).Draw(t, label+"Any"), "?")
	case 4:
		n := rapid.IntRange(1, 3).Draw(t, label+"Len")
		return strings.Repeat(rapid.SampledFrom(stringPieces).Draw(t, label+"Rep"), n*n*30)
	}
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(stringPieces), 1, 4).Draw(t, label+"Pieces"), "")
}

var ints = []int64{
	0, 1, -1, 7, 10, 42, 100, 255, 1 << 31, -(1 << 31), 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1,
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, -9999999999,
}

func genInt(t *rapid.T, label string) int64 {
	if rapid.Bool().Draw(t, label+"Special") {
		return rapid.SampledFrom(ints).Draw(t, label+"Int")
	}
	return rapid.Int64().Draw(t, label+"Any")
}

var floats = []float64{
	0, 1, -1, 0.5, -0.5, 0.1, 3.14, 1e3, 1e6, 1e20, 1e21, 1e22, 1e100, -1e-7, 1e-6, 1e-7, 1e-100, 123456.789,
	1.0 / 3, 2.0 / 3, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 9007199254740993, 0.30000000000000004,
	math.Pi, math.MaxInt64, 1234567.1234567,
}

func genFloat(t *rapid.T, label string) float64 {
	if rapid.Bool().Draw(t, label+"Special") {
		return rapid.SampledFrom(floats).Draw(t, label+"Float")
	}
	f := rapid.Float64().Draw(t, label+"Any")
	if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
		return 0
	}
	return f
}

func genDate(t *rapid.T, label string) *Date {
	d := &Date{}
	switch rapid.IntRange(0, 3).Draw(t, label+"Form") {
	case 0:
		d.Sec = rapid.SampledFrom([]int64{0, 1, 1700000000, 951782399, 951782400, -1, -62135596800, 253402300799, 1583020800}).Draw(t, label+"Special")
	default:
		d.Sec = rapid.Int64Range(-62135510400, 253402214399).Draw(t, label+"Sec")
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"Nsec") {
	case 1:
		d.Nsec = rapid.SampledFrom([]int64{1, 500000000, 999999999, 123456789, 1000000}).Draw(t, label+"NsecV")
	}
	switch rapid.IntRange(0, 2).Draw(t, label+"Off") {
	case 1:
		if d.Sec > -62135500000 && d.Sec < 253402200000 {
			d.Off = rapid.SampledFrom([]int{60, -60, 330, -210, 840, -720, 1, 845}).Draw(t, label+"OffV")
		}
	}
	return d
}

// genAny generates a value for interface types.
func genAny(t *rapid.T, label string, depth int) interface{} {
	max := 6
	if depth <= 0 {
		max = 4
	}
	switch rapid.IntRange(0, max).Draw(t, label+"Any") {
	case 0:
		return GenString(t, label+"Str")
	case 1:
		return genFloat(t, label+"Num")
	case 2:
		return rapid.Bool().Draw(t, label+"Bool")
	case 3:
		return nil
	case 4:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, label+"Int"))
	case 5:
		n := rapid.IntRange(0, 3).Draw(t, label+"Len")
		r := []interface{}{}
		for i := 0; i < n; i++ {
			r = append(r, genAny(t, label, depth-1))
		}
		return r
	}
	n := rapid.IntRange(0, 3).Draw(t, label+"Len")
	r := map[string]interface{}{}
	for i := 0; i < n; i++ {
		r[GenString(t, label+"Key")] = genAny(t, label, depth-1)
	}
	return r
}

func (e *Env) genScalar(t *rapid.T, label string, id mm.Ident) *Val {
	if typ := e.V.Find(id); typ != nil {
		if len(typ.Values) > 0 && rapid.IntRange(0, 3).Draw(t, label+"Known") != 0 {
			return &Val{S: rapid.SampledFrom(typ.Values).Draw(t, label+"Value").JSONName()}
		}
		return &Val{S: GenString(t, label)}
	}
	switch id.Snake() {
	case "boolean":
		return &Val{B: rapid.Bool().Draw(t, label)}
	case "integer", "long":
		return &Val{I: genInt(t, label)}
	case "float":
		return &Val{F: genFloat(t, label)}
	case "string":
		return &Val{S: GenString(t, label)}
	case "date":
		return &Val{T: genDate(t, label)}
	}
	return &Val{X: genAny(t, label, 2)}
}

// GenStruct generates a value of a struct type.
func (e *Env) GenStruct(t *rapid.T, label string, typ *mm.Type, depth int) *Val {
	v := &Val{Fields: map[string]*Val{}}
	if typ.Kind == mm.Class {
		v.Link = rapid.IntRange(0, 4).Draw(t, label+"Link") == 0
		if rapid.Bool().Draw(t, label+"HasID") {
			s := GenString(t, label+"ID")
			v.ID = &s
		}
		if rapid.Bool().Draw(t, label+"HasHREF") {
			s := GenString(t, label+"HREF")
			v.HREF = &s
		}
	}
	for _, a := range e.pickAttrs(t, label, typ, depth) {
		v.Fields[a.Name.Text()] = e.GenRef(t, label+"F", a.Type, depth-1)
	}
	return v
}

func (e *Env) pickAttrs(t *rapid.T, label string, typ *mm.Type, depth int) []*mm.Attr {
	if len(typ.Attrs) == 0 {
		return nil
	}
	// All of them, a few, or a random half:
	var picked []*mm.Attr
	ok := func(a *mm.Attr) bool { return depth > 0 || !e.isStruct(a.Type.Name) }
	switch mode := rapid.IntRange(0, 3).Draw(t, label+"Mode"); {
	case mode == 0 && depth >= 2:
		picked = typ.Attrs
	case mode == 1 && len(typ.Attrs) < 20:
		for _, a := range typ.Attrs {
			if rapid.Bool().Draw(t, label+"Has") {
				picked = append(picked, a)
			}
		}
	default:
		n := len(typ.Attrs)
		if n > 4 {
			n = 4
		}
		picked = rapid.SliceOfNDistinct(rapid.SampledFrom(typ.Attrs), 0, n, rapid.ID[*mm.Attr]).Draw(t, label+"Few")
	}
	var result []*mm.Attr
	for _, a := range picked {
		if ok(a) {
			result = append(result, a)
		}
	}
	return result
}

// genLen generates the length of a list or map.
func (e *Env) genLen(t *rapid.T, label string, r mm.Ref, depth int) int {
	n := rapid.IntRange(0, 19).Draw(t, label+"Len")
	switch {
	case n < 16:
		return n / 4
	case e.isStruct(r.Name) && depth > 0:
		return rapid.IntRange(4, 7).Draw(t, label+"LenMore")
	default:
		return rapid.IntRange(4, 40).Draw(t, label+"LenMany")
	}
}

// GenRef generates a value for a reference.
func (e *Env) GenRef(t *rapid.T, label string, r mm.Ref, depth int) *Val {
	elem := func() *Val {
		if e.isStruct(r.Name) {
			return e.GenStruct(t, label, e.V.Find(r.Name), depth)
		}
		return e.genScalar(t, label, r.Name)
	}
	switch r.Kind {
	case mm.List:
		v := &Val{Items: []*Val{}}
		for n := e.genLen(t, label, r, depth); n > 0; n-- {
			v.Items = append(v.Items, elem())
		}
		return v
	case mm.Map:
		v := &Val{Items: []*Val{}}
		used := map[string]bool{}
		for n := e.genLen(t, label, r, depth); n > 0; n-- {
			k := GenString(t, label+"Key")
			if used[k] {
				continue
			}
			used[k] = true
			v.Keys = append(v.Keys, k)
			v.Items = append(v.Items, elem())
		}
		return v
	}
	return elem()
}

// scalar converts a scalar value to the Go type.
func (e *Env) scalar(id mm.Ident, v *Val) reflect.Value {
	typ := e.scalarType(id)
	rv := reflect.New(typ).Elem()
	if e.V.Find(id) != nil {
		rv.SetString(v.S)
		return rv
	}
	switch id.Snake() {
	case "boolean":
		rv.SetBool(v.B)
	case "integer", "long":
		rv.SetInt(v.I)
	case "float":
		rv.SetFloat(v.F)
	case "string":
		rv.SetString(v.S)
	case "date":
		rv.Set(reflect.ValueOf(v.T.time()))
	default:
		if v.X != nil {
			rv.Set(reflect.ValueOf(deepCopy(v.X)))
		}
	}
	return rv
}

func deepCopy(x interface{}) interface{} {
	switch typed := x.(type) {
	case []interface{}:
		r := make([]interface{}, len(typed))
		for i, y := range typed {
			r[i] = deepCopy(y)
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, y := range typed {
			r[k] = deepCopy(y)
		}
		return r
	}
	return x
}

// Builder creates a builder that contains the given value.
func (e *Env) Builder(typ *mm.Type, v *Val) reflect.Value {
	b := Call(e.Pkg.Sym("New" + typ.GoName()))[0]
	if typ.Kind == mm.Class {
		if v.Link {
			CallM(b, "Link", true)
		}
		if v.ID != nil {
			CallM(b, "ID", *v.ID)
		}
		if v.HREF != nil {
			CallM(b, "HREF", *v.HREF)
		}
	}
	for _, a := range typ.Attrs {
		if fv := v.Fields[a.Name.Text()]; fv != nil {
			e.Set(b, a, fv)
		}
	}
	return b
}

// Set calls the setter of an attribute.
func (e *Env) Set(b reflect.Value, a *mm.Attr, v *Val) {
	CallM(b, a.GoName(), e.Arg(a.Type, a.Link, v))
}

// Arg creates the argument for the setter of an attribute.
func (e *Env) Arg(r mm.Ref, link bool, v *Val) reflect.Value {
	elem := func(x *Val) reflect.Value {
		if e.isStruct(r.Name) {
			return e.Builder(e.V.Find(r.Name), x)
		}
		return e.scalar(r.Name, x)
	}
	switch r.Kind {
	case mm.List:
		if link {
			return e.ListBuilder(e.V.Find(r.Name), v)
		}
		s := reflect.MakeSlice(e.BuilderType(r, false), 0, len(v.Items))
		for _, x := range v.Items {
			s = reflect.Append(s, elem(x))
		}
		return s
	case mm.Map:
		m := reflect.MakeMap(e.BuilderType(r, false))
		for i, x := range v.Items {
			m.SetMapIndex(reflect.ValueOf(v.Keys[i]), elem(x))
		}
		return m
	}
	return elem(v)
}

// ListBuilder creates a list builder.
func (e *Env) ListBuilder(typ *mm.Type, v *Val) reflect.Value {
	lb := Call(e.Pkg.Sym("New" + typ.GoName() + "List"))[0]
	s := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(e.Pkg.Type(typ.GoName()+"Builder"))), 0, len(v.Items))
	for _, x := range v.Items {
		s = reflect.Append(s, e.Builder(typ, x))
	}
	CallM(lb, "Items", s)
	return lb
}

// Build builds an object.
func (e *Env) Build(typ *mm.Type, v *Val) (reflect.Value, error) {
	out := CallM(e.Builder(typ, v), "Build")
	return out[0], Err(out)
}

// Value creates a value of a type, with lists and maps of objects. If wrapped is true lists of
// structs are list objects.
func (e *Env) Value(r mm.Ref, wrapped bool, v *Val) reflect.Value {
	elem := func(x *Val) reflect.Value {
		if e.isStruct(r.Name) {
			o, err := e.Build(e.V.Find(r.Name), x)
			if err != nil {
				panic(fmt.Sprintf("can't build object: %v", err))
			}
			return o
		}
		return e.scalar(r.Name, x)
	}
	switch r.Kind {
	case mm.List:
		if wrapped && e.isStruct(r.Name) {
			out := CallM(e.ListBuilder(e.V.Find(r.Name), v), "Build")
			if err := Err(out); err != nil {
				panic(fmt.Sprintf("can't build list: %v", err))
			}
			return out[0]
		}
		s := reflect.MakeSlice(e.ValueType(r, false), 0, len(v.Items))
		for _, x := range v.Items {
			s = reflect.Append(s, elem(x))
		}
		return s
	case mm.Map:
		m := reflect.MakeMap(e.ValueType(r, false))
		for i, x := range v.Items {
			m.SetMapIndex(reflect.ValueOf(v.Keys[i]), elem(x))
		}
		return m
	}
	return elem(v)
}

// Wire returns what remains of a value after it has been sent and received: dates lose the
// fractions of seconds.
func (v *Val) Wire() *Val {
	if v == nil {
		return nil
	}
	c := *v
	if v.T != nil {
		d := *v.T
		d.Nsec = 0
		c.T = &d
	}
	if v.Fields != nil {
		c.Fields = map[string]*Val{}
		for k, f := range v.Fields {
			c.Fields[k] = f.Wire()
		}
	}
	if v.Items != nil {
		c.Items = make([]*Val, len(v.Items))
		for i, x := range v.Items {
			c.Items[i] = x.Wire()
		}
	}
	return &c
}

// Diff compares a value with the actual one, using only the public methods of the generated types. It
// returns a description of the first difference.
func (e *Env) Diff(path string, r mm.Ref, wrapped bool, v *Val, actual reflect.Value) string {
	elem := func(path string, x *Val, a reflect.Value) string {
		if e.isStruct(r.Name) {
			return e.DiffStruct(path, e.V.Find(r.Name), x, a)
		}
		return e.diffScalar(path, r.Name, x, a)
	}
	switch r.Kind {
	case mm.List:
		if wrapped && e.isStruct(r.Name) {
			if actual.IsNil() {
				return fmt.Sprintf("%s: expected a list but got nil", path)
			}
			if n := int(CallM(actual, "Len")[0].Int()); n != len(v.Items) {
				return fmt.Sprintf("%s: expected %d items but got %d", path, len(v.Items), n)
			}
			for i, x := range v.Items {
				if d := elem(fmt.Sprintf("%s[%d]", path, i), x, CallM(actual, "Get", i)[0]); d != "" {
					return d
				}
			}
			return ""
		}
		if actual.Len() != len(v.Items) {
			return fmt.Sprintf("%s: expected %d items but got %d", path, len(v.Items), actual.Len())
		}
		for i, x := range v.Items {
			if d := elem(fmt.Sprintf("%s[%d]", path, i), x, actual.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case mm.Map:
		if actual.Len() != len(v.Items) {
			return fmt.Sprintf("%s: expected %d keys but got %d", path, len(v.Items), actual.Len())
		}
		for i, x := range v.Items {
			av := actual.MapIndex(reflect.ValueOf(v.Keys[i]))
			if !av.IsValid() {
				return fmt.Sprintf("%s: key %q is missing", path, v.Keys[i])
			}
			if d := elem(fmt.Sprintf("%s[%q]", path, v.Keys[i]), x, av); d != "" {
				return d
			}
		}
		return ""
	}
	return elem(path, v, actual)
}

func (e *Env) diffScalar(path string, id mm.Ident, v *Val, actual reflect.Value) string {
	if e.V.Find(id) == nil {
		switch id.Snake() {
		case "date":
			at := actual.Interface().(time.Time)
			et := v.T.time()
			_, eo := et.Zone()
			_, ao := at.Zone()
			if !at.Equal(et) || ao != eo {
				return fmt.Sprintf("%s: expected date %s but got %s", path, et.Format(time.RFC3339Nano), at.Format(time.RFC3339Nano))
			}
			return ""
		case "interface":
			var x interface{}
			if actual.Kind() == reflect.Interface && !actual.IsNil() {
				x = actual.Elem().Interface()
			} else if actual.Kind() != reflect.Interface {
				x = actual.Interface()
			}
			if !reflect.DeepEqual(norm(v.X), norm(x)) {
				return fmt.Sprintf("%s: expected %#v but got %#v", path, v.X, x)
			}
			return ""
		}
	}
	expected := e.scalar(id, v)
	if expected.Type() != actual.Type() {
		return fmt.Sprintf("%s: expected type %s but got %s", path, expected.Type(), actual.Type())
	}
	if !reflect.DeepEqual(expected.Interface(), actual.Interface()) {
		return fmt.Sprintf("%s: expected %#v but got %#v", path, expected.Interface(), actual.Interface())
	}
	return ""
}

// norm makes empty slices and maps of interface values comparable.
func norm(x interface{}) interface{} {
	switch typed := x.(type) {
	case []interface{}:
		r := make([]interface{}, len(typed))
		for i, y := range typed {
			r[i] = norm(y)
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, y := range typed {
			r[k] = norm(y)
		}
		return r
	}
	return x
}

// DiffStruct compares a struct.
func (e *Env) DiffStruct(path string, typ *mm.Type, v *Val, o reflect.Value) string {
	name := typ.GoName()
	if o.Kind() != reflect.Ptr || o.IsNil() {
		return fmt.Sprintf("%s: expected an object but got nil", path)
	}
	empty := len(v.Fields) == 0
	if typ.Kind == mm.Class {
		kind := name
		if v.Link {
			kind += "Link"
		}
		if k := CallM(o, "Kind")[0].String(); k != kind {
			return fmt.Sprintf("%s: expected kind '%s' but got '%s'", path, kind, k)
		}
		if l := CallM(o, "Link")[0].Bool(); l != v.Link {
			return fmt.Sprintf("%s: expected link flag %v but got %v", path, v.Link, l)
		}
		for _, x := range []struct {
			name string
			v    *string
		}{{"ID", v.ID}, {"HREF", v.HREF}} {
			expected := ""
			if x.v != nil {
				expected = *x.v
				empty = false
			}
			if s := CallM(o, x.name)[0].String(); s != expected {
				return fmt.Sprintf("%s.%s: expected %q but got %q", path, x.name, expected, s)
			}
			out := CallM(o, "Get"+x.name)
			if out[0].String() != expected || out[1].Bool() != (x.v != nil) {
				return fmt.Sprintf("%s.Get%s: expected %q, %v but got %q, %v", path, x.name, expected, x.v != nil, out[0].String(), out[1].Bool())
			}
		}
	}
	if b := CallM(o, "Empty")[0].Bool(); b != empty {
		return fmt.Sprintf("%s: expected empty flag %v but got %v", path, empty, b)
	}
	for _, a := range typ.Attrs {
		fv := v.Fields[a.Name.Text()]
		p := path + "." + a.GoName()
		value := CallM(o, a.GoName())[0]
		out := CallM(o, "Get"+a.GoName())
		if out[1].Bool() != (fv != nil) {
			return fmt.Sprintf("%s: expected presence %v but got %v", p, fv != nil, out[1].Bool())
		}
		if fv == nil {
			for _, x := range []reflect.Value{value, out[0]} {
				if !x.IsZero() {
					return fmt.Sprintf("%s: expected the zero value because it isn't set, but got %#v", p, x)
				}
			}
			continue
		}
		if d := e.Diff(p, a.Type, a.Link, fv, value); d != "" {
			return d
		}
		if d := e.Diff(path+".Get"+a.GoName(), a.Type, a.Link, fv, out[0]); d != "" {
			return d
		}
	}
	return ""
}

// Size is the number of values that are part of a value.
func (v *Val) Size() int {
	n := 1
	for _, f := range v.Fields {
		n += f.Size()
	}
	for _, x := range v.Items {
		n += x.Size()
	}
	return n
}

func sortedKeys(m map[string]*Val) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
