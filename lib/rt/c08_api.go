package rt

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"time"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// APICase selects one declaration of a version.
type APICase struct {
	Dir  string
	Kind string // type, resource, version
	Name string
}

var (
	stringType    = reflect.TypeOf("")
	boolType      = reflect.TypeOf(false)
	intType       = reflect.TypeOf(0)
	errorType     = reflect.TypeOf((*error)(nil)).Elem()
	writerType    = reflect.TypeOf((*io.Writer)(nil)).Elem()
	ctxType       = reflect.TypeOf((*context.Context)(nil)).Elem()
	transportType = reflect.TypeOf((*http.RoundTripper)(nil)).Elem()
	headerType    = reflect.TypeOf(http.Header{})
	durationType  = reflect.TypeOf(time.Duration(0))
)

type types []reflect.Type

func wantFn(f *rec.F, what string, actual reflect.Type, in, out types, variadic bool) {
	expected := reflect.FuncOf(in, out, variadic)
	if actual != expected {
		f.Failf("the type of %s should be %s but it is %s", what, expected, actual)
	}
}

func (e *Env) wantFunc(f *rec.F, name string, in, out types) {
	wantFn(f, fmt.Sprintf("function '%s' of package '%s'", name, e.Dir), e.Pkg.Sym(name).Type(), in, out, false)
}

func wantMethod(f *rec.F, t reflect.Type, name string, in, out types, variadic bool) {
	m, ok := t.MethodByName(name)
	if !ok {
		f.Failf("type '%s' doesn't have the method '%s'", t, name)
	}
	wantFn(f, fmt.Sprintf("method '%s' of '%s'", name, t), m.Type, append(types{t}, in...), out, variadic)
}

// clientName is the name of the client of a resource.
func clientName(r *mm.Resource) string {
	if r.Name.Text() == "Root" {
		return "Client"
	}
	return r.GoName() + "Client"
}

// requestBase is the prefix of the names of the request and response types of a method.
func requestBase(r *mm.Resource, m *mm.Method) string {
	if r.Name.Text() == "Root" {
		return m.GoName()
	}
	return r.GoName() + m.GoName()
}

func avoid(name string, builtins ...string) string {
	for _, b := range builtins {
		if b == name {
			return name + "_"
		}
	}
	return name
}

func setterName(p *mm.Param) string {
	return avoid(p.GoName(), "Header", "Impersonate", "Parameter", "Send", "SendContext")
}

func getterName(p *mm.Param) string { return avoid(p.GoName(), "Error", "Header", "Status") }

func pollSetterName(p *mm.Param) string {
	return avoid(setterName(p), "Interval", "Predicate", "StartContext", "Status")
}

// isItems says if lists of structs of the parameter are wrapped by list objects.
func isItems(p *mm.Param) bool { return p.Name.Snake() == "items" }

func ptr(t reflect.Type) reflect.Type { return reflect.PointerTo(t) }

func init() {
	Sub("C08", "api", 120, 600, func(t *rapid.T) *APICase {
		e := pickEnv(t)
		c := &APICase{Dir: e.Dir}
		i := rapid.IntRange(0, len(e.V.Types)+len(e.V.Resources)).Draw(t, "decl")
		switch {
		case i < len(e.V.Types):
			c.Kind, c.Name = "type", e.V.Types[i].Name.Text()
		case i < len(e.V.Types)+len(e.V.Resources):
			c.Kind, c.Name = "resource", e.V.Resources[i-len(e.V.Types)].Name.Text()
		default:
			c.Kind = "version"
		}
		return c
	}, func(f *rec.F, c *APICase) {
		e := GetEnv(c.Dir)
		n := 0
		switch c.Kind {
		case "type":
			typ := e.typeByText(c.Name)
			n = len(typ.Attrs) + len(typ.Values)
			if typ.Kind == mm.Enum {
				e.enumAPI(f, typ)
			} else {
				e.structAPI(f, typ)
			}
		case "resource":
			var r *mm.Resource
			for _, x := range e.V.Resources {
				if x.Name.Text() == c.Name {
					r = x
				}
			}
			n = len(r.Methods) + len(r.Locators)
			e.resourceAPI(f, r)
		default:
			n = 2
			e.versionAPI(f)
		}
		f.R.Case(key(c), n > 1, c.Kind)
		if f.R.WantSample() && n > 1 {
			f.R.Sample(c)
		}
	})
}

func (e *Env) enumAPI(f *rec.F, typ *mm.Type) {
	t := e.Pkg.Type(typ.GoName())
	if t.Kind() != reflect.String {
		f.Failf("enumerated type '%s' isn't a string", t)
	}
	for _, v := range typ.Values {
		name := typ.GoName() + v.GoName()
		s := e.Pkg.Sym(name)
		if s.Type() != t {
			f.Failf("the type of constant '%s' is '%s', but it should be '%s'", name, s.Type(), t)
		}
		if s.String() != v.JSONName() {
			f.Failf("the value of constant '%s' is '%s', but it should be '%s'", name, s.String(), v.JSONName())
		}
	}
}

func (e *Env) structAPI(f *rec.F, typ *mm.Type) {
	name := typ.GoName()
	camel := typ.Name.Camel()
	o := ptr(e.Pkg.Type(name))
	l := ptr(e.Pkg.Type(name + "List"))
	b := ptr(e.Pkg.Type(name + "Builder"))
	lb := ptr(e.Pkg.Type(name + "ListBuilder"))
	if typ.Kind == mm.Class {
		wantMethod(f, o, "Kind", nil, types{stringType}, false)
		wantMethod(f, o, "Link", nil, types{boolType}, false)
		wantMethod(f, o, "ID", nil, types{stringType}, false)
		wantMethod(f, o, "GetID", nil, types{stringType, boolType}, false)
		wantMethod(f, o, "HREF", nil, types{stringType}, false)
		wantMethod(f, o, "GetHREF", nil, types{stringType, boolType}, false)
		wantMethod(f, b, "Link", types{boolType}, types{b}, false)
		wantMethod(f, b, "ID", types{stringType}, types{b}, false)
		wantMethod(f, b, "HREF", types{stringType}, types{b}, false)
		wantMethod(f, l, "Kind", nil, types{stringType}, false)
		wantMethod(f, l, "Link", nil, types{boolType}, false)
		wantMethod(f, l, "HREF", nil, types{stringType}, false)
		wantMethod(f, l, "GetHREF", nil, types{stringType, boolType}, false)
	}
	for _, x := range []reflect.Type{o, l, b, lb} {
		wantMethod(f, x, "Empty", nil, types{boolType}, false)
	}
	for _, a := range typ.Attrs {
		t := e.ValueType(a.Type, a.Link)
		wantMethod(f, o, a.GoName(), nil, types{t}, false)
		wantMethod(f, o, "Get"+a.GoName(), nil, types{t, boolType}, false)
		wantMethod(f, b, a.GoName(), types{e.BuilderType(a.Type, a.Link)}, types{b}, a.Type.Kind == mm.List && !a.Link)
	}
	slice := reflect.SliceOf(o)
	wantMethod(f, b, "Copy", types{o}, types{b}, false)
	wantMethod(f, b, "Build", nil, types{o, errorType}, false)
	wantMethod(f, lb, "Items", types{reflect.SliceOf(b)}, types{lb}, true)
	wantMethod(f, lb, "Copy", types{l}, types{lb}, false)
	wantMethod(f, lb, "Build", nil, types{l, errorType}, false)
	wantMethod(f, l, "Len", nil, types{intType}, false)
	wantMethod(f, l, "Get", types{intType}, types{o}, false)
	wantMethod(f, l, "Items", nil, types{slice}, false)
	wantMethod(f, l, "Slice", nil, types{slice}, false)
	wantMethod(f, l, "Each", types{reflect.FuncOf(types{o}, types{boolType}, false)}, nil, false)
	wantMethod(f, l, "Range", types{reflect.FuncOf(types{intType, o}, types{boolType}, false)}, nil, false)
	e.wantFunc(f, "New"+name, nil, types{b})
	e.wantFunc(f, "New"+name+"List", nil, types{lb})
	e.wantFunc(f, "Marshal"+name, types{o, writerType}, types{errorType})
	e.wantFunc(f, "Unmarshal"+name, types{ifaceType}, types{o, errorType})
	e.wantFunc(f, "Marshal"+camel+"List", types{slice, writerType}, types{errorType})
	e.wantFunc(f, "Unmarshal"+camel+"List", types{ifaceType}, types{slice, errorType})
}

func (e *Env) resourceAPI(f *rec.F, r *mm.Resource) {
	cl := ptr(e.Pkg.Type(clientName(r)))
	errType := ptr(Pkgs["errors"].Type("Error"))
	e.wantFunc(f, "New"+clientName(r), types{transportType, stringType}, types{cl})
	for _, l := range r.Locators {
		target := ptr(e.Pkg.Type(clientName(e.V.FindResource(l.Target))))
		var in types
		if l.IsVar() {
			in = types{stringType}
		}
		wantMethod(f, cl, l.GoName(), in, types{target}, false)
	}
	response := func(t reflect.Type, m *mm.Method) {
		wantMethod(f, t, "Status", nil, types{intType}, false)
		wantMethod(f, t, "Header", nil, types{headerType}, false)
		wantMethod(f, t, "Error", nil, types{errType}, false)
		for _, p := range m.Params {
			if p.IsOut() {
				pt := e.ValueType(p.Type, isItems(p))
				wantMethod(f, t, getterName(p), nil, types{pt}, false)
				wantMethod(f, t, "Get"+getterName(p), nil, types{pt, boolType}, false)
			}
		}
	}
	for _, m := range r.Methods {
		req := ptr(e.Pkg.Type(requestBase(r, m) + "Request"))
		res := ptr(e.Pkg.Type(requestBase(r, m) + "Response"))
		wantMethod(f, cl, m.GoName(), nil, types{req}, false)
		wantMethod(f, req, "Parameter", types{stringType, ifaceType}, types{req}, false)
		wantMethod(f, req, "Header", types{stringType, ifaceType}, types{req}, false)
		wantMethod(f, req, "Impersonate", types{stringType}, types{req}, false)
		wantMethod(f, req, "Send", nil, types{res, errorType}, false)
		wantMethod(f, req, "SendContext", types{ctxType}, types{res, errorType}, false)
		for _, p := range m.Params {
			if p.In {
				wantMethod(f, req, setterName(p), types{e.ValueType(p.Type, isItems(p))}, types{req}, false)
			}
		}
		response(res, m)
		if m.Name.Text() == "Get" && r.Name.Text() != "Root" {
			preq := ptr(e.Pkg.Type(r.GoName() + "PollRequest"))
			pres := ptr(e.Pkg.Type(r.GoName() + "PollResponse"))
			wantMethod(f, cl, "Poll", nil, types{preq}, false)
			wantMethod(f, preq, "Parameter", types{stringType, ifaceType}, types{preq}, false)
			wantMethod(f, preq, "Header", types{stringType, ifaceType}, types{preq}, false)
			wantMethod(f, preq, "Interval", types{durationType}, types{preq}, false)
			wantMethod(f, preq, "Status", types{intType}, types{preq}, false)
			wantMethod(f, preq, "Predicate", types{reflect.FuncOf(types{res}, types{boolType}, false)}, types{preq}, false)
			wantMethod(f, preq, "StartContext", types{ctxType}, types{pres, errorType}, false)
			for _, p := range m.Params {
				if p.In {
					wantMethod(f, preq, pollSetterName(p), types{e.ValueType(p.Type, isItems(p))}, types{preq}, false)
				}
			}
			response(pres, m)
		}
	}
}

func (e *Env) versionAPI(f *rec.F) {
	for _, x := range e.V.Errors {
		name := x.Name.Camel() + "Error"
		s := e.Pkg.Sym(name)
		if s.Kind() != reflect.Int || int(s.Int()) != x.Code {
			f.Failf("the value of constant '%s' is %v, but it should be %d", name, s, x.Code)
		}
	}
	svc := Pkgs[filepathDir(e.Dir)]
	if svc == nil {
		f.Failf("there is no package for service '%s'", e.S.Name)
	}
	cl := ptr(svc.Type("Client"))
	wantFn(f, "function NewClient of service "+e.S.Name, svc.Sym("NewClient").Type(), types{transportType, stringType}, types{cl}, false)
	wantMethod(f, cl, versionName(e.V), nil, types{ptr(e.Pkg.Type("Client"))}, false)
	root := ptr(e.Pkg.Type("Client"))
	mreq := ptr(e.Pkg.Type("MetadataRequest"))
	mres := ptr(e.Pkg.Type("MetadataResponse"))
	md := ptr(e.Pkg.Type("Metadata"))
	wantMethod(f, root, "Get", nil, types{mreq}, false)
	wantMethod(f, mreq, "Send", nil, types{mres, errorType}, false)
	wantMethod(f, mreq, "SendContext", types{ctxType}, types{mres, errorType}, false)
	wantMethod(f, mres, "Body", nil, types{md}, false)
	wantMethod(f, md, "ServerVersion", nil, types{stringType}, false)
	wantMethod(f, md, "GetServerVersion", nil, types{stringType, boolType}, false)
	e.wantFunc(f, "MarshalMetadata", types{md, writerType}, types{errorType})
	e.wantFunc(f, "UnmarshalMetadata", types{ifaceType}, types{md, errorType})
	if s := e.Pkg.Sym("OpenAPI"); s.Type() != reflect.TypeOf([]byte{}) {
		f.Failf("the type of OpenAPI is '%s'", s.Type())
	}
}

func versionName(v *mm.Version) string { return mm.Id(v.Name).Camel() }

func filepathDir(dir string) string {
	for i := len(dir) - 1; i >= 0; i-- {
		if dir[i] == '/' {
			return dir[:i]
		}
	}
	return ""
}
