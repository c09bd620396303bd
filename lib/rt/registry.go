// Package rt runs inside programs that contain the Go code generated for a random model, and checks
// that it behaves as the model says. It finds the generated code via reflection, using names that are
// calculated from the model by package mm, so nothing here depends on how the code is generated.
package rt

import (
	"fmt"
	"reflect"
	"sort"
	"time"

	"vlib/mm"
)

// Pkg contains the exported symbols of a generated package.
type Pkg struct {
	Dir   string
	Syms  map[string]interface{}
	Types map[string]reflect.Type
}

// Pkgs are the registered packages.
var Pkgs = map[string]*Pkg{}

// Register is called by the registry files that are added to the generated packages.
func Register(dir string, syms map[string]interface{}, types map[string]reflect.Type) {
	Pkgs[dir] = &Pkg{Dir: dir, Syms: syms, Types: types}
}

// Model is the model that was used to generate the code.
var Model *mm.Model

// Env gives access to the code generated for a version.
type Env struct {
	S   *mm.Service
	V   *mm.Version
	Dir string
	Pkg *Pkg
}

var envs []*Env

// Envs are the environments for all the versions of the model.
func Envs() []*Env {
	if envs == nil {
		for _, s := range Model.Services {
			for _, v := range s.Versions {
				dir := v.Package(s)
				p := Pkgs[dir]
				if p == nil {
					p = &Pkg{Dir: dir}
				}
				envs = append(envs, &Env{S: s, V: v, Dir: dir, Pkg: p})
			}
		}
		sort.Slice(envs, func(i, j int) bool { return envs[i].Dir < envs[j].Dir })
	}
	return envs
}

// GetEnv finds an environment.
func GetEnv(dir string) *Env {
	for _, e := range Envs() {
		if e.Dir == dir {
			return e
		}
	}
	panic("the model doesn't have a version for " + dir)
}

type missing string

func (m missing) Error() string { return string(m) }

// Sym finds a function, constant or variable.
func (p *Pkg) Sym(name string) reflect.Value {
	s, ok := p.Syms[name]
	if !ok {
		panic(missing(fmt.Sprintf("package '%s' doesn't have the symbol '%s'", p.Dir, name)))
	}
	return reflect.ValueOf(s)
}

// Type finds a type.
func (p *Pkg) Type(name string) reflect.Type {
	t, ok := p.Types[name]
	if !ok {
		panic(missing(fmt.Sprintf("package '%s' doesn't have the type '%s'", p.Dir, name)))
	}
	return t
}

// Method finds a method of a value.
func Method(v reflect.Value, name string) reflect.Value {
	m := v.MethodByName(name)
	if !m.IsValid() {
		panic(missing(fmt.Sprintf("type '%s' doesn't have the method '%s'", v.Type(), name)))
	}
	return m
}

// Call calls a function. The arguments can be reflect values.
func Call(fn reflect.Value, args ...interface{}) []reflect.Value {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if rv, ok := a.(reflect.Value); ok {
			in[i] = rv
			continue
		}
		if a == nil {
			in[i] = reflect.Zero(fn.Type().In(i))
			continue
		}
		in[i] = reflect.ValueOf(a)
	}
	if fn.Type().IsVariadic() && len(in) == fn.Type().NumIn() && in[len(in)-1].Kind() == reflect.Slice &&
		in[len(in)-1].Type() == fn.Type().In(len(in)-1) {
		return fn.CallSlice(in)
	}
	return fn.Call(in)
}

// CallM calls a method.
func CallM(v reflect.Value, name string, args ...interface{}) []reflect.Value {
	return Call(Method(v, name), args...)
}

// Err returns the error returned as the last result.
func Err(out []reflect.Value) error {
	last := out[len(out)-1]
	if last.IsNil() {
		return nil
	}
	return last.Interface().(error)
}

var (
	timeType  = reflect.TypeOf(time.Time{})
	ifaceType = reflect.TypeOf((*interface{})(nil)).Elem()
)

// scalarType is the Go type of values of a scalar or enum type.
func (e *Env) scalarType(id mm.Ident) reflect.Type {
	if t := e.V.Find(id); t != nil {
		return e.Pkg.Type(t.GoName())
	}
	switch id.Snake() {
	case "boolean":
		return reflect.TypeOf(false)
	case "integer":
		return reflect.TypeOf(0)
	case "long":
		return reflect.TypeOf(int64(0))
	case "float":
		return reflect.TypeOf(float64(0))
	case "string":
		return reflect.TypeOf("")
	case "date":
		return timeType
	case "interface":
		return ifaceType
	}
	panic("unknown scalar type " + id.Text())
}

// elemType is the Go type of elements of lists and maps.
func (e *Env) elemType(id mm.Ident) reflect.Type {
	if t := e.V.Find(id); t != nil && t.Kind != mm.Enum {
		return reflect.PointerTo(e.Pkg.Type(t.GoName()))
	}
	return e.scalarType(id)
}

// isStruct says if the type is a struct or class.
func (e *Env) isStruct(id mm.Ident) bool {
	t := e.V.Find(id)
	return t != nil && t.Kind != mm.Enum
}

// ListType is the type of list objects.
func (e *Env) ListType(id mm.Ident) reflect.Type {
	return reflect.PointerTo(e.Pkg.Type(e.V.Find(id).GoName() + "List"))
}

// ValueType is the type returned by accessors. The wrapped flag says that lists of structs are
// represented by list objects.
func (e *Env) ValueType(r mm.Ref, wrapped bool) reflect.Type {
	switch r.Kind {
	case mm.List:
		if wrapped && e.isStruct(r.Name) {
			return e.ListType(r.Name)
		}
		return reflect.SliceOf(e.elemType(r.Name))
	case mm.Map:
		return reflect.MapOf(reflect.TypeOf(""), e.elemType(r.Name))
	}
	return e.elemType(r.Name)
}

// BuilderType is the type of the argument of the setters of builders.
func (e *Env) BuilderType(r mm.Ref, link bool) reflect.Type {
	if !e.isStruct(r.Name) {
		return e.ValueType(r, false)
	}
	name := e.V.Find(r.Name).GoName()
	elem := reflect.PointerTo(e.Pkg.Type(name + "Builder"))
	switch r.Kind {
	case mm.List:
		if link {
			return reflect.PointerTo(e.Pkg.Type(name + "ListBuilder"))
		}
		return reflect.SliceOf(elem)
	case mm.Map:
		return reflect.MapOf(reflect.TypeOf(""), elem)
	}
	return elem
}
