// Package mm contains the verification framework's own view of a model: a small syntax tree, a
// generator of random trees, a renderer that turns them into model files, and the oracle functions
// that say what the metamodel tools should make of them. Nothing here uses code of /repo.
package mm

import (
	"strings"
)

// Word is one word of an identifier. Init marks initialisms like CPU, whose capitalization is
// preserved.
type Word struct {
	T    string
	Init bool `json:",omitempty"`
}

// Ident is an identifier, as a sequence of words.
type Ident struct {
	W []Word
}

// Id builds an identifier from its text in the form `cluster_CPU_list`.
func Id(text string) Ident {
	var id Ident
	for _, chunk := range strings.Split(text, "_") {
		upper := len(chunk) > 1 && chunk[0] >= 'A' && chunk[0] <= 'Z'
		id.W = append(id.W, Word{T: chunk, Init: upper})
	}
	return id
}

// Text is the identifier as written in the model files.
func (i Ident) Text() string {
	var b strings.Builder
	for _, w := range i.W {
		b.WriteString(w.cap())
	}
	return b.String()
}

func (w Word) cap() string {
	if w.Init {
		return w.T
	}
	return strings.ToUpper(w.T[:1]) + w.T[1:]
}

// Camel is the Go public name.
func (i Ident) Camel() string { return i.Text() }

// Snake is the snake case form.
func (i Ident) Snake() string {
	chunks := make([]string, len(i.W))
	for n, w := range i.W {
		chunks[n] = strings.ToLower(w.T)
	}
	return strings.Join(chunks, "_")
}

// Flat is the lower case form without separators.
func (i Ident) Flat() string { return strings.ReplaceAll(i.Snake(), "_", "") }

// Ann is an annotation.
type Ann struct {
	Name   string
	Params []AnnParam
}

// AnnParam is a parameter of an annotation. Value is a bool, an int or a string.
type AnnParam struct {
	Name  string
	Value interface{}
	// Raw indicates that string values should be rendered with backquotes.
	Raw bool `json:",omitempty"`
}

// Common is embedded in everything that can have documentation and annotations.
type Common struct {
	Name Ident
	Doc  []string `json:",omitempty"`
	Anns []Ann    `json:",omitempty"`
	// Kw indicates that the optional keyword should be written.
	Kw bool `json:",omitempty"`
}

// AnnValue returns the value of the given parameter of the first annotation with the given name.
func (c *Common) AnnValue(name, param string) (result interface{}) {
	for _, a := range c.Anns {
		if a.Name == name {
			for _, p := range a.Params {
				if p.Name == param {
					result = p.Value
				}
			}
			return
		}
	}
	return
}

func (c *Common) annName(ann string) string {
	s, _ := c.AnnValue(ann, "name").(string)
	return s
}

// GoName is the Go public name of the concept.
func (c *Common) GoName() string {
	if s := c.annName("go"); s != "" {
		return s
	}
	return c.Name.Camel()
}

// JSONName is the name of the JSON field.
func (c *Common) JSONName() string {
	if s := c.annName("json"); s != "" {
		return s
	}
	return c.Name.Snake()
}

// Segment is the name used in URLs.
func (c *Common) Segment() string {
	if s := c.annName("http"); s != "" {
		return s
	}
	return c.Name.Snake()
}

// QueryName is the name used in query parameters.
func (c *Common) QueryName() string {
	if s := c.annName("http"); s != "" {
		return s
	}
	return c.JSONName()
}

// DocText is the documentation text.
func (c *Common) DocText() string { return strings.Join(c.Doc, "\n") }

// RefKind is the kind of type reference.
type RefKind int

const (
	Plain RefKind = iota
	List
	Map
)

// Ref is a reference to a type.
type Ref struct {
	Kind  RefKind
	Name  Ident // The type, or the element.
	Index Ident `json:",omitempty"`
}

func (r Ref) Text() string {
	switch r.Kind {
	case List:
		return "[]" + r.Name.Text()
	case Map:
		return "[" + r.Index.Text() + "]" + r.Name.Text()
	}
	return r.Name.Text()
}

// FullSnake is the name of the referenced type, including the list and map suffixes.
func (r Ref) FullSnake() string {
	switch r.Kind {
	case List:
		return r.Name.Snake() + "_list"
	case Map:
		return r.Index.Snake() + "_" + r.Name.Snake() + "_map"
	}
	return r.Name.Snake()
}

// TypeKind is the kind of a declared type.
type TypeKind string

const (
	Scalar TypeKind = "scalar"
	Enum   TypeKind = "enum"
	Struct TypeKind = "struct"
	Class  TypeKind = "class"
)

// Type is the declaration of a type.
type Type struct {
	Common
	Kind   TypeKind
	Values []*Value `json:",omitempty"`
	Attrs  []*Attr  `json:",omitempty"`
}

// Value is a value of an enum.
type Value struct{ Common }

// Attr is an attribute of a struct.
type Attr struct {
	Common
	Link bool `json:",omitempty"`
	Type Ref
}

// Resource is the declaration of a resource.
type Resource struct {
	Common
	Methods  []*Method  `json:",omitempty"`
	Locators []*Locator `json:",omitempty"`
	// MemberOrder is a permutation of methods and locators (methods first).
	MemberOrder []int `json:",omitempty"`
}

// Method is a method of a resource.
type Method struct {
	Common
	Params []*Param `json:",omitempty"`
}

// Param is a parameter of a method. If neither In nor Out are set then it is an output parameter.
type Param struct {
	Common
	Type    Ref
	In      bool        `json:",omitempty"`
	Out     bool        `json:",omitempty"`
	OutIn   bool        `json:",omitempty"` // Write `out in` instead of `in out`.
	Default interface{} `json:",omitempty"`
}

// IsOut returns the effective output flag.
func (p *Param) IsOut() bool { return p.Out || !p.In }

// Locator is a locator of a resource.
type Locator struct {
	Common
	Variable Ident `json:",omitempty"`
	Target   Ident
	// TargetFirst indicates that the target should be written before the variable.
	TargetFirst bool `json:",omitempty"`
}

// IsVar returns true if the locator has a variable.
func (l *Locator) IsVar() bool { return len(l.Variable.W) > 0 }

// Error is the declaration of an error.
type Error struct {
	Common
	Code int
}

// Version is a version of a service.
type Version struct {
	Name      string // Directory name.
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
	// Order is a permutation of the declarations (types, resources, errors). Cuts says where
	// the resulting sequence is split into files.
	Order []int  `json:",omitempty"`
	Cuts  []bool `json:",omitempty"`
	// Style selects among several ways to lay out the text.
	Style int `json:",omitempty"`
}

// Service is a service.
type Service struct {
	Name     string // Directory name.
	Versions []*Version
}

// Model is a set of services.
type Model struct {
	Services []*Service
}

// Scalars are the names of the builtin types.
var Scalars = map[string]string{
	"boolean": "Boolean", "integer": "Integer", "long": "Long", "float": "Float",
	"string": "String", "date": "Date", "interface": "Interface",
}

// Find finds a declared type.
func (v *Version) Find(id Ident) *Type {
	for _, t := range v.Types {
		if t.Name.Text() == id.Text() {
			return t
		}
	}
	return nil
}

// KindOf returns the kind of a type, scalar for builtins.
func (v *Version) KindOf(id Ident) TypeKind {
	if t := v.Find(id); t != nil {
		return t.Kind
	}
	if _, ok := Scalars[id.Snake()]; ok {
		return Scalar
	}
	return ""
}

// FindResource finds a resource.
func (v *Version) FindResource(id Ident) *Resource {
	for _, r := range v.Resources {
		if r.Name.Text() == id.Text() {
			return r
		}
	}
	return nil
}

// Root is the root resource.
func (v *Version) Root() *Resource { return v.FindResource(Id("root")) }

// GoScalar is true if values of that type are represented by scalars in the sense of the
// metamodel: builtin scalars and enums.
func (v *Version) GoScalar(r Ref) bool {
	if r.Kind != Plain {
		return false
	}
	k := v.KindOf(r.Name)
	return k == Scalar || k == Enum
}

// IsStructRef is true if the reference is to a struct or class.
func (v *Version) IsStructRef(r Ref) bool {
	if r.Kind != Plain {
		return false
	}
	k := v.KindOf(r.Name)
	return k == Struct || k == Class
}

// Package is the path of the Go package of the version, relative to the base.
func (v *Version) Package(s *Service) string {
	return strings.ToLower(strings.ReplaceAll(s.Name, "_", "")) + "/" +
		strings.ToLower(strings.ReplaceAll(v.Name, "_", ""))
}
