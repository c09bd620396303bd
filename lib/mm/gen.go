package mm

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Opts are the options of the generator.
type Opts struct {
	MaxServices  int
	MaxVersions  int
	MaxTypes     int // Of each kind.
	MaxAttrs     int
	MaxResources int
	// Big makes large struct types, with more than 29 and up to 61 attributes, more likely.
	Big bool
	// NoAnns disables the name changing annotations.
	NoAnns bool
	// Scalars restricts the builtin types that can be used, all if empty.
	Prefix string // Prefix for names of services.
	// UniqueVersions makes the names of the versions different also for different services. Used
	// only for models with references.
	UniqueVersions bool
}

// many returns the maximum for unusually large numbers. The models that have to be compiled aren't so large.
func (o *Opts) many(n int) int {
	if o.Big {
		return 0
	}
	return n
}

// DefaultOpts are the options used by most of the checks.
var DefaultOpts = Opts{MaxServices: 2, MaxVersions: 2, MaxTypes: 3, MaxAttrs: 7, MaxResources: 5}

// Vocabulary used for identifiers. It avoids words that the Go generator uses as prefixes and
// suffixes of derived names, because collisions of names are outside of the scope of the
// properties.
var vocab = []string{
	"cluster", "node", "pool", "region", "cloud", "flavour", "group", "user", "quota", "label",
	"cost", "machine", "zone", "disk", "subnet", "network", "account", "role", "addon", "alert",
	"ingress", "event", "policy", "plan", "token", "image", "volume", "agent", "owner", "color",
	"fox", "gnu", "ant", "elk", "yak", "bee", "cat", "dog", "owl", "eel",
	"a", "b", "x", "z", "up", "by",
}

var initialisms = []string{
	"AWS", "CPU", "DNS", "URL", "IP", "CIDR", "GCP", "TLS", "URLs", "CPUs", "IDs", "S3", "K8S", "IO",
}

// Words that are reserved in Go, or that are names of packages, builtin functions and types. These
// are used for attributes, parameters and locators.
var reserved = []string{
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough",
	"for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range",
	"return", "select", "struct", "switch", "type", "var",
	"len", "make", "string", "int", "time", "errors", "io", "fmt", "json", "helpers", "sort",
	"nil", "true", "error", "append", "http", "url", "bool", "iota", "bytes", "value", "object",
	"stream", "iterator", "count", "field", "items", "item", "key", "index", "text", "name",
}

// Words that are members of the generated requests and responses, used for parameters.
var builtinMembers = []string{
	"header", "parameter", "impersonate", "send", "send_context", "path", "query", "transport", "err",
	"error", "status", "interval", "predicate", "start_context", "ctx", "result", "list", "item", "get",
}

// count generates the number of things of a kind: usually between min and max, and from time to time up to many.
func count(t *rapid.T, label string, min, max, many int) int {
	if max > 0 && many > max && rapid.IntRange(0, 29).Draw(t, label+"Many") == 29 {
		return rapid.IntRange(max, many).Draw(t, label+"ManyN")
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

// Scope keeps track of the used names.
type scope struct {
	names map[string]bool
	ids   []Ident
}

func newScope() *scope { return &scope{names: map[string]bool{}} }

func (s *scope) add(names ...string) {
	for _, n := range names {
		s.names[n] = true
	}
}
func (s *scope) has(name string) bool { return s.names[name] }

// keys returns the forms of an identifier that have to be unique: the one used in Go and the one used in the
// model. Names that have the same letters but split in words in different ways, like NodePool and Nodepool, are
// different names.
func keys(id Ident) []string { return []string{id.Camel(), id.Snake()} }

func (s *scope) addIDs(ids ...string) {
	for _, id := range ids {
		s.add(keys(Id(id))...)
	}
}

// memberKeys are the keys of members that have getters.
func memberKeys(id Ident) []string {
	return append(keys(id), "Get"+id.Camel(), "get_"+id.Snake())
}

// typeKeys are the keys of types.
func typeKeys(id Ident) []string {
	var result []string
	for _, n := range typeSnakes {
		result = append(result, strings.ReplaceAll(n, "*", id.Snake()))
	}
	return append(result, typeNames(id.Camel())...)
}

// merged generates, from time to time, an identifier that has the same letters than another one of the scope.
func (s *scope) merged(t *rapid.T, label string, id Ident) Ident {
	if len(s.ids) == 0 || rapid.IntRange(0, 15).Draw(t, label+"Merge") != 15 {
		return id
	}
	other := s.ids[rapid.IntRange(0, len(s.ids)-1).Draw(t, label+"Merged")]
	for i := 1; i < len(other.W); i++ {
		a, b := other.W[i-1], other.W[i]
		if a.Init || b.Init || a.T[0] < 'a' || b.T[0] < 'a' {
			continue
		}
		words := append([]Word{}, other.W[:i-1]...)
		words = append(words, Word{T: a.T + b.T})
		return Ident{W: append(words, other.W[i+1:]...)}
	}
	return id
}

// GenIdent generates an identifier.
func GenIdent(t *rapid.T, label string, min, max int) Ident {
	n := count(t, label+"Len", min, max, 6)
	var id Ident
	for i := 0; i < n; i++ {
		prevInit := i > 0 && id.W[i-1].Init && !strings.HasSuffix(id.W[i-1].T, "s")
		kind := rapid.IntRange(0, 9).Draw(t, label+"WordKind")
		switch {
		case kind == 8 && !prevInit:
			id.W = append(id.W, Word{T: rapid.SampledFrom(initialisms).Draw(t, label+"Init"), Init: true})
		case kind == 9 && i > 0 && !id.W[i-1].Init && len(id.W[i-1].T) > 1 && id.W[i-1].T[0] >= 'a':
			id.W = append(id.W, Word{T: fmt.Sprint(rapid.IntRange(1, 9).Draw(t, label+"Digit"))})
		default:
			w := rapid.SampledFrom(vocab).Draw(t, label+"Word")
			if len(w) == 1 && (n > 1) {
				// Single letter words are ambiguous inside identifiers.
				w = w + "q"
			}
			id.W = append(id.W, Word{T: w})
		}
	}
	if len(id.W) > 1 {
		return fixDigits(id)
	}
	return id
}

// fixDigits makes sure that numbers aren't followed by initialisms, because those would then be one
// single word.
func fixDigits(id Ident) Ident {
	for i := 1; i < len(id.W); i++ {
		p := id.W[i-1]
		if p.T[0] >= '0' && p.T[0] <= '9' && (id.W[i].Init || id.W[i].T[0] < 'a') {
			id.W[i] = Word{T: "gap"}
		}
	}
	return id
}

// fresh generates an identifier whose name isn't used in the scope, and adds it. The derived
// function returns the names that need to be free.
func fresh(t *rapid.T, label string, s *scope, gen func() Ident, derived func(Ident) []string) Ident {
	id := s.merged(t, label, gen())
	for n := 0; ; n++ {
		ok := true
		names := derived(id)
		for _, d := range names {
			if s.has(d) {
				ok = false
			}
		}
		if ok {
			s.add(names...)
			s.ids = append(s.ids, id)
			return id
		}
		// Make it different without drawing more, so that this always terminates:
		suffix := Word{T: vocab[n%40]}
		if n >= 40 {
			suffix = Word{T: vocab[n%40] + "x" + string(rune('a'+n/40))}
		}
		words := append([]Word{}, id.W...)
		if len(words) == 1 && len(words[0].T) == 1 {
			// Single letter words are ambiguous inside identifiers.
			words[0].T += "q"
		}
		id = Ident{W: append(words, suffix)}
	}
}

var docPieces = []string{
	"the", "Cluster", "of", "\"quoted\"", "it's", "back\\slash", "`code`", "<b>", "&amp;", "100%",
	"%d", "{{ .X }}", "*/", "/*", "//", "ñandú", "日本", "{", "}", "a\tb", "#", "|", "\\n", "$x", "line",
	"TODO:", "end.", "3.5", "-", "*", "[link](x.md)", "\u00a0x", "😀",
}

func genDoc(t *rapid.T, label string) []string {
	if rapid.IntRange(0, 3).Draw(t, label+"HasDoc") != 0 {
		return nil
	}
	n := count(t, label+"DocLines", 1, 4, 14)
	var lines []string
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, label+"Blank") == 0 {
			lines = append(lines, "")
			continue
		}
		nw := count(t, label+"DocWordsN", 1, 5, 40)
		words := rapid.SliceOfN(rapid.SampledFrom(docPieces), nw, nw).Draw(t, label+"DocWords")
		text := strings.Join(words, " ")
		text = strings.TrimLeft(text, " \t\u00a0")
		if i > 0 && rapid.IntRange(0, 4).Draw(t, label+"Ind") == 0 {
			text = "  " + text
		}
		lines = append(lines, text)
	}
	return lines
}

var otherAnns = []string{"deprecated", "custom", "Experimental", "my_ann", "since"}

var annStrings = []string{
	"", "x", "a b", "q\"q", "back\\slash", "tab\there", "ñ", "日本", "1", "true", "multi`tick", "}", "//no", "/*no*/",
}

func genOtherAnns(t *rapid.T, label string, c *Common) {
	if rapid.IntRange(0, 7).Draw(t, label+"HasAnn") != 0 {
		return
	}
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(otherAnns), 1, count(t, label+"AnnMax", 1, 2, 5), rapid.ID[string]).Draw(t, label+"AnnNames")
	for _, name := range names {
		a := Ann{Name: name}
		n := count(t, label+"AnnParams", 0, 3, 9)
		for i := 0; i < n; i++ {
			p := AnnParam{Name: fmt.Sprintf("p%d", i)}
			switch rapid.IntRange(0, 2).Draw(t, label+"AnnKind") {
			case 0:
				p.Value = rapid.Bool().Draw(t, label+"AnnBool")
			case 1:
				p.Value = rapid.IntRange(0, 1<<40).Draw(t, label+"AnnInt")
			default:
				s := rapid.SampledFrom(annStrings).Draw(t, label+"AnnStr")
				p.Raw = rapid.Bool().Draw(t, label+"AnnRaw")
				if strings.Contains(s, "\"") {
					// The lexer doesn't understand escaped quotes.
					p.Raw = true
				}
				p.Value = s
			}
			a.Params = append(a.Params, p)
		}
		c.Anns = append(c.Anns, a)
	}
}

func nameAnn(ann, value string) Ann {
	return Ann{Name: ann, Params: []AnnParam{{Name: "name", Value: value}}}
}

type vgen struct {
	t    *rapid.T
	o    Opts
	v    *Version
	decl *scope // Go identifiers at the package level.
}

// wire generates a name for the wire (JSON or HTTP) that isn't used in the given scope.
func (g *vgen) wire(label string, s *scope, dots bool) string {
	id := GenIdent(g.t, label, 1, 2)
	forms := 3
	if dots {
		forms = 5
	}
	var name string
	switch rapid.IntRange(0, forms-1).Draw(g.t, label+"Form") {
	case 0:
		name = strings.ToLower(id.W[0].T) + "W" + id.Camel()
	case 1:
		name = strings.ReplaceAll(id.Snake(), "_", "-") + "-w"
	case 2:
		name = strings.ToUpper(id.Snake()) + "_W"
	case 3:
		name = "w." + id.Snake()
	default:
		name = "w" + id.Snake() + "_2"
	}
	for s.has(name) {
		name += "x"
	}
	s.add(name)
	return name
}

func (g *vgen) goAnn(label string, c *Common, s *scope) {
	if g.o.NoAnns || rapid.IntRange(0, 9).Draw(g.t, label+"HasGo") != 0 {
		return
	}
	id := GenIdent(g.t, label+"Go", 1, 2)
	name := "Go" + id.Camel()
	for s.has(name) || s.has("Get"+name) {
		name += "X"
	}
	s.add(name, "Get"+name)
	c.Anns = append(c.Anns, nameAnn("go", name))
}

// Forms of the names derived from a type in the model.
var typeSnakes = []string{
	"*",
	"*_list",
	"*_builder",
	"*_list_builder",
	"*_kind",
	"*_link_kind",
	"*_nil_kind",
	"*_list_kind",
	"*_list_link_kind",
	"*_list_nil_kind",
	"new_*",
	"new_*_list",
	"marshal_*",
	"marshal_*_list",
	"unmarshal_*",
	"unmarshal_*_list",
	"read_*",
	"read_*_list",
	"write_*",
	"write_*_list",
}

// Names derived from a type in the Go package of the version.
func typeNames(name string) []string {
	return []string{
		name,
		name + "List",
		name + "Builder",
		name + "ListBuilder",
		name + "Kind",
		name + "LinkKind",
		name + "NilKind",
		name + "ListKind",
		name + "ListLinkKind",
		name + "ListNilKind",
		"New" + name,
		"New" + name + "List",
		"Marshal" + name,
		"Marshal" + name + "List",
		"Unmarshal" + name,
		"Unmarshal" + name + "List",
		"Read" + name,
		"Read" + name + "List",
		"Write" + name,
		"Write" + name + "List",
	}
}

func (g *vgen) common(label string, c *Common) {
	c.Doc = genDoc(g.t, label)
	genOtherAnns(g.t, label, c)
	c.Kw = rapid.Bool().Draw(g.t, label+"Kw")
}

func (g *vgen) types() {
	t := g.t
	number := func(kind string, min int) int { return count(t, kind+"s", min, g.o.MaxTypes, g.o.many(9)) }
	add := func(kind TypeKind, n int) {
		for i := 0; i < n; i++ {
			typ := &Type{Kind: kind}
			typ.Name = fresh(t, string(kind), g.decl,
				func() Ident { return GenIdent(t, string(kind), 1, 3) },
				func(id Ident) []string { return typeKeys(id) })
			g.common(string(kind), &typ.Common)
			if !g.o.NoAnns && rapid.IntRange(0, 11).Draw(t, "typeGo") == 0 {
				id := fresh(t, "typeGoName", g.decl,
					func() Ident { return GenIdent(t, "typeGoName", 1, 2) },
					func(id Ident) []string { return typeNames("Go" + id.Camel()) })
				typ.Anns = append(typ.Anns, nameAnn("go", "Go"+id.Camel()))
			}
			g.v.Types = append(g.v.Types, typ)
		}
	}
	add(Enum, number("enum", 0))
	add(Struct, number("struct", 0))
	add(Class, number("class", 1))
	for _, typ := range g.v.Types {
		if typ.RefPath() != "" {
			continue
		}
		if typ.Kind == Enum {
			g.enumValues(typ)
		} else {
			g.attrs(typ)
		}
	}
}

func (g *vgen) enumValues(typ *Type) {
	t := g.t
	n := count(t, "values", 0, 5, 40)
	wires := newScope()
	local := newScope()
	for i := 0; i < n; i++ {
		x := &Value{}
		x.Name = fresh(t, "value", g.decl, func() Ident {
			return genMember(t, "value")
		}, func(id Ident) []string {
			return []string{typ.GoName() + id.Camel(), typ.Name.Snake() + "_" + id.Snake()}
		})
		wires.add(x.Name.Snake())
		_ = local
		g.common("value", &x.Common)
		typ.Values = append(typ.Values, x)
	}
	for _, x := range typ.Values {
		if !g.o.NoAnns && rapid.IntRange(0, 5).Draw(t, "valueJSON") == 0 {
			x.Anns = append(x.Anns, nameAnn("json", g.wire("valueWire", wires, true)))
		}
		if !g.o.NoAnns && rapid.IntRange(0, 11).Draw(t, "valueGo") == 0 {
			id := fresh(t, "valueGoName", g.decl,
				func() Ident { return GenIdent(t, "valueGoName", 1, 2) },
				func(id Ident) []string { return []string{typ.GoName() + "Go" + id.Camel()} })
			x.Anns = append(x.Anns, nameAnn("go", "Go"+id.Camel()))
		}
	}
}

// genMember generates an identifier for a member, which can be a Go reserved word.
func genMember(t *rapid.T, label string) Ident {
	if rapid.IntRange(0, 4).Draw(t, label+"Res") == 0 {
		return Id(rapid.SampledFrom(reserved).Draw(t, label+"ResWord"))
	}
	return GenIdent(t, label, 1, 3)
}

// Names of the scalar types.
var scalarNames = []string{"boolean", "integer", "long", "float", "string", "date", "interface"}

func (g *vgen) declared(kinds ...TypeKind) []Ident {
	var ids []Ident
	for _, typ := range g.v.Types {
		for _, k := range kinds {
			if typ.Kind == k {
				ids = append(ids, typ.Name)
			}
		}
	}
	return ids
}

// elem generates the name of a type that can be an element of a list or map, or a plain reference.
func (g *vgen) elem(label string) Ident {
	t := g.t
	if rapid.Bool().Draw(t, label+"IsScalar") {
		return Id(rapid.SampledFrom(scalarNames).Draw(t, label+"Scalar"))
	}
	return rapid.SampledFrom(g.declared(Enum, Struct, Class)).Draw(t, label+"Declared")
}

func (g *vgen) attrs(typ *Type) {
	t := g.t
	max := g.o.MaxAttrs
	n := 0
	if g.o.Big && rapid.IntRange(0, 5).Draw(t, "big") == 0 {
		n = rapid.SampledFrom([]int{28, 29, 30, 31, 32, 33, 40, 60, 61, 62, 63, 64}).Draw(t, "bigAttrs")
		if typ.Kind == Class && n > 61 {
			// Classes have three builtin attributes.
			n = 61
		}
	} else {
		n = count(t, "attrs", 0, max, g.o.many(30))
	}
	local := newScope()
	local.addIDs("id", "href", "kind", "link", "empty", "build", "copy", "bitmap")
	wires := newScope()
	wires.add("id", "href", "kind", "items")
	for i := 0; i < n; i++ {
		a := &Attr{}
		a.Name = fresh(t, "attr", local, func() Ident { return genMember(t, "attr") }, func(id Ident) []string {
			return memberKeys(id)
		})
		wires.add(a.Name.Snake())
		g.common("attr", &a.Common)
		switch rapid.IntRange(0, 9).Draw(t, "attrKind") {
		case 0, 1, 2, 3, 4:
			a.Type = Ref{Kind: Plain, Name: g.elem("attr")}
		case 5, 6:
			a.Type = Ref{Kind: List, Name: g.elem("attr")}
		case 7:
			a.Type = Ref{Kind: Map, Name: g.elem("attr"), Index: Id("string")}
		case 8:
			a.Type = Ref{Kind: Plain, Name: rapid.SampledFrom(g.declared(Class)).Draw(t, "attrLink")}
			a.Link = true
		case 9:
			a.Type = Ref{Kind: List, Name: rapid.SampledFrom(g.declared(Class)).Draw(t, "attrLinks")}
			a.Link = true
		}
		typ.Attrs = append(typ.Attrs, a)
	}
	for _, a := range typ.Attrs {
		if !g.o.NoAnns && rapid.IntRange(0, 5).Draw(t, "attrJSON") == 0 {
			a.Anns = append(a.Anns, nameAnn("json", g.wire("attrWire", wires, true)))
		}
		g.goAnn("attr", &a.Common, local)
	}
}

func (g *vgen) resources() {
	t := g.t
	n := count(t, "resources", 0, g.o.MaxResources, g.o.many(14))
	root := &Resource{}
	root.Name = Id("root")
	g.common("root", &root.Common)
	g.decl.addIDs("root", "root_client", "client")
	g.v.Resources = append(g.v.Resources, root)
	clients := newScope()
	clients.addIDs("root")
	for i := 0; i < n; i++ {
		r := &Resource{}
		r.Name = fresh(t, "resource", clients, func() Ident { return GenIdent(t, "resource", 1, 2) }, func(id Ident) []string {
			return keys(id)
		})
		g.common("resource", &r.Common)
		if !g.o.NoAnns && rapid.IntRange(0, 11).Draw(t, "resGo") == 0 {
			id := fresh(t, "resGoName", clients, func() Ident { return GenIdent(t, "resGoName", 1, 2) }, func(id Ident) []string {
				return []string{"Go" + id.Camel()}
			})
			r.Anns = append(r.Anns, nameAnn("go", "Go"+id.Camel()))
		}
		g.v.Resources = append(g.v.Resources, r)
	}
	requests := newScope()
	locals := make([]*scope, len(g.v.Resources))
	segments := make([]*scope, len(g.v.Resources))
	for i, r := range g.v.Resources {
		locals[i] = newScope()
		locals[i].addIDs("get", "poll", "list", "add", "post", "search", "update", "async_update", "delete", "async_delete")
		segments[i] = newScope()
		g.methods(r, locals[i], segments[i], requests)
	}
	// Locators go from resources to other resources with higher index, so there are no loops:
	hasVar := map[int]bool{}
	addLocator := func(from, to int) {
		r := g.v.Resources[from]
		l := &Locator{}
		l.Name = fresh(t, "locator", locals[from], func() Ident { return genMember(t, "locator") }, func(id Ident) []string {
			return keys(id)
		})
		segments[from].add(l.Name.Snake())
		l.Target = g.v.Resources[to].Name
		g.common("locator", &l.Common)
		if !hasVar[from] && from > 0 && rapid.Bool().Draw(t, "isVar") {
			hasVar[from] = true
			l.Variable = Id("ID")
			if rapid.IntRange(0, 3).Draw(t, "varName") == 0 {
				l.Variable = GenIdent(t, "variable", 1, 2)
			}
			l.TargetFirst = rapid.Bool().Draw(t, "targetFirst")
		} else if !g.o.NoAnns && rapid.IntRange(0, 5).Draw(t, "locatorHTTP") == 0 {
			l.Anns = append(l.Anns, nameAnn("http", g.wire("locatorWire", segments[from], false)))
		}
		g.goAnn("locator", &l.Common, locals[from])
		r.Locators = append(r.Locators, l)
	}
	for i := 1; i < len(g.v.Resources); i++ {
		if rapid.IntRange(0, 9).Draw(t, "unreachable") == 0 {
			continue
		}
		addLocator(rapid.IntRange(0, i-1).Draw(t, "parent"), i)
		if rapid.IntRange(0, 3).Draw(t, "second") == 0 {
			addLocator(rapid.IntRange(0, i-1).Draw(t, "parent2"), i)
		}
	}
	for _, r := range g.v.Resources {
		if len(r.Methods)+len(r.Locators) > 1 {
			r.MemberOrder = rapid.Permutation(seq(len(r.Methods)+len(r.Locators))).Draw(t, "memberOrder")
		}
	}
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func (g *vgen) methods(r *Resource, local, segs, requests *scope) {
	t := g.t
	isRoot := r.Name.Text() == "Root"
	prefix := r.GoName()
	if isRoot {
		prefix = ""
	}
	add := func(name string) *Method {
		m := &Method{}
		m.Name = Id(name)
		g.common("method", &m.Common)
		r.Methods = append(r.Methods, m)
		requests.add(prefix+m.Name.Camel(), r.Name.Snake()+"_"+m.Name.Snake())
		return m
	}
	structs := g.declared(Struct, Class)
	pick := func(options ...string) string {
		i := rapid.IntRange(0, 2*len(options)-1).Draw(t, "pick")
		if i >= len(options) {
			return ""
		}
		return options[i]
	}
	// The root resource can't have methods that use GET, because that is for the metadata:
	wants := !isRoot || rapid.IntRange(0, 2).Draw(t, "rootMethods") == 0
	if !isRoot {
		switch pick("get", "list") {
		case "get":
			m := add("get")
			g.param(m, "body", Ref{Name: rapid.SampledFrom(structs).Draw(t, "getBody")}, false, true)
			g.scalars(m, false, false)
		case "list":
			m := add("list")
			g.paging(m)
			g.param(m, "items", Ref{Kind: List, Name: g.elem("listItems")}, false, true)
			g.scalars(m, false, true)
		}
	}
	if wants {
		switch pick("add", "post", "search") {
		case "add":
			m := add("add")
			g.param(m, "body", Ref{Name: rapid.SampledFrom(structs).Draw(t, "addBody")}, true, true)
			g.scalars(m, false, false)
		case "post":
			m := add("post")
			body := Ref{Name: rapid.SampledFrom(structs).Draw(t, "postBody")}
			switch rapid.IntRange(0, 2).Draw(t, "postKind") {
			case 0:
				g.param(m, "body", body, true, true)
			case 1:
				g.param(m, "request", body, true, false)
				g.param(m, "response", Ref{Name: rapid.SampledFrom(structs).Draw(t, "postResponse")}, false, true)
			default:
				g.param(m, "response", body, false, true)
			}
		case "search":
			m := add("search")
			g.paging(m)
			g.param(m, "body", Ref{Name: rapid.SampledFrom(structs).Draw(t, "searchBody")}, true, false)
			g.param(m, "items", Ref{Kind: List, Name: g.elem("searchItems")}, false, true)
			g.scalars(m, false, true)
		}
		switch name := pick("update", "async_update"); name {
		case "":
		default:
			m := add(name)
			kind := Plain
			if rapid.IntRange(0, 4).Draw(t, "updateList") == 0 {
				kind = List
			}
			g.param(m, "body", Ref{Kind: kind, Name: rapid.SampledFrom(structs).Draw(t, "updateBody")}, true, true)
			g.scalars(m, false, false)
		}
		switch name := pick("delete", "async_delete"); name {
		case "":
		default:
			m := add(name)
			g.scalars(m, false, false)
		}
	}
	goAnn := func(m *Method) {
		if g.o.NoAnns || rapid.IntRange(0, 9).Draw(t, "methodGo") != 0 {
			return
		}
		name := "Go" + GenIdent(t, "methodGoName", 1, 2).Camel()
		for local.has(name) || requests.has(prefix+name) {
			name += "X"
		}
		local.add(name)
		requests.add(prefix + name)
		m.Anns = append(m.Anns, nameAnn("go", name))
	}
	for _, m := range r.Methods {
		goAnn(m)
	}
	for i := count(t, "actions", 0, 2, 7); i > 0; i-- {
		m := &Method{}
		m.Name = fresh(t, "action", local, func() Ident { return genMember(t, "action") }, func(id Ident) []string {
			return keys(id)
		})
		for requests.has(prefix+m.Name.Camel()) || requests.has(r.Name.Snake()+"_"+m.Name.Snake()) {
			m.Name.W = append(m.Name.W, Word{T: "more"})
			local.add(keys(m.Name)...)
		}
		requests.add(prefix+m.Name.Camel(), r.Name.Snake()+"_"+m.Name.Snake())
		segs.add(m.Name.Snake())
		g.common("action", &m.Common)
		if !g.o.NoAnns && rapid.IntRange(0, 5).Draw(t, "actionHTTP") == 0 {
			m.Anns = append(m.Anns, nameAnn("http", g.wire("actionWire", segs, false)))
		}
		goAnn(m)
		g.scalars(m, true, true)
		r.Methods = append(r.Methods, m)
	}
}

func (g *vgen) param(m *Method, name string, ref Ref, in, out bool) *Param {
	p := &Param{Type: ref, In: in, Out: out}
	p.Name = Id(name)
	g.common("param", &p.Common)
	if !in && out && rapid.Bool().Draw(g.t, "implicitOut") {
		p.Out = false
	}
	p.OutIn = rapid.IntRange(0, 3).Draw(g.t, "outIn") == 0
	m.Params = append(m.Params, p)
	return p
}

func (g *vgen) paging(m *Method) {
	t := g.t
	integer := Ref{Name: Id("integer")}
	if rapid.IntRange(0, 4).Draw(t, "noPage") != 0 {
		g.param(m, "page", integer, true, true).Default = 1
	}
	if rapid.IntRange(0, 4).Draw(t, "noSize") != 0 {
		g.param(m, "size", integer, true, true).Default = 100
	}
	if rapid.IntRange(0, 4).Draw(t, "noTotal") != 0 {
		g.param(m, "total", integer, false, true)
	}
}

// scalars adds additional parameters. For actions these can be of any type.
func (g *vgen) scalars(m *Method, action, outs bool) {
	t := g.t
	local := newScope()
	for _, n := range []string{"body", "items", "page", "size", "total", "request", "response", "poll"} {
		local.add(memberKeys(Id(n))...)
	}
	wires := newScope()
	wires.add("body", "items", "page", "size", "total")
	n := count(t, "params", 0, 3, 9)
	for i := 0; i < n; i++ {
		p := &Param{}
		p.Name = fresh(t, "param", local, func() Ident {
			if rapid.IntRange(0, 5).Draw(t, "paramBuiltin") == 0 {
				return Id(rapid.SampledFrom(builtinMembers).Draw(t, "paramBuiltinName"))
			}
			return genMember(t, "param")
		}, func(id Ident) []string {
			return memberKeys(id)
		})
		wires.add(p.Name.Snake())
		g.common("param", &p.Common)
		p.Type = Ref{Name: g.scalarElem("param")}
		if action {
			switch rapid.IntRange(0, 5).Draw(t, "paramKind") {
			case 0:
				p.Type = Ref{Kind: List, Name: g.elem("param")}
			case 1:
				p.Type = Ref{Kind: Map, Name: g.elem("param"), Index: Id("string")}
			case 2:
				p.Type = Ref{Name: g.elem("param")}
			}
		}
		p.In = true
		if outs {
			switch rapid.IntRange(0, 3).Draw(t, "paramDir") {
			case 0:
				p.In, p.Out = false, true
			case 1:
				p.In, p.Out = true, true
			case 2:
				p.In, p.Out = false, false
			}
		}
		if p.Type.Kind == Plain && rapid.IntRange(0, 3).Draw(t, "hasDefault") == 0 {
			switch p.Type.Name.Snake() {
			case "boolean":
				p.Default = rapid.Bool().Draw(t, "dfltBool")
			case "integer":
				p.Default = rapid.IntRange(0, 1000).Draw(t, "dfltInt")
			case "string":
				p.Default = rapid.SampledFrom([]string{"", "x", "a b", "ñ", "tab\there", "back\\slash"}).Draw(t, "dfltStr")
			}
		}
		m.Params = append(m.Params, p)
	}
	for _, p := range m.Params {
		if !local.has(p.Name.Snake()) || g.o.NoAnns {
			continue
		}
		switch p.Name.Snake() {
		case "body", "items", "page", "size", "total":
			continue
		}
		if rapid.IntRange(0, 5).Draw(t, "paramJSON") == 0 {
			p.Anns = append(p.Anns, nameAnn("json", g.wire("paramWire", wires, true)))
		}
		if rapid.IntRange(0, 7).Draw(t, "paramHTTP") == 0 {
			p.Anns = append(p.Anns, nameAnn("http", g.wire("paramWire", wires, true)))
		}
		g.goAnn("param", &p.Common, local)
	}
	if len(m.Params) > 1 && rapid.Bool().Draw(t, "shuffle") {
		m.Params = rapid.Permutation(m.Params).Draw(t, "paramOrder")
	}
}

// scalarElem generates the name of a scalar type, including enums. The interface type isn't included because it
// can't be used for query parameters.
func (g *vgen) scalarElem(label string) Ident {
	enums := g.declared(Enum)
	if len(enums) > 0 && rapid.IntRange(0, 4).Draw(g.t, label+"Enum") == 0 {
		return rapid.SampledFrom(enums).Draw(g.t, label+"EnumName")
	}
	return Id(rapid.SampledFrom(scalarNames[:6]).Draw(g.t, label+"Scalar"))
}

func (g *vgen) errors() {
	t := g.t
	n := count(t, "errors", 0, 3, 15)
	codes := map[int]bool{}
	for i := 0; i < n; i++ {
		e := &Error{}
		e.Name = fresh(t, "error", g.decl, func() Ident { return GenIdent(t, "error", 1, 3) }, func(id Ident) []string {
			return []string{id.Camel() + "Error", id.Snake() + "_error"}
		})
		g.common("error", &e.Common)
		e.Code = rapid.IntRange(0, 999).Draw(t, "code")
		if rapid.IntRange(0, 4).Draw(t, "bigCode") == 0 {
			e.Code = rapid.SampledFrom([]int{1000, 32767, 32768, 65535, 65536, 1000000, 1<<31 - 1}).Draw(t, "bigCode")
		}
		codes[e.Code] = true
		g.v.Errors = append(g.v.Errors, e)
	}
}

// GenVersion generates a version.
func GenVersion(t *rapid.T, o Opts, name string) *Version {
	return newVgen(t, o, name).finish()
}

func newVgen(t *rapid.T, o Opts, name string) *vgen {
	g := &vgen{t: t, o: o, v: &Version{Name: name}, decl: newScope()}
	for _, s := range scalarNames {
		g.decl.add(typeKeys(Id(s))...)
	}
	g.decl.addIDs("metadata", "metadata_request", "metadata_response", "client", "new_client", "root")
	return g
}

func (g *vgen) finish() *Version {
	t := g.t
	g.types()
	g.resources()
	g.errors()
	total := len(g.v.Types) + len(g.v.Resources) + len(g.v.Errors)
	g.v.Order = rapid.Permutation(seq(total)).Draw(t, "order")
	for i := 0; i < total; i++ {
		g.v.Cuts = append(g.v.Cuts, rapid.IntRange(0, 3).Draw(t, "cut") == 0)
	}
	g.v.Style = rapid.IntRange(0, 63).Draw(t, "style")
	return g.v
}

var versionNames = []string{"v1", "v2", "v1_alpha1", "v2_beta", "v10"}

// GenModel generates a model.
func GenModel(t *rapid.T, o Opts) *Model {
	m := &Model{}
	n := count(t, "services", 1, o.MaxServices, o.many(4))
	used := newScope()
	used.add("errors", "helpers", "metrics", "internal", "vendor")
	for i := 0; i < n; i++ {
		id := fresh(t, "service", used, func() Ident { return GenIdent(t, "service", 1, 2) }, func(id Ident) []string {
			return []string{id.Flat()}
		})
		s := &Service{Name: o.Prefix + id.Snake()}
		nv := count(t, "versions", 1, o.MaxVersions, o.many(5))
		names := rapid.Permutation(versionNames).Draw(t, "versionNames")
		for j := 0; j < nv; j++ {
			s.Versions = append(s.Versions, GenVersion(t, o, names[j]))
		}
		m.Services = append(m.Services, s)
	}
	return m
}
