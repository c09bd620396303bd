package mm

import (
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// RefPath returns the path of the reference of a type, or the empty string.
func (t *Type) RefPath() string {
	path, _ := t.AnnValue("ref", "path").(string)
	return path
}

// wordsText is the name of the type as written in the paths of references.
func (i Ident) wordsText() string {
	chunks := make([]string, len(i.W))
	for n, w := range i.W {
		chunks[n] = w.T
	}
	return strings.Join(chunks, "_")
}

// Lookup finds the service, version and type that a reference path points to.
func (m *Model) Lookup(path string) (*Service, *Version, *Type) {
	chunks := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if len(chunks) != 3 {
		return nil, nil, nil
	}
	for _, s := range m.Services {
		if s.Name != chunks[0] {
			continue
		}
		for _, v := range s.Versions {
			if v.Name != chunks[1] {
				continue
			}
			for _, t := range v.Types {
				if t.Name.wordsText() == chunks[2] {
					return s, v, t
				}
			}
		}
	}
	return nil, nil, nil
}

// Origin is a type of a version: where it was really declared.
type Origin struct {
	Service *Service
	Version *Version
	Decl    *Type
}

// Expand calculates the declared and imported types of a version: those that it declares, except
// the references, and those that are reachable from the referenced types via attributes that aren't
// links. The key is the text of the name. The model can't contain loops of references.
func (m *Model) Expand(s *Service, v *Version) map[string]Origin {
	result := map[string]Origin{}
	for _, t := range v.Types {
		if t.RefPath() == "" {
			result[t.Name.Text()] = Origin{s, v, t}
		}
	}
	for _, t := range v.Types {
		if path := t.RefPath(); path != "" {
			rs, rv, rt := m.Lookup(path)
			if rt == nil {
				continue
			}
			source := m.Expand(rs, rv)
			for name := range closure(source, rt.Name.Text()) {
				result[name] = source[name]
			}
		}
	}
	return result
}

// closure calculates the types reachable via attributes that aren't links.
func closure(source map[string]Origin, name string) map[string]bool {
	result := map[string]bool{}
	var visit func(name string)
	visit = func(name string) {
		o, ok := source[name]
		if !ok || result[name] {
			return
		}
		result[name] = true
		for _, a := range o.Decl.Attrs {
			if !a.Link {
				visit(a.Type.Name.Text())
			}
		}
	}
	visit(name)
	return result
}

// GenRefModel generates a model where some versions contain classes that are references to classes
// of other versions. There are no loops of references, and the referring versions don't declare
// types with names of types that they import.
func GenRefModel(t *rapid.T, o Opts) *Model {
	m := &Model{}
	used := newScope()
	used.add("errors", "helpers", "metrics", "internal", "vendor")
	n := rapid.IntRange(2, 4).Draw(t, "refVersions")
	for i := 0; i < n; i++ {
		var s *Service
		if len(m.Services) > 0 && rapid.IntRange(0, 2).Draw(t, "sameService") == 0 {
			s = rapid.SampledFrom(m.Services).Draw(t, "service")
			if len(s.Versions) == len(versionNames) {
				s = nil
			}
		}
		if s == nil {
			id := fresh(t, "service", used, func() Ident { return GenIdent(t, "service", 1, 2) }, func(id Ident) []string {
				return []string{id.Flat()}
			})
			s = &Service{Name: o.Prefix + id.Snake()}
			m.Services = append(m.Services, s)
		}
		var free []string
		for _, name := range versionNames {
			taken := false
			for _, ms := range m.Services {
				for _, v := range ms.Versions {
					// The selectors of the packages of versions with the same name clash:
					taken = taken || v.Name == name && (ms == s || o.UniqueVersions)
				}
			}
			if !taken {
				free = append(free, name)
			}
		}
		name := rapid.SampledFrom(free).Draw(t, "version")
		g := newVgen(t, o, name)
		if i > 0 {
			g.refs(m)
		}
		s.Versions = append(s.Versions, g.finish())
	}
	return m
}

// refs adds references to classes of the versions that are already in the model.
func (g *vgen) refs(m *Model) {
	t := g.t
	type target struct {
		s *Service
		v *Version
		t *Type
	}
	var targets []target
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, typ := range v.Types {
				if typ.Kind == Class {
					targets = append(targets, target{s, v, typ})
				}
			}
		}
	}
	if len(targets) == 0 {
		return
	}
	n := rapid.IntRange(1, 4).Draw(t, "refs")
	imported := map[string]Origin{}
	explicit := map[string]bool{}
	for i := 0; i < n; i++ {
		x := rapid.SampledFrom(targets).Draw(t, "ref")
		if explicit[x.t.Name.Text()] {
			continue
		}
		source := m.Expand(x.s, x.v)
		add := map[string]Origin{}
		ok := true
		for name := range closure(source, x.t.Name.Text()) {
			o := source[name]
			if previous, there := imported[name]; there {
				// The same type can be reached via several references, but not different
				// types with the same name:
				ok = ok && previous == o
				continue
			}
			add[name] = o
		}
		for _, o := range add {
			names := typeKeys(o.Decl.Name)
			names = append(names, typeNames(o.Decl.GoName())...)
			for _, name := range names {
				ok = ok && !g.decl.has(name)
			}
		}
		// The imported types can't collide among themselves:
		local := newScope()
		for _, o := range add {
			all := newScope()
			all.add(typeKeys(o.Decl.Name)...)
			all.add(typeNames(o.Decl.GoName())...)
			for name := range all.names {
				ok = ok && !local.has(name)
			}
			for name := range all.names {
				local.add(name)
			}
		}
		if !ok {
			continue
		}
		for name := range local.names {
			g.decl.add(name)
		}
		for name, o := range add {
			imported[name] = o
		}
		explicit[x.t.Name.Text()] = true
		slash := "/"
		if rapid.IntRange(0, 3).Draw(t, "noSlash") == 0 {
			slash = ""
		}
		typ := &Type{Kind: Class}
		typ.Name = x.t.Name
		typ.Anns = []Ann{{Name: "ref", Params: []AnnParam{{
			Name:  "path",
			Value: slash + x.s.Name + "/" + x.v.Name + "/" + x.t.Name.wordsText(),
		}}}}
		g.v.Types = append(g.v.Types, typ)
	}
}

// HasRefs is true if the model contains references.
func (m *Model) HasRefs() bool {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if t.RefPath() != "" {
					return true
				}
			}
		}
	}
	return false
}

// Resolved is true if all the references point to existing types.
func (m *Model) Resolved() bool {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if t.RefPath() != "" {
					if _, _, rt := m.Lookup(t.RefPath()); rt == nil {
						return false
					}
				}
			}
		}
	}
	return true
}

// Flatten returns an equivalent model without references. The links of the imported types that go to
// other versions are removed.
func (m *Model) Flatten() *Model {
	result := &Model{}
	for _, s := range m.Services {
		fs := &Service{Name: s.Name}
		for _, v := range s.Versions {
			fv := *v
			fv.Order, fv.Cuts, fv.Types = nil, nil, nil
			explicit := map[string]bool{}
			for _, t := range v.Types {
				if t.RefPath() != "" {
					explicit[t.Name.Text()] = true
				}
			}
			expanded := m.Expand(s, v)
			var names []string
			for name := range expanded {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				o := expanded[name]
				ft := *o.Decl
				if o.Version != v {
					ft.Attrs = nil
					for _, a := range o.Decl.Attrs {
						if !a.Link || explicit[a.Type.Name.Text()] {
							ft.Attrs = append(ft.Attrs, a)
						}
					}
				}
				fv.Types = append(fv.Types, &ft)
			}
			fs.Versions = append(fs.Versions, &fv)
		}
		result.Services = append(result.Services, fs)
	}
	return result
}
