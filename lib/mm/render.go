package mm

import (
	"fmt"
	"strconv"
	"strings"
)

// Files renders the model: the keys are relative file paths.
func (m *Model) Files() map[string]string {
	files := map[string]string{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for name, text := range v.Files() {
				files[s.Name+"/"+v.Name+"/"+name] = text
			}
		}
	}
	return files
}

// Files renders the files of a version.
func (v *Version) Files() map[string]string {
	var decls []func(*writer)
	for _, t := range v.Types {
		t := t
		decls = append(decls, func(w *writer) { w.typ(t) })
	}
	for _, r := range v.Resources {
		r := r
		decls = append(decls, func(w *writer) { w.resource(r) })
	}
	for _, e := range v.Errors {
		e := e
		decls = append(decls, func(w *writer) { w.error(e) })
	}
	order := v.Order
	if len(order) != len(decls) {
		order = nil
		for i := range decls {
			order = append(order, i)
		}
	}
	files := map[string]string{}
	n := 0
	w := &writer{style: v.Style}
	w.header()
	flush := func() {
		files[fmt.Sprintf("f%02d.model", n)] = w.b.String()
		n++
		w = &writer{style: v.Style}
		w.header()
	}
	for i, d := range order {
		decls[d](w)
		if i < len(v.Cuts) && v.Cuts[i] {
			flush()
		}
	}
	if n == 0 || w.b.Len() > 0 {
		flush()
	}
	return files
}

type writer struct {
	b     strings.Builder
	style int
	depth int
}

func (w *writer) indent() string {
	if w.style&1 != 0 {
		return strings.Repeat("\t", w.depth)
	}
	return strings.Repeat("  ", w.depth)
}

func (w *writer) line(format string, args ...interface{}) {
	w.b.WriteString(w.indent())
	fmt.Fprintf(&w.b, format, args...)
	if w.style&4 != 0 {
		w.b.WriteString("\r\n")
	} else {
		w.b.WriteString("\n")
	}
}

func (w *writer) blank() {
	if w.style&4 != 0 {
		w.b.WriteString("\r\n")
	} else {
		w.b.WriteString("\n")
	}
}

func (w *writer) header() {
	if w.style&8 != 0 {
		w.line("/*")
		w.line("Header } { class Nothing")
		w.line("*/")
		w.blank()
	}
	if w.style&16 != 0 {
		w.line("// A detached comment.")
		w.blank()
	}
}

func (w *writer) common(c *Common) {
	if w.style&2 != 0 {
		w.blank()
	}
	for _, d := range c.Doc {
		if d == "" {
			w.line("//")
		} else {
			w.line("// %s", d)
		}
	}
	for _, a := range c.Anns {
		if len(a.Params) == 0 && w.style&32 == 0 {
			w.line("@%s", a.Name)
			continue
		}
		var chunks []string
		for _, p := range a.Params {
			chunks = append(chunks, fmt.Sprintf("%s = %s", p.Name, literal(p.Value, p.Raw)))
		}
		w.line("@%s(%s)", a.Name, strings.Join(chunks, " "))
	}
}

func literal(value interface{}, raw bool) string {
	switch v := value.(type) {
	case bool:
		return strconv.FormatBool(v)
	case int:
		return strconv.Itoa(v)
	case float64: // After a round trip through JSON.
		return strconv.Itoa(int(v))
	case string:
		if raw && !strings.Contains(v, "`") {
			return "`" + v + "`"
		}
		return strconv.Quote(v)
	}
	panic(fmt.Sprintf("bad literal %v", value))
}

func (w *writer) typ(t *Type) {
	w.common(&t.Common)
	w.line("%s %s {", t.Kind, t.Name.Text())
	w.depth++
	for _, x := range t.Values {
		w.common(&x.Common)
		kw := ""
		if x.Kw {
			kw = "value "
		}
		w.line("%s%s", kw, x.Name.Text())
	}
	for _, a := range t.Attrs {
		w.common(&a.Common)
		kw := ""
		if a.Link {
			kw = "link "
		} else if a.Kw {
			kw = "attribute "
		}
		w.line("%s%s %s", kw, a.Name.Text(), a.Type.Text())
	}
	w.depth--
	w.line("}")
	w.blank()
}

func (w *writer) resource(r *Resource) {
	w.common(&r.Common)
	w.line("resource %s {", r.Name.Text())
	w.depth++
	order := r.MemberOrder
	if len(order) != len(r.Methods)+len(r.Locators) {
		order = nil
		for i := 0; i < len(r.Methods)+len(r.Locators); i++ {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if i < len(r.Methods) {
			w.method(r.Methods[i])
		} else {
			w.locator(r.Locators[i-len(r.Methods)])
		}
	}
	w.depth--
	w.line("}")
	w.blank()
}

func (w *writer) method(m *Method) {
	w.common(&m.Common)
	kw := ""
	if m.Kw {
		kw = "method "
	}
	w.line("%s%s {", kw, m.Name.Text())
	w.depth++
	for _, p := range m.Params {
		w.common(&p.Common)
		text := ""
		if p.Kw {
			text = "parameter "
		}
		switch {
		case p.In && p.Out && p.OutIn:
			text += "out in "
		case p.In && p.Out:
			text += "in out "
		case p.In:
			text += "in "
		case p.Out:
			text += "out "
		}
		text += p.Name.Text() + " " + p.Type.Text()
		if p.Default != nil {
			text += " = " + literal(p.Default, false)
		}
		w.line("%s", text)
	}
	w.depth--
	w.line("}")
}

func (w *writer) locator(l *Locator) {
	w.common(&l.Common)
	w.line("locator %s {", l.Name.Text())
	w.depth++
	variable := func() {
		if l.IsVar() {
			w.line("variable %s", l.Variable.Text())
		}
	}
	if !l.TargetFirst {
		variable()
	}
	if len(l.Target.W) > 0 {
		w.line("target %s", l.Target.Text())
	}
	if l.TargetFirst {
		variable()
	}
	w.depth--
	w.line("}")
}

func (w *writer) error(e *Error) {
	w.common(&e.Common)
	w.line("error %s {", e.Name.Text())
	w.depth++
	w.line("code %d", e.Code)
	w.depth--
	w.line("}")
	w.blank()
}
