package mm

import (
	"strings"
)

// Tok is a token of the language.
type Tok struct {
	Kind string // The keyword or punctuation itself, or one of ident, int, string.
	Text string
}

var keywords = map[string]bool{
	"attribute": true, "class": true, "code": true, "enum": true, "error": true, "false": true,
	"in": true, "link": true, "locator": true, "method": true, "out": true, "parameter": true,
	"resource": true, "struct": true, "target": true, "true": true, "value": true, "variable": true,
}

// Lex splits the text into tokens. It returns false if there is some text that isn't a token.
func Lex(text string) (toks []Tok, ok bool) {
	s := []rune(text)
	letter := func(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' }
	digit := func(r rune) bool { return r >= '0' && r <= '9' }
	ok = true
	for i := 0; i < len(s); {
		r := s[i]
		switch {
		case r == ' ' || r == '\t' || r == '\r' || r == '\n':
			i++
		case letter(r):
			j := i
			for j < len(s) && (letter(s[j]) || digit(s[j])) {
				j++
			}
			word := string(s[i:j])
			kind := "ident"
			if keywords[word] {
				kind = word
			}
			toks = append(toks, Tok{kind, word})
			i = j
		case digit(r):
			j := i
			for j < len(s) && digit(s[j]) {
				j++
			}
			toks = append(toks, Tok{"int", string(s[i:j])})
			i = j
		case r == '"' || r == '`':
			j := i + 1
			for j < len(s) && s[j] != r {
				j++
			}
			if j >= len(s) {
				return toks, false
			}
			toks = append(toks, Tok{"string", string(s[i : j+1])})
			i = j + 1
		case r == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\r' && s[i] != '\n' {
				i++
			}
		case r == '/' && i+1 < len(s) && s[i+1] == '*':
			j := i + 2
			for j+1 < len(s) && !(s[j] == '*' && s[j+1] == '/') {
				j++
			}
			if j+1 >= len(s) {
				return toks, false
			}
			i = j + 2
		case strings.ContainsRune("@{}[]()=", r):
			toks = append(toks, Tok{string(r), string(r)})
			i++
		default:
			ok = false
			i++
		}
	}
	return
}

type syntax struct {
	toks []Tok
	pos  int
}

type syntaxError struct{}

func (p *syntax) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos].Kind
	}
	return ""
}

func (p *syntax) accept(kinds ...string) bool {
	for _, k := range kinds {
		if p.peek() == k {
			p.pos++
			return true
		}
	}
	return false
}

func (p *syntax) expect(kind string) {
	if !p.accept(kind) {
		panic(syntaxError{})
	}
}

// SyntaxOK says if the text is a file of the language, according to the grammar.
func SyntaxOK(text string) (ok bool) {
	toks, ok := Lex(text)
	if !ok {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(syntaxError); !is {
				panic(r)
			}
			ok = false
		}
	}()
	p := &syntax{toks: toks}
	for p.peek() != "" {
		p.decl()
	}
	return true
}

func (p *syntax) annotations() {
	for p.accept("@") {
		p.expect("ident")
		if p.accept("(") {
			for !p.accept(")") {
				p.expect("ident")
				p.expect("=")
				p.literal()
			}
		}
	}
}

func (p *syntax) literal() {
	if !p.accept("true", "false", "int", "string") {
		panic(syntaxError{})
	}
}

func (p *syntax) ref() {
	if p.accept("[") {
		if !p.accept("]") {
			p.expect("ident")
			p.expect("]")
		}
	}
	p.expect("ident")
}

func (p *syntax) body(member func()) {
	p.expect("ident")
	p.expect("{")
	for !p.accept("}") {
		member()
	}
}

func (p *syntax) decl() {
	p.annotations()
	switch {
	case p.accept("enum"):
		p.body(func() {
			p.annotations()
			p.accept("value")
			p.expect("ident")
		})
	case p.accept("class", "struct"):
		p.body(func() {
			p.annotations()
			p.accept("attribute", "link")
			p.expect("ident")
			p.ref()
		})
	case p.accept("error"):
		p.body(func() {
			p.expect("code")
			p.expect("int")
		})
	case p.accept("resource"):
		p.body(func() {
			p.annotations()
			if p.accept("locator") {
				p.body(func() {
					if !p.accept("target", "variable") {
						panic(syntaxError{})
					}
					p.expect("ident")
				})
				return
			}
			p.accept("method")
			p.body(func() {
				p.annotations()
				p.accept("parameter")
				for p.accept("in", "out") {
				}
				p.expect("ident")
				p.ref()
				if p.accept("=") {
					p.literal()
				}
			})
		})
	default:
		panic(syntaxError{})
	}
}
