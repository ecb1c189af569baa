package spec

import (
	"fmt"
	"strconv"
	"strings"
)

// Tok is a token of the language.
type Tok struct {
	Kind string // Keyword or symbol, or 'id', 'int' or 'str'.
	Text string
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("attribute class code enum error false in link locator method out parameter resource struct target true value variable") {
		keywords[k] = true
	}
}

// Lex splits the text into tokens. It is an independent implementation of the rules of the language.
func Lex(text string) ([]Tok, error) {
	src := []rune(text)
	var toks []Tok
	letter := func(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
	digit := func(c rune) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' && src[i] != '\r' {
				i++
			}
		case c == '/' && i+1 < len(src) && src[i+1] == '*':
			j := i + 2
			for j+1 < len(src) && !(src[j] == '*' && src[j+1] == '/') {
				j++
			}
			if j+1 >= len(src) {
				return nil, fmt.Errorf("comment isn't finished")
			}
			i = j + 2
		case strings.ContainsRune("@{}[]()=", c):
			toks = append(toks, Tok{string(c), string(c)})
			i++
		case digit(c):
			j := i
			for j < len(src) && digit(src[j]) {
				j++
			}
			toks = append(toks, Tok{"int", string(src[i:j])})
			i = j
		case letter(c):
			j := i
			for j < len(src) && (letter(src[j]) || digit(src[j])) {
				j++
			}
			word := string(src[i:j])
			if keywords[word] {
				toks = append(toks, Tok{word, word})
			} else {
				toks = append(toks, Tok{"id", word})
			}
			i = j
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("string isn't finished")
			}
			toks = append(toks, Tok{"str", string(src[i : j+1])})
			i = j + 1
		default:
			return nil, fmt.Errorf("unexpected character %q", c)
		}
	}
	return toks, nil
}

type parser struct {
	toks   []Tok
	lookup func(id string) (Name, bool)
	odd    bool
}

// stop is used to abandon the parsing.
type stop struct{ err error }

func (p *parser) fail(format string, args ...interface{}) {
	panic(stop{fmt.Errorf(format, args...)})
}

func (p *parser) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return p.toks[0].Kind
}

func (p *parser) next(kind string) string {
	if p.peek() != kind {
		p.fail("expected %s but found %q", kind, p.peek())
	}
	t := p.toks[0]
	p.toks = p.toks[1:]
	return t.Text
}

func (p *parser) maybe(kind string) bool {
	if p.peek() == kind {
		p.toks = p.toks[1:]
		return true
	}
	return false
}

func (p *parser) name() Name {
	id := p.next("id")
	n, ok := p.lookup(id)
	if !ok {
		p.odd = true
		return Name{ID: id, Words: []string{id}, Init: []bool{false}}
	}
	return n
}

func (p *parser) literal() interface{} {
	switch p.peek() {
	case "true":
		p.next("true")
		return true
	case "false":
		p.next("false")
		return false
	case "int":
		n, err := strconv.Atoi(p.next("int"))
		if err != nil {
			p.fail("%v", err)
		}
		return n
	case "str":
		s, err := strconv.Unquote(p.next("str"))
		if err != nil {
			p.fail("%v", err)
		}
		return s
	}
	p.fail("expected a literal but found %q", p.peek())
	return nil
}

func (p *parser) annotations() Ann {
	a := Ann{}
	seen := map[string]bool{}
	for p.maybe("@") {
		o := OtherAnn{Name: p.next("id")}
		if p.maybe("(") {
			used := map[string]bool{}
			for !p.maybe(")") {
				x := AnnParam{Name: p.next("id")}
				p.next("=")
				x.Value = p.literal()
				if used[x.Name] {
					p.odd = true
				}
				used[x.Name] = true
				o.Params = append(o.Params, x)
			}
		}
		if seen[o.Name] {
			p.odd = true
		}
		seen[o.Name] = true
		if o.Name == "ref" {
			p.odd = true
		}
		a.Other = append(a.Other, o)
	}
	return a
}

func (p *parser) ref() Ref {
	if p.maybe("[") {
		if p.maybe("]") {
			return Ref{Kind: List, Name: p.name()}
		}
		index := p.name()
		if !IsBuiltin(index) || index.ID == "Interface" {
			p.odd = true
		}
		p.next("]")
		return Ref{Kind: Map, Index: index, Name: p.name()}
	}
	return Ref{Kind: Plain, Name: p.name()}
}

// unique records that the names of a scope are used.
func (p *parser) unique(scope map[string]bool, n Name) {
	if scope[n.Key()] {
		p.odd = true
	}
	scope[n.Key()] = true
}

func (p *parser) declaration(v *Version) {
	ann := p.annotations()
	kind := p.peek()
	scope := map[string]bool{}
	switch kind {
	case "enum", "class", "struct":
		p.next(kind)
		t := &Type{Kind: kind, Name: p.name(), Ann: ann}
		p.next("{")
		for !p.maybe("}") {
			a := p.annotations()
			if kind == "enum" {
				p.maybe("value")
				x := &Value{Name: p.name(), Ann: a}
				p.unique(scope, x.Name)
				t.Values = append(t.Values, x)
				continue
			}
			x := &Attr{Ann: a}
			if p.maybe("link") {
				x.Link = true
			} else {
				p.maybe("attribute")
			}
			x.Name = p.name()
			x.Type = p.ref()
			p.unique(scope, x.Name)
			t.Attrs = append(t.Attrs, x)
		}
		v.Types = append(v.Types, t)
	case "error":
		p.next(kind)
		e := &Error{Name: p.name(), Ann: ann}
		p.next("{")
		n := 0
		for !p.maybe("}") {
			p.next("code")
			code, err := strconv.Atoi(p.next("int"))
			if err != nil {
				p.fail("%v", err)
			}
			e.Code = code
			n++
		}
		if n != 1 {
			p.odd = true
		}
		v.Errors = append(v.Errors, e)
	case "resource":
		p.next(kind)
		r := &Resource{Name: p.name(), Ann: ann}
		p.next("{")
		locators := map[string]bool{}
		for !p.maybe("}") {
			a := p.annotations()
			if p.maybe("locator") {
				l := &Locator{Name: p.name(), Ann: a}
				p.next("{")
				targets, variables := 0, 0
				for !p.maybe("}") {
					if p.maybe("target") {
						l.Target = p.name()
						targets++
					} else {
						p.next("variable")
						p.name()
						l.Variable = true
						variables++
					}
				}
				if targets != 1 || variables > 1 {
					p.odd = true
				}
				p.unique(locators, l.Name)
				r.Locators = append(r.Locators, l)
				continue
			}
			p.maybe("method")
			m := &Method{Name: p.name(), Ann: a}
			p.unique(scope, m.Name)
			p.next("{")
			params := map[string]bool{}
			for !p.maybe("}") {
				x := &Param{Ann: p.annotations()}
				p.maybe("parameter")
				for {
					if p.maybe("in") {
						x.In = true
					} else if p.maybe("out") {
						x.Out = true
					} else {
						break
					}
				}
				if !x.In && !x.Out {
					x.Out = true
				}
				x.Name = p.name()
				x.Type = p.ref()
				if p.maybe("=") {
					x.Default = p.literal()
				}
				p.unique(params, x.Name)
				m.Params = append(m.Params, x)
			}
			r.Methods = append(r.Methods, m)
		}
		v.Resources = append(v.Resources, r)
	default:
		p.fail("expected a declaration but found %q", kind)
	}
}

// Parse is an independent parser of the language. The error is for texts that aren't in the language,
// and the flag is for those that are but whose facts can't be calculated reliably.
func Parse(text string, v *Version, lookup func(id string) (Name, bool)) (odd bool, err error) {
	toks, err := Lex(text)
	if err != nil {
		return false, err
	}
	p := &parser{toks: toks, lookup: lookup}
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(stop)
			if !ok {
				panic(x)
			}
			err = s.err
		}
	}()
	for p.peek() != "" {
		p.declaration(v)
	}
	return p.odd, nil
}
