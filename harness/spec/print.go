package spec

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Style describes how to write the source of a model.
type Style struct {
	Rand    *rand.Rand // Source of randomness, nil means no variation at all.
	Files   int        // Number of files per version: 0 means one per declaration.
	Shuffle bool       // Change the order of declarations and members.
	Noise   bool       // Add comments, blank lines, and optional keywords.
	Dense   bool       // Put as much as possible in the same line.
	CRLF    bool       // Use the line ends of DOS.
	Bare    bool       // Nothing before the first declaration or after the last one, and spaces instead of tabs.
	Spaced  bool       // Change the blanks between tokens.
}

type printer struct {
	st  Style
	out strings.Builder
	ind int
}

func (p *printer) chance(n int) bool {
	return p.st.Noise && p.st.Rand != nil && p.st.Rand.Intn(n) == 0
}

func (p *printer) perm(n int) []int {
	if p.st.Shuffle && p.st.Rand != nil {
		return p.st.Rand.Perm(n)
	}
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func (p *printer) pad() string {
	if p.st.Bare {
		return strings.Repeat(" ", p.ind)
	}
	return strings.Repeat("\t", p.ind)
}

func (p *printer) line(format string, args ...interface{}) {
	text := fmt.Sprintf(format, args...)
	p.out.WriteString(p.pad())
	p.out.WriteString(text)
	if !strings.HasPrefix(format, "//") && !strings.HasPrefix(format, "/*") {
		// What ends in a later line than it starts is where a trailing comment is more interesting:
		n := 8
		if strings.Contains(text, "\n") {
			n = 2
		}
		if p.chance(n) {
			p.out.WriteString(" // trailing comment { that is not documentation")
		}
	}
	p.out.WriteString("\n")
}

// code writes something that can be in the same line than what precedes and follows it.
func (p *printer) code(format string, args ...interface{}) {
	if !p.st.Dense || p.st.Rand == nil || p.st.Rand.Intn(3) == 0 {
		p.line(format, args...)
		return
	}
	fmt.Fprintf(&p.out, format, args...)
	p.out.WriteString(" ")
}

// gap separates declarations.
func (p *printer) gap() {
	if !p.st.Dense {
		p.out.WriteString("\n")
	}
}

// head prints the noise, documentation and annotations that precede a declaration.
func (p *printer) head(doc string, ann Ann) {
	if p.chance(4) {
		p.line("// noise that is not documentation")
		p.line("// because of the blank line that follows")
		p.out.WriteString("\n")
	}
	if p.chance(6) {
		p.line("/* block comment { class } @ \" */")
	}
	if p.chance(6) {
		p.line("/* multi\n line\n block // comment */")
	}
	if doc == "" {
		// Make sure that the previous line isn't a comment.
		if p.chance(3) {
			p.out.WriteString("\n")
		}
	} else {
		if p.st.Dense {
			p.out.WriteString("\n")
		}
		prefix := " "
		if p.chance(3) {
			prefix = []string{"", "  ", "\t"}[p.st.Rand.Intn(3)]
		}
		for _, l := range strings.Split(doc, "\n") {
			if l == "" {
				p.line("//")
			} else {
				p.line("//%s%s", prefix, l)
			}
		}
	}
	var anns []string
	q := func(s string) string { return strconv.Quote(s) }
	if p.st.Rand != nil && p.st.Noise && p.st.Rand.Intn(3) == 0 {
		q = func(s string) string { return "`" + s + "`" }
	}
	if ann.Go != "" {
		anns = append(anns, "@go(name = "+q(ann.Go)+")")
	}
	if ann.JSON != "" {
		anns = append(anns, "@json(name="+q(ann.JSON)+")")
	}
	if ann.HTTP != "" {
		anns = append(anns, "@http(name = "+q(ann.HTTP)+")")
	}
	if ann.Ref != "" {
		anns = append(anns, "@ref(path = "+strconv.Quote(ann.Ref)+")")
	}
	for _, o := range ann.Other {
		var ps []string
		for _, a := range o.Params {
			ps = append(ps, a.Name+" = "+p.literal(a.Value))
		}
		if len(ps) == 0 {
			if p.chance(2) {
				anns = append(anns, "@"+o.Name+"()")
			} else {
				anns = append(anns, "@"+o.Name)
			}
		} else {
			anns = append(anns, "@"+o.Name+"("+strings.Join(ps, " ")+")")
		}
	}
	for _, i := range p.perm(len(anns)) {
		p.code("%s", anns[i])
	}
}

// literal writes a literal value in any of the ways that the language has to write it.
func (p *printer) literal(v interface{}) string {
	text := Literal(v)
	if !p.chance(2) {
		return text
	}
	switch x := v.(type) {
	case string:
		switch {
		case p.st.Rand.Intn(2) == 0 && !strings.ContainsAny(x, "`\r"):
			text = "`" + x + "`"
		case !strings.Contains(x, `"`):
			var out strings.Builder
			for _, r := range x {
				switch {
				case p.st.Rand.Intn(3) > 0 || r == '\\' || r < ' ' || r == 0xfffd:
					q := strconv.Quote(string(r))
					out.WriteString(q[1 : len(q)-1])
				case r > 0xffff:
					fmt.Fprintf(&out, "\\U%08x", r)
				case r < 0x80 && p.st.Rand.Intn(2) == 0:
					fmt.Fprintf(&out, "\\x%02x", r)
				default:
					fmt.Fprintf(&out, "\\u%04x", r)
				}
			}
			text = `"` + out.String() + `"`
		}
	case bool:
	default:
		text = strings.Repeat("0", p.st.Rand.Intn(4)) + text
	}
	return text
}

// Literal writes a literal value.
func Literal(v interface{}) string {
	switch x := v.(type) {
	case string:
		// The lexer ends a string at the first double quote, so strings that contain double quotes
		// have to use the alternative syntax.
		if strings.Contains(x, `"`) {
			return "`" + x + "`"
		}
		return strconv.Quote(x)
	case float64:
		return strconv.Itoa(int(x))
	default:
		return fmt.Sprintf("%v", v)
	}
}

func (r Ref) String() string {
	switch r.Kind {
	case List:
		return "[]" + r.Name.ID
	case Map:
		return "[" + r.Index.ID + "]" + r.Name.ID
	}
	return r.Name.ID
}

func (p *printer) typ(t *Type) {
	if t.Origin == RefClass {
		p.head("", Ann{Ref: t.Ann.Ref})
		p.code("class %s {", t.Name.ID)
		p.code("}")
		p.gap()
		return
	}
	p.head(t.Doc, t.Ann)
	p.code("%s %s {", t.Kind, t.Name.ID)
	p.ind++
	for _, i := range p.perm(len(t.Attrs)) {
		a := t.Attrs[i]
		p.head(a.Doc, a.Ann)
		kw := ""
		if a.Link {
			kw = "link "
		} else if p.chance(3) {
			kw = "attribute "
		}
		p.code("%s%s %s", kw, a.Name.ID, a.Type)
	}
	for _, i := range p.perm(len(t.Values)) {
		x := t.Values[i]
		p.head(x.Doc, x.Ann)
		kw := ""
		if p.chance(3) {
			kw = "value "
		}
		p.code("%s%s", kw, x.Name.ID)
	}
	p.ind--
	p.code("}")
	p.gap()
}

func (p *printer) resource(r *Resource) {
	p.head(r.Doc, r.Ann)
	p.code("resource %s {", r.Name.ID)
	p.ind++
	n := len(r.Methods)
	for _, i := range p.perm(n + len(r.Locators)) {
		if i < n {
			p.method(r.Methods[i])
		} else {
			l := r.Locators[i-n]
			p.head(l.Doc, l.Ann)
			p.code("locator %s {", l.Name.ID)
			p.ind++
			lines := []string{"target " + l.Target.ID}
			if l.Variable {
				lines = append(lines, "variable ID")
			}
			for _, j := range p.perm(len(lines)) {
				p.code("%s", lines[j])
			}
			p.ind--
			p.code("}")
			p.gap()
		}
	}
	p.ind--
	p.code("}")
	p.gap()
}

func (p *printer) method(m *Method) {
	p.head(m.Doc, m.Ann)
	kw := "method "
	if p.chance(3) {
		kw = ""
	}
	p.code("%s%s {", kw, m.Name.ID)
	p.ind++
	for _, i := range p.perm(len(m.Params)) {
		x := m.Params[i]
		p.head(x.Doc, x.Ann)
		s := ""
		if p.chance(3) {
			s = "parameter "
		}
		switch {
		case x.In && x.Out && p.chance(2):
			s += "out in "
		case x.In && x.Out:
			s += "in out "
		case x.In:
			s += "in "
		case p.chance(2):
			// Output is the default direction.
		default:
			s += "out "
		}
		s += x.Name.ID + " " + x.Type.String()
		if x.Default != nil {
			s += " = " + p.literal(x.Default)
		}
		p.code("%s", s)
	}
	p.ind--
	p.code("}")
	p.gap()
}

func (p *printer) err(e *Error) {
	p.head(e.Doc, e.Ann)
	p.code("error %s {", e.Name.ID)
	p.ind++
	p.code("code %s", p.literal(e.Code))
	p.ind--
	p.code("}")
	p.gap()
}

// Write writes the source of the model to the given directory.
func (m *Model) Write(dir string, st Style) error {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			vd := filepath.Join(dir, s.Name.ID, v.Name.ID)
			if err := os.MkdirAll(vd, 0755); err != nil {
				return err
			}
			for name, text := range v.Source(st) {
				if err := os.WriteFile(filepath.Join(vd, name), []byte(text), 0644); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// Source returns the source files of the version.
func (v *Version) Source(st Style) map[string]string {
	var decls []func(p *printer)
	for _, t := range v.Types {
		t := t
		if t.Origin == Brought {
			continue
		}
		decls = append(decls, func(p *printer) { p.typ(t) })
	}
	for _, r := range v.Resources {
		r := r
		decls = append(decls, func(p *printer) { p.resource(r) })
	}
	for _, e := range v.Errors {
		e := e
		decls = append(decls, func(p *printer) { p.err(e) })
	}
	n := st.Files
	if n == 0 {
		n = len(decls)
	}
	if n == 0 {
		n = 1
	}
	printers := make([]*printer, n)
	for i := range printers {
		printers[i] = &printer{st: st}
		if !st.Bare {
			printers[i].line("/* Copyright notice */")
			printers[i].out.WriteString("\n")
		}
	}
	order := printers[0].perm(len(decls))
	for i, d := range order {
		p := printers[i%n]
		if st.Shuffle && st.Rand != nil {
			p = printers[st.Rand.Intn(n)]
		}
		decls[d](p)
	}
	files := map[string]string{}
	for i, p := range printers {
		text := p.out.String()
		if st.Bare {
			text = strings.TrimRight(text, "\n")
		}
		if st.Spaced && st.Rand != nil {
			text = respace(text, st.Rand)
		}
		if st.CRLF {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		files[fmt.Sprintf("f%03d.model", i)] = text
	}
	return files
}
