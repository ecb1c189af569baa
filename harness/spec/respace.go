package spec

import (
	"math/rand"
	"strings"
	"unicode"
)

// respace changes the blanks between the tokens of a source: more or less of them, ends of line, and comments. What is
// between the last token of a line and the first one of the next isn't changed, because what is a documentation comment
// depends on it.
func respace(text string, r *rand.Rand) string {
	const (
		word = iota
		mark
		literal
	)
	blank := func(c rune) bool { return c == ' ' || c == '\t' }
	special := func(c rune) bool { return unicode.IsSpace(c) || strings.ContainsRune("{}[]()=@\"`/", c) }
	fillers := []string{" ", "  ", "\t", " \t ", "\n", "\n\n\t", " /* } // */ ", "/**/", "/* a\n * b\n */", "\r\n"}
	var out strings.Builder
	rs := []rune(text)
	last := -1 // Kind of the last token of this line, if there is one.
	for i := 0; i < len(rs); {
		// The blanks that precede the token:
		start := i
		for i < len(rs) && blank(rs[i]) {
			i++
		}
		spaces := string(rs[start:i])
		rest := rs[i:]
		until := func(from int, end string) int {
			tail := string(rest[from:])
			j := strings.Index(tail, end)
			if j < 0 {
				return len(rest)
			}
			return from + len([]rune(tail[:j])) + len([]rune(end))
		}
		if len(rest) == 0 {
			out.WriteString(spaces)
			break
		}
		n, kind := 1, mark
		switch c := rest[0]; {
		case c == '\n' || c == '\r':
			kind = -1
		case c == '/' && len(rest) > 1 && rest[1] == '/':
			n, kind = until(2, "\n")-1, -1
			if rest[n] != '\n' {
				n++
			}
		case c == '/' && len(rest) > 1 && rest[1] == '*':
			n, kind = until(2, "*/"), -1
		case c == '"' || c == '`':
			n, kind = until(1, string(c)), literal
		case !special(c):
			for n < len(rest) && !special(rest[n]) {
				n++
			}
			kind = word
		}
		if last >= 0 && kind >= 0 {
			switch x := r.Intn(3); {
			case x == 0:
				spaces = fillers[r.Intn(len(fillers))]
			case x == 1 && (last != word || kind != word):
				spaces = ""
			}
		}
		out.WriteString(spaces)
		out.WriteString(string(rest[:n]))
		last = kind
		i += n
	}
	return out.String()
}
