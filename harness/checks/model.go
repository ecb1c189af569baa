package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"verif.local/harness/gen"
	"verif.local/harness/run"
	"verif.local/harness/spec"
)

func init() {
	All["C03"] = Check{
		Rule: "Models are the hand written ones, models with references and random models, each one written with several layouts. A case is one " +
			"reading of one layout, where all the facts of the model in memory are compared, in both directions, with all the declared ones; " +
			"distinct ones are the facts.",
		Run: checkFacts,
	}
	All["C06"] = Check{
		Rule: "Identifiers are made from sequences of words, initialisms, plural initialisms and digits, so that the expected split and " +
			"spellings are known without parsing. A case is one identifier, or one pair or triplet for the order; distinct ones are the identifiers.",
		Run: checkNames,
	}
}

// compareFacts compares two lists and describes the differences.
func compareFacts(expected, actual []string) string {
	count := map[string]int{}
	for _, f := range expected {
		count[f]++
	}
	for _, f := range actual {
		count[f]--
	}
	var missing, extra []string
	for f, n := range count {
		if n > 0 {
			missing = append(missing, fmt.Sprintf("missing fact: %s", f))
		} else if n < 0 {
			extra = append(extra, fmt.Sprintf("unexpected fact: %s", f))
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	cut := func(l []string) []string {
		if len(l) > 6 {
			return append(l[:6:6], fmt.Sprintf("and %d more", len(l)-6))
		}
		return l
	}
	return strings.Join(append(cut(missing), cut(extra)...), "\n")
}

func checkFacts(c *Ctx) {
	models := append(gen.Suite(c.Seed, c.Pick(24, 300)), c.refModels(c.Pick(8, 80))...)
	models = append(models, gen.Wide(c.Seed, 1, 31, 33, 61), gen.Texts(c.Seed))
	if _, err := c.W.Probe(); err != nil {
		c.Problem("probe", "", err)
		return
	}
	c.Parallel(len(models), func(i int) {
		m := models[i]
		expected := m.Facts()
		r := c.Rand("facts", i)
		for _, l := range layouts(r, c.Pick(7, 14)) {
			if c.Broken() {
				return
			}
			p, err := c.W.Project(m, l.style)
			if err != nil {
				c.Problem(m.Label, "", err)
				return
			}
			if l.names {
				if err := rename(r, filepath.Join(p.Dir, "model")); err != nil {
					c.Problem(m.Label, "", run.Infra{Err: err})
					return
				}
			}
			c.Eval(1)
			var actual []string
			args := []string{"model"}
			if !m.HasRefs() && r.Intn(3) == 0 {
				// The same declarations, in several directories:
				l.name += ", several directories"
				if args, err = split(r, p.Dir); err != nil {
					c.Problem(m.Label, "", run.Infra{Err: err})
					return
				}
				c.Count("readings of several directories", 1)
			}
			if _, err := c.W.RunProbe(p.Dir, &actual, "dump", args...); err != nil {
				c.Problem(m.Label+", layout "+l.name, p.Dir, err)
				p.Remove()
				return
			}
			c.Count("facts compared", len(expected))
			c.Eval(len(expected))
			for _, f := range actual {
				c.Count("facts about "+strings.SplitN(f, " ", 2)[0], 1)
			}
			if d := compareFacts(expected, actual); d != "" {
				c.Fail(m.Label+", layout "+l.name, p.Dir, d, "the model in memory isn't the declared one: %s", d)
			}
			p.Remove()
		}
		for _, f := range expected {
			c.Seen(m.Label + ":" + f)
		}
		c.Sample(m.Label + ": " + strings.Join(expected[:3], "; "))
	})
}

// split moves some of the files of the model to other directories, and returns all of them in any order.
func split(r *rand.Rand, dir string) ([]string, error) {
	args := []string{"model"}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		args = append(args, fmt.Sprintf("model-%d", i))
		if err := os.MkdirAll(filepath.Join(dir, args[i+1]), 0755); err != nil {
			return nil, err
		}
	}
	root := filepath.Join(dir, "model")
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		k := r.Intn(len(args))
		if k == 0 {
			return nil
		}
		rel, err := filepath.Rel(root, path)
		if err != nil {
			return err
		}
		to := filepath.Join(dir, args[k], rel)
		if err := os.MkdirAll(filepath.Dir(to), 0755); err != nil {
			return err
		}
		return os.Rename(path, to)
	})
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	return args, err
}

// identifier makes a random identifier, with the words that form it.
func identifier(r *rand.Rand) spec.Name {
	letters := func(n int, alphabet string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[r.Intn(len(alphabet))]
		}
		return string(b)
	}
	const lower, upper, digits = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"
	var ws []string
	n := 1 + r.Intn(5)
	if r.Intn(10) == 0 {
		n += r.Intn(10)
	}
	last := "" // Kind of the previous word.
	for i := 0; i < n; i++ {
		long := 0
		if r.Intn(5) == 0 {
			long = r.Intn(12)
		}
		switch k := r.Intn(6); {
		case k == 0 && last != "init":
			ws = append(ws, letters(2+r.Intn(4)+long, upper))
			last = "init"
		case k == 1 && last != "init":
			// Initialism with digits, like EC2 or X509:
			ws = append(ws, letters(1+r.Intn(3)+long, upper)+letters(1+r.Intn(3)+long/2, digits))
			last = "init"
		case k == 2 && last != "init":
			// Plural, which is complete, so anything that isn't lower case can follow:
			ws = append(ws, letters(2+r.Intn(3)+long, upper)+"s")
			last = "plural"
		case k == 3 && r.Intn(4) == 0 && i == n-1 && i > 0 && last == "word":
			// Single letter at the end:
			ws = append(ws, letters(1, lower))
			last = "word"
		default:
			w := letters(1, lower) + letters(1+r.Intn(7)+long*2, lower)
			if last == "init" && w[1:] == "s" {
				w += "x"
			}
			ws = append(ws, w)
			last = "word"
		}
	}
	name := spec.MakeName(ws...)
	if r.Intn(6) == 0 {
		name = name.LowerFirst()
	}
	return name
}

type spelled struct {
	ID, Camel, Snake, Text, String, Public, Private, File string
	Words                                                 []string
	Init                                                  []bool
	Again                                                 []string
	AgainInit                                             []bool
}

var goKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("break case chan const continue default defer else fallthrough for func go goto if import interface map " +
		"package range return select struct switch type var") {
		goKeywords[w] = true
	}
}

// twin returns a name that is like the given one but has an initialism instead of a word or a word instead of an
// initialism.
func twin(r *rand.Rand, n spec.Name) (result spec.Name, ok bool) {
	words := append([]string{}, n.Words...)
	i := r.Intn(len(words))
	w := words[i]
	letters := len(w) > 1
	for _, c := range w {
		letters = letters && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
	}
	initialism := func(i int) bool {
		return i >= 0 && i < len(words) && words[i] != strings.ToLower(words[i])
	}
	switch {
	case !letters || n.ID[:1] == strings.ToLower(n.ID[:1]):
		return
	case w == strings.ToUpper(w):
		words[i] = strings.ToLower(w)
	case w != strings.ToLower(w) || initialism(i-1) || initialism(i+1) || i > 0 && len(words[i-1]) == 1 ||
		i+1 < len(words) && (len(words[i+1]) == 1 || words[i+1][0] < 'a'):
		return
	default:
		words[i] = strings.ToUpper(w)
	}
	// An initialism followed by something like 'as' can't be told apart from a plural:
	for j := 1; j < len(words); j++ {
		if initialism(j-1) && len(words[j]) == 2 && words[j][1] == 's' {
			return
		}
	}
	return spec.MakeName(words...), true
}

func checkNames(c *Ctx) {
	if _, err := c.W.Probe(); err != nil {
		c.Problem("probe", "", err)
		return
	}
	batches := c.Pick(24, 300)
	c.Parallel(batches, func(b int) {
		r := c.Rand("names", b)
		p, err := c.W.Empty()
		if err != nil {
			c.Problem("names", "", err)
			return
		}
		defer p.Remove()
		var list []spec.Name
		var ids []string
		if b == 0 {
			for w := range goKeywords {
				list = append(list, spec.MakeName(w), spec.MakeName(w).LowerFirst(), spec.MakeName(w, "list"))
			}
			for _, w := range []string{"CPU", "CPUs", "S3", "EC2", "X509", "IPs", "ID", "IDs"} {
				list = append(list, spec.MakeName(w), spec.MakeName(w, "list"), spec.MakeName("my", w), spec.MakeName("my", w, "list"),
					spec.MakeName("my", w, "list").LowerFirst(), spec.MakeName("the", w, "of", w, "node"))
			}
			sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
		}
		for len(list) < 1000 {
			list = append(list, identifier(r))
			if k := len(list); r.Intn(10) == 0 && k > 1 && len(list[k-1].Words[len(list[k-1].Words)-1]) > 1 {
				// Names that share a prefix are interesting for the order:
				x := list[k-1]
				list = append(list, spec.MakeName(append(append([]string{}, x.Words...), "more", "words")...))
				if len(x.Words) > 1 {
					list = append(list, spec.MakeName(x.Words[:len(x.Words)-1]...))
				}
			}
		}
		// Names that are different only in whether one of the words is an initialism:
		k := len(list)
		for i := 0; i < k; i++ {
			if x, ok := twin(r, list[i]); ok && (i < 100 || r.Intn(10) == 0) {
				j := r.Intn(i + 1)
				list = append(list, list[j])
				list[j] = x
			}
		}
		for _, n := range list {
			ids = append(ids, n.ID)
		}
		data, _ := json.Marshal(ids)
		if err := p.Put("names.json", string(data)); err != nil {
			c.Problem("names", "", err)
			return
		}
		var result struct {
			Names []spelled
			Order struct {
				Errors  []string
				Checked int
			}
		}
		if _, err := c.W.RunProbe(p.Dir, &result, "names", "names.json"); err != nil {
			c.Problem("names", p.Dir, err)
			return
		}
		c.Eval(result.Order.Checked)
		c.Count("pairs compared", result.Order.Checked)
		for _, e := range result.Order.Errors {
			c.Fail("order of names", "", "", "%s", e)
		}
		if len(result.Names) != len(list) {
			c.Problem("names", p.Dir, run.Infra{Err: fmt.Errorf("expected %d names but got %d", len(list), len(result.Names))})
			return
		}
		for i, n := range list {
			x := result.Names[i]
			c.Eval(1)
			c.Seen(n.ID)
			c.Count("identifiers", 1)
			private := n.Camel()
			if len(n.Words) > 0 {
				private = strings.ToLower(n.Words[0]) + private[len(n.Words[0]):]
			}
			if goKeywords[private] {
				// Any other valid identifier with the same prefix is good:
				ok := strings.HasPrefix(x.Private, private) && x.Private != private
				for _, ch := range x.Private {
					ok = ok && (ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch))
				}
				if !ok {
					c.Fail(n.ID, "", "", "private Go name of %s is %q, which isn't a valid identifier", n.ID, x.Private)
				}
				private = x.Private
			}
			expected := spelled{ID: n.ID, Camel: n.Camel(), Snake: n.Snake(), Text: n.ID, String: n.Key(), Public: n.Camel(), Private: private,
				File: n.Snake(), Words: n.Words, Init: n.Init, Again: n.Words, AgainInit: n.Init}
			a, _ := json.Marshal(expected)
			b, _ := json.Marshal(x)
			if string(a) != string(b) {
				c.Fail(n.ID, "", string(a)+"\n"+string(b), "identifier %s made of the words %v is spelled %s instead of %s", n.ID, n.Words, b, a)
				return
			}
			if i < 2 {
				c.Sample(string(b))
			}
		}
	})
}
