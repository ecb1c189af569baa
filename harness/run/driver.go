package run

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/harness/drv"
)

// Registry writes the main program of the driver, registering all the names exported by the
// generated packages.
func (p *Project) Registry(dir string, test bool) error {
	gen := filepath.Join(p.Dir, "gen")
	files := map[string][]string{}
	err := filepath.Walk(gen, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !info.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(gen, filepath.Dir(path))
			files[rel] = append(files[rel], path)
		}
		return nil
	})
	if err != nil {
		return infra("%v", err)
	}
	var pkgs []string
	for k := range files {
		pkgs = append(pkgs, k)
	}
	sort.Strings(pkgs)
	var imports, entries strings.Builder
	for i, pkg := range pkgs {
		alias := fmt.Sprintf("p%d", i)
		var lines []string
		for _, path := range files[pkg] {
			f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
			if err != nil {
				return fmt.Errorf("generated file %s isn't valid Go: %v", path, err)
			}
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil && x.Name.IsExported() {
						lines = append(lines, fmt.Sprintf("\t%q: %s.%s,\n", pkg+"/"+x.Name.Name, alias, x.Name.Name))
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							if !y.Name.IsExported() {
								continue
							}
							switch y.Type.(type) {
							case *ast.StructType:
								lines = append(lines, fmt.Sprintf("\t%q: (*%s.%s)(nil),\n", pkg+"/type "+y.Name.Name, alias, y.Name.Name))
							case *ast.Ident:
								lines = append(lines, fmt.Sprintf("\t%q: *new(%s.%s),\n", pkg+"/type "+y.Name.Name, alias, y.Name.Name))
							}
						case *ast.ValueSpec:
							for _, n := range y.Names {
								if n.IsExported() {
									lines = append(lines, fmt.Sprintf("\t%q: %s.%s,\n", pkg+"/"+n.Name, alias, n.Name))
								}
							}
						}
					}
				}
			}
		}
		if len(lines) == 0 {
			continue
		}
		sort.Strings(lines)
		fmt.Fprintf(&imports, "\t%s %q\n", alias, Base+"/"+pkg)
		entries.WriteString(strings.Join(lines, ""))
	}
	extra, entry, file := "", "func main() { drv.Main(registry) }", "main.go"
	if test {
		extra, entry, file = "\t\"testing\"\n", "func TestDriver(t *testing.T) { drv.Test(t, registry) }", "main_test.go"
	}
	text := "package main\n\nimport (\n\t\"verif.local/harness/drv\"\n" + extra + imports.String() + ")\n\n" +
		entry + "\n\nvar registry = map[string]interface{}{\n" + entries.String() + "}\n"
	return p.Put(filepath.Join(dir, file), text)
}

// Kinds of drivers.
const (
	Normal  = ""
	Race    = "race" // With the race detector.
	Virtual = "test" // Inside of a test, where a virtual clock can be used.
)

// Driver builds the driver.
func (p *Project) Driver(kind string) (string, error) {
	if err := p.Registry("drv"+kind, kind == Virtual); err != nil {
		return "", err
	}
	bin := filepath.Join(p.Dir, "driver"+kind)
	args := []string{"build", "-trimpath", "-o", bin}
	var env []string
	switch kind {
	case Race:
		args = append(args, "-race")
		env = []string{"CGO_ENABLED=1"}
	case Virtual:
		args = []string{"test", "-c", "-trimpath", "-vet=off", "-o", bin}
	}
	args = append(cover(args, "./..."), "./drv"+kind)
	res := p.W.Exec(p.Dir, Limit, env, "go", args...)
	if res.Timeout {
		return "", infra("compilation of the driver takes too long")
	}
	if res.Code != 0 {
		return "", fmt.Errorf("the generated code doesn't compile with its users: %s", Tail(res.Out, 20))
	}
	return bin, nil
}

// DriverResult is the result of running a driver.
type DriverResult struct {
	*drv.Result
	Res Res
}

// Run runs the driver for a check.
func (p *Project) Run(bin, check string, seed int64, n int, only string, env ...string) (*drv.Result, Res, error) {
	out := filepath.Join(p.Dir, "result-"+check+".json")
	_ = os.Remove(out)
	args := []string{"-drv.check=" + check, "-drv.model=model.json", fmt.Sprintf("-drv.seed=%d", seed),
		fmt.Sprintf("-drv.n=%d", n), "-drv.only=" + only, "-drv.out=" + out}
	if Cover != "" && strings.HasSuffix(bin, Virtual) {
		args = append(args, "-test.gocoverdir="+Cover)
	}
	res := p.W.Exec(p.Dir, Limit, env, bin, args...)
	if res.Timeout {
		return nil, res, infra("the driver takes too long: %s", Tail(res.Out, 10))
	}
	text, err := os.ReadFile(out)
	if err != nil {
		return nil, res, fmt.Errorf("the driver crashed: %s", Tail(res.Out, 40))
	}
	result := &drv.Result{}
	if err := json.Unmarshal(text, result); err != nil {
		return nil, res, infra("%v", err)
	}
	return result, res, nil
}
