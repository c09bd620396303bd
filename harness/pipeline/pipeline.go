// Package pipeline generates Go code for random models with the command line tool built from the
// current tree, compiles it together with the checks of package rt, and runs those.
package pipeline

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/engine"
	"verif/inproc"
	"vlib/mm"
	"vlib/rec"
	"vlib/rt"

	"pgregory.net/rapid"
)

// Env is the environment for the commands.
func Env(extraPath string) []string {
	var env []string
	for _, v := range os.Environ() {
		switch strings.SplitN(v, "=", 2)[0] {
		case "GOFLAGS", "PATH", "CGO_ENABLED":
		default:
			env = append(env, v)
		}
	}
	path := os.Getenv("PATH")
	if extraPath != "" {
		path = extraPath + ":" + path
	}
	return append(env, "PATH="+path, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off",
		"GONOSUMDB=*", "GOTOOLCHAIN=local", "GOWORK=off")
}

// BuildCLI builds the command line tool from the current tree.
func BuildCLI(c *engine.Ctx) (string, error) {
	bin := filepath.Join(c.Scratch, "metamodel")
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", bin, "./cmd/metamodel")
	cmd.Dir = c.Repo
	cmd.Env = append(Env(""), "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("can't build the command line tool: %v\n%s", err, out)
	}
	return bin, nil
}

// findFormatter finds goimports.
func findFormatter() (string, error) {
	real := "/opt/vp/bin/goimports"
	if _, err := os.Stat(real); err == nil {
		return real, nil
	}
	return exec.LookPath("goimports")
}

// tools creates a directory that contains a wrapper of goimports that runs it in parallel.
func tools(c *engine.Ctx) (string, error) {
	real, err := findFormatter()
	if err != nil {
		return "", err
	}
	dir := filepath.Join(c.Scratch, "bin")
	os.MkdirAll(dir, 0o755)
	text := fmt.Sprintf(`#!/bin/bash
flags=(); files=()
for a in "$@"; do case "$a" in -*) flags+=("$a");; *) files+=("$a");; esac; done
[ ${#files[@]} -eq 0 ] && exec %[1]s "${flags[@]}"
printf '%%s\0' "${files[@]}" | xargs -0 -P 8 -n 30 %[1]s "${flags[@]}"
`, real)
	err = os.WriteFile(filepath.Join(dir, "goimports"), []byte(text), 0o755)
	return dir, err
}

// PrepareCLI builds the command line tool for the checks that run it directly.
func PrepareCLI(c *engine.Ctx) error {
	cli, err := BuildCLI(c)
	if err != nil {
		return err
	}
	real, err := findFormatter()
	if err != nil {
		return err
	}
	dir := filepath.Join(c.Scratch, "tools")
	for name, text := range map[string]string{
		"none": "exit 0", "real": "exec " + real + " \"$@\"", "missing": "", "fail": "exit 3",
	} {
		if err := os.MkdirAll(filepath.Join(dir, name), 0o755); err != nil {
			return err
		}
		if text == "" {
			continue
		}
		err := os.WriteFile(filepath.Join(dir, name, "goimports"), []byte("#!/bin/sh\n"+text+"\n"), 0o755)
		if err != nil {
			return err
		}
	}
	os.Setenv(inproc.CLIVar, cli)
	os.Setenv(inproc.ToolsVar, dir)
	return nil
}

// Tree is generated code.
type Tree struct {
	Ctx   *engine.Ctx
	CLI   string
	Tools string
	Dir   string
	// Model is the model without references, used by the checks, and Source the one that is written
	// to the files.
	Model, Source *mm.Model
	// Results:
	Bin string
}

// Failure is what happens when the code can't be generated or compiled.
type Failure struct {
	Stage string
	Text  string
}

func (f *Failure) Error() string { return f.Stage + ": " + f.Text }

// GenModel generates a model with the given number of services.
func GenModel(seed uint64, n int, o mm.Opts, refs bool) *mm.Model {
	m := &mm.Model{}
	for i := 0; i < n; i++ {
		oi := o
		oi.Prefix = fmt.Sprintf("s%d_", i)
		oi.MaxServices = 1
		g := rapid.Custom(func(t *rapid.T) *mm.Model {
			if refs {
				return mm.GenRefModel(t, oi)
			}
			return mm.GenModel(t, oi)
		})
		one := g.Example(int(engine.Mix(seed, uint64(i)) >> 2))
		m.Services = append(m.Services, one.Services...)
	}
	return m
}

// WriteModel writes the files of a model.
func WriteModel(m *mm.Model, dir string) error {
	for name, text := range m.Files() {
		path := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return nil
}

const goMod = `module example.com/gm

go 1.23

require (
	github.com/golang/glog v1.0.0
	github.com/json-iterator/go v1.1.12
	pgregory.net/rapid v1.3.0
	vlib v0.0.0
)

require (
	github.com/modern-go/concurrent v0.0.0-20180228061459-e0a39a4cb421 // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)

replace github.com/stretchr/testify => ./zz

replace vlib => %s
`

// Generate writes the model and runs the generator of Go code.
func (t *Tree) Generate() error {
	os.RemoveAll(t.Dir)
	model := filepath.Join(t.Dir, "model")
	module := filepath.Join(t.Dir, "gm")
	for _, d := range []string{model, module, filepath.Join(module, "zz")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
	}
	if err := WriteModel(t.Source, model); err != nil {
		return err
	}
	data, err := json.Marshal(t.Model)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(t.Dir, "model.json"), data, 0o644); err != nil {
		return err
	}
	data, err = json.Marshal(t.Source)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(t.Dir, "source.json"), data, 0o644); err != nil {
		return err
	}
	var sum []byte
	for _, f := range []string{filepath.Join(t.Ctx.Repo, "tests/go/go.sum"), filepath.Join(t.Ctx.Root, "harness/go.sum")} {
		data, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		sum = append(sum, data...)
	}
	files := map[string]string{
		"go.mod":    fmt.Sprintf(goMod, filepath.Join(t.Ctx.Root, "lib")),
		"go.sum":    string(sum),
		"zz/go.mod": "module github.com/stretchr/testify\n",
	}
	for name, text := range files {
		if err := os.WriteFile(filepath.Join(module, name), []byte(text), 0o644); err != nil {
			return err
		}
	}
	cmd := exec.Command(t.CLI, "generate", "go", "--model="+model, "--base=example.com/gm/g",
		"--output="+filepath.Join(module, "g"))
	cmd.Dir = module
	cmd.Env = Env(t.Tools)
	out, err := cmd.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); ok {
			return &Failure{Stage: "the generator of Go code failed for a valid model", Text: interesting(string(out))}
		}
		return err
	}
	if t.Ctx.Prop.ID != "C18" {
		return nil
	}
	cmd = exec.Command(t.CLI, "generate", "openapi", "--model="+model, "--output="+filepath.Join(t.Dir, "openapi"))
	cmd.Dir = module
	cmd.Env = Env(t.Tools)
	out, err = cmd.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); ok {
			return &Failure{Stage: "the generator of specifications failed for a valid model", Text: interesting(string(out))}
		}
		return err
	}
	return nil
}

var colors = regexp.MustCompile("\x1b\\[[0-9;]*m")

func interesting(text string) string {
	text = colors.ReplaceAllString(text, "")
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "I:") || strings.HasPrefix(l, "W:") || strings.HasPrefix(l, "D:") || l == "" {
			continue
		}
		lines = append(lines, l)
		if len(lines) >= 25 {
			break
		}
	}
	return strings.Join(lines, "\n")
}

// Packages lists the directories of the generated packages, relative to the base.
func (t *Tree) Packages() ([]string, error) {
	base := filepath.Join(t.Dir, "gm", "g")
	dirs := map[string]bool{}
	err := filepath.Walk(base, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(base, filepath.Dir(path))
			dirs[rel] = true
		}
		return nil
	})
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	return list, err
}

// registry writes the file that registers the exported symbols of a package.
func (t *Tree) registry(rel string) error {
	dir := filepath.Join(t.Dir, "gm", "g", rel)
	entries, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	set := token.NewFileSet()
	pkg := ""
	var syms, types []string
	seen := map[string]bool{}
	add := func(list *[]string, name string) {
		if (ast.IsExported(name) || rel == "metrics" && name == "pathTreeData") && !seen[name] {
			seen[name] = true
			*list = append(*list, name)
		}
	}
	for _, entry := range entries {
		if !strings.HasSuffix(entry.Name(), ".go") || strings.HasSuffix(entry.Name(), "_test.go") {
			continue
		}
		file, err := parser.ParseFile(set, filepath.Join(dir, entry.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			return &Failure{Stage: "the generated code isn't correct", Text: err.Error()}
		}
		pkg = file.Name.Name
		for _, decl := range file.Decls {
			switch typed := decl.(type) {
			case *ast.FuncDecl:
				if typed.Recv == nil {
					add(&syms, typed.Name.Name)
				}
			case *ast.GenDecl:
				for _, spec := range typed.Specs {
					switch s := spec.(type) {
					case *ast.ValueSpec:
						for _, n := range s.Names {
							add(&syms, n.Name)
						}
					case *ast.TypeSpec:
						if s.TypeParams == nil {
							add(&types, s.Name.Name)
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n\tzzreflect \"reflect\"\n\tzzrt \"vlib/rt\"\n)\n\n", pkg)
	fmt.Fprintf(&b, "func init() {\n\tzzrt.Register(%q, map[string]interface{}{\n", rel)
	for _, s := range syms {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", s, s)
	}
	b.WriteString("\t}, map[string]zzreflect.Type{\n")
	for _, s := range types {
		fmt.Fprintf(&b, "\t\t%q: zzreflect.TypeOf((*%s)(nil)).Elem(),\n", s, s)
	}
	b.WriteString("\t})\n}\n")
	return os.WriteFile(filepath.Join(dir, "zz_registry.go"), b.Bytes(), 0o644)
}

// Compile compiles the generated code together with the checks.
func (t *Tree) Compile() error {
	dirs, err := t.Packages()
	if err != nil {
		return err
	}
	module := filepath.Join(t.Dir, "gm")
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"vlib/rt\"\n")
	for _, d := range dirs {
		if err := t.registry(d); err != nil {
			return err
		}
		fmt.Fprintf(&b, "\t_ \"example.com/gm/g/%s\"\n", filepath.ToSlash(d))
	}
	b.WriteString(")\n\nfunc main() { rt.Main() }\n")
	main := filepath.Join(module, "zzmain")
	if err := os.MkdirAll(main, 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(main, "main.go"), b.Bytes(), 0o644); err != nil {
		return err
	}
	t.Bin = filepath.Join(t.Dir, "worker")
	cmd := exec.Command("go", "build", "-trimpath", "-ldflags=-s -w", "-o", t.Bin, "./zzmain")
	cmd.Dir = module
	cmd.Env = Env("")
	out, err := cmd.CombinedOutput()
	if err != nil {
		text := string(out)
		if strings.Contains(text, "# example.com/gm/g/") || strings.Contains(text, "g/") {
			return &Failure{Stage: "the generated code doesn't compile", Text: interesting(text)}
		}
		return fmt.Errorf("can't compile the generated code: %v\n%s", err, text)
	}
	return nil
}

// Options are the options of the pipeline.
type Options struct {
	Opts mm.Opts
	// Refs generates models with references.
	Refs bool
	// Number of trees and number of services per tree in each tier.
	QuickTrees, QuickServices       int
	ThoroughTrees, ThoroughServices int
}

// DefaultOptions are the options used by most of the checks.
var DefaultOptions = Options{
	Opts:       mm.Opts{MaxVersions: 2, MaxTypes: 3, MaxAttrs: 8, MaxResources: 4, Big: true},
	QuickTrees: 3, QuickServices: 18,
	ThoroughTrees: 6, ThoroughServices: 20,
}

// Case is what goes into the replay files.
type Case struct {
	Model *mm.Model
	Case  interface{} `json:",omitempty"`
}

// Stage returns a function that runs a check inside the generated code.
func Stage(o Options) func(c *engine.Ctx) (*engine.Outcome, error) {
	return func(c *engine.Ctx) (*engine.Outcome, error) {
		out := engine.NewOutcome()
		cli, err := BuildCLI(c)
		if err != nil {
			return nil, err
		}
		bin, err := tools(c)
		if err != nil {
			return nil, err
		}
		trees, services := o.QuickTrees, o.QuickServices
		if c.Thorough() {
			trees, services = o.ThoroughTrees, o.ThoroughServices
		}
		versions := 0
		for i := 0; i < trees; i++ {
			t := &Tree{
				Ctx: c, CLI: cli, Tools: bin, Dir: filepath.Join(c.Scratch, "tree"),
				Source: GenModel(engine.Mix(c.Seed, 77, uint64(i)), services, o.Opts, o.Refs),
			}
			t.Model = flatten(t.Source)
			for _, s := range t.Model.Services {
				versions += len(s.Versions)
			}
			err := t.Generate()
			if err == nil {
				err = t.Compile()
			}
			if failure, ok := err.(*Failure); ok {
				out.Evaluations++
				out.Violation = t.minimize(failure)
				return out, nil
			}
			if err != nil {
				return nil, err
			}
			out.Extra["generated_versions"] = versions
			if err := t.run(out, uint64(i)); err != nil {
				return nil, err
			}
			if out.Violation != nil {
				return out, nil
			}
		}
		os.RemoveAll(filepath.Join(c.Scratch, "tree"))
		return out, nil
	}
}

func flatten(m *mm.Model) *mm.Model {
	if m.HasRefs() {
		return m.Flatten()
	}
	return m
}

func (t *Tree) run(out *engine.Outcome, n uint64) error {
	c := t.Ctx
	budget := c.Budget()
	if c.Thorough() {
		budget = 6 * time.Minute
	}
	var spawns []*engine.Spawn
	for i := 0; i < 8; i++ {
		dir := filepath.Join(t.Dir, fmt.Sprintf("w%d", i))
		os.MkdirAll(dir, 0o755)
		s := &engine.Spawn{Out: filepath.Join(dir, "result.json"), Case: filepath.Join(dir, "case.json")}
		s.Cmd = exec.Command(t.Bin, "-id", c.Prop.ID, "-tier", c.Tier,
			"-seed", fmt.Sprint(engine.Mix(c.Seed, n, uint64(i))), "-out", s.Out, "-case", s.Case,
			"-budget", budget.String(), "-model", t.Dir)
		s.Cmd.Env = Env("")
		spawns = append(spawns, s)
	}
	if err := c.RunAll(out, spawns); err != nil {
		return err
	}
	if v := out.Violation; v != nil {
		v.Case = &Case{Model: t.restrict(v.Case), Case: v.Case}
	}
	return nil
}

// restrict returns a model that contains only the version used by the case.
func (t *Tree) restrict(c interface{}) *mm.Model {
	data, _ := json.Marshal(c)
	var ref struct {
		Dir   string
		Route struct{ Dir string }
	}
	json.Unmarshal(data, &ref)
	if ref.Dir == "" {
		ref.Dir = ref.Route.Dir
	}
	for _, s := range t.Model.Services {
		for _, v := range s.Versions {
			if v.Package(s) == ref.Dir {
				return &mm.Model{Services: t.group(s)}
			}
		}
	}
	return t.Source
}

// group returns the services that are needed by the given one.
func (t *Tree) group(s *mm.Service) (result []*mm.Service) {
	prefix := strings.SplitAfter(s.Name, "_")[0]
	for _, x := range t.Source.Services {
		if x.Name == s.Name || t.Source.HasRefs() && strings.HasPrefix(x.Name, prefix) {
			result = append(result, x)
		}
	}
	return
}

// minimize finds a small model for which the generator fails, or for which the generated code
// doesn't compile.
func (t *Tree) minimize(failure *Failure) *rec.Violation {
	deadline := time.Now().Add(90 * time.Second)
	if t.Ctx.Thorough() {
		deadline = time.Now().Add(5 * time.Minute)
	}
	stage := failure.Stage
	fails := func(m *mm.Model) *Failure {
		if !m.Resolved() {
			return nil
		}
		x := *t
		x.Model, x.Source = flatten(m), m
		x.Dir = filepath.Join(t.Ctx.Scratch, "min")
		err := x.Generate()
		if err == nil {
			err = x.Compile()
		}
		f, ok := err.(*Failure)
		if ok && f.Stage == stage {
			return f
		}
		return nil
	}
	model := t.Source
	if model.HasRefs() {
		for i, s := range model.Services {
			group := &mm.Model{Services: t.group(s)}
			if i > 0 && strings.SplitAfter(s.Name, "_")[0] == strings.SplitAfter(model.Services[i-1].Name, "_")[0] {
				continue
			}
			if f := fails(group); f != nil {
				model, failure = group, f
				break
			}
		}
	}
	// Half of the services, repeatedly:
	for len(model.Services) > 1 && time.Now().Before(deadline) {
		n := len(model.Services) / 2
		a := &mm.Model{Services: model.Services[:n]}
		b := &mm.Model{Services: model.Services[n:]}
		if f := fails(a); f != nil {
			model, failure = a, f
		} else if f := fails(b); f != nil {
			model, failure = b, f
		} else {
			break
		}
	}
	// Then remove things while it still fails:
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for _, candidate := range reductions(model) {
			if time.Now().After(deadline) {
				break
			}
			if f := fails(candidate); f != nil {
				model, failure = candidate, f
				changed = true
				break
			}
		}
	}
	return &rec.Violation{
		Prop: "generate and compile", Message: failure.Error(), Case: &Case{Model: model},
	}
}

func clone(m *mm.Model) *mm.Model {
	data, _ := json.Marshal(m)
	r := &mm.Model{}
	json.Unmarshal(data, r)
	return r
}

// reductions returns smaller valid models.
func reductions(m *mm.Model) []*mm.Model {
	var list []*mm.Model
	each := func(fn func(c *mm.Model, s *mm.Service, v *mm.Version) bool) {
		for si, s := range m.Services {
			for vi := range s.Versions {
				c := clone(m)
				if fn(c, c.Services[si], c.Services[si].Versions[vi]) {
					list = append(list, c)
				}
			}
		}
	}
	for si, s := range m.Services {
		for vi := range s.Versions {
			if len(s.Versions) > 1 {
				c := clone(m)
				cs := c.Services[si]
				cs.Versions = append(cs.Versions[:vi:vi], cs.Versions[vi+1:]...)
				list = append(list, c)
			}
		}
	}
	reset := func(v *mm.Version) { v.Order, v.Cuts, v.Style = nil, nil, 0 }
	max := 0
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, n := range []int{len(v.Resources), len(v.Types), len(v.Errors)} {
				if n > max {
					max = n
				}
			}
		}
	}
	each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
		if len(v.Errors) == 0 {
			return false
		}
		v.Errors = nil
		reset(v)
		return true
	})
	each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
		root := v.Root()
		if len(v.Resources) == 1 && len(root.Methods) == 0 {
			return false
		}
		root.Locators, root.Methods, root.MemberOrder = nil, nil, nil
		v.Resources = []*mm.Resource{root}
		reset(v)
		return true
	})
	for n := 0; n < max; n++ {
		n := n
		each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
			if n >= len(v.Resources) || len(v.Resources[n].Methods) == 0 {
				return false
			}
			r := v.Resources[n]
			r.Methods, r.MemberOrder = nil, nil
			reset(v)
			return true
		})
		each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
			if n >= len(v.Types) || len(v.Types[n].Attrs) == 0 {
				return false
			}
			v.Types[n].Attrs = nil
			return true
		})
		each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
			if n >= len(v.Types) || len(v.Types[n].Attrs) < 2 {
				return false
			}
			v.Types[n].Attrs = v.Types[n].Attrs[:len(v.Types[n].Attrs)/2]
			return true
		})
		each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
			if n >= len(v.Types) || len(v.Types[n].Attrs) < 2 {
				return false
			}
			v.Types[n].Attrs = v.Types[n].Attrs[len(v.Types[n].Attrs)/2:]
			return true
		})
		each(func(c *mm.Model, s *mm.Service, v *mm.Version) bool {
			if n >= len(v.Types) || used(v, v.Types[n]) || len(v.Types) == 1 {
				return false
			}
			v.Types = append(v.Types[:n:n], v.Types[n+1:]...)
			reset(v)
			return true
		})
	}
	return list
}

func used(v *mm.Version, typ *mm.Type) bool {
	for _, t := range v.Types {
		if t == typ {
			continue
		}
		for _, a := range t.Attrs {
			if a.Type.Name.Text() == typ.Name.Text() {
				return true
			}
		}
	}
	for _, r := range v.Resources {
		for _, m := range r.Methods {
			for _, p := range m.Params {
				if p.Type.Name.Text() == typ.Name.Text() {
					return true
				}
			}
		}
	}
	return false
}

// Replay evaluates the case of a replay file again.
func Replay(c *engine.Ctx, sub string, data []byte) (string, error) {
	var rc struct {
		Model *mm.Model
		Case  json.RawMessage
	}
	if err := json.Unmarshal(data, &rc); err != nil {
		return "", err
	}
	cli, err := BuildCLI(c)
	if err != nil {
		return "", err
	}
	bin, err := tools(c)
	if err != nil {
		return "", err
	}
	t := &Tree{Ctx: c, CLI: cli, Tools: bin, Dir: filepath.Join(c.Scratch, "tree"), Model: flatten(rc.Model), Source: rc.Model}
	err = t.Generate()
	if err == nil {
		err = t.Compile()
	}
	if failure, ok := err.(*Failure); ok {
		return failure.Error(), nil
	}
	if err != nil || len(rc.Case) == 0 {
		return "", err
	}
	path := filepath.Join(t.Dir, "replay.json")
	if err := os.WriteFile(path, rc.Case, 0o644); err != nil {
		return "", err
	}
	cmd := exec.Command(t.Bin, "-id", c.Prop.ID, "-model", t.Dir, "-replay", path, "-sub", sub)
	out, err := cmd.CombinedOutput()
	if exit, ok := err.(*exec.ExitError); ok && exit.ExitCode() == 1 {
		return string(out), nil
	}
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return "", nil
}

// Subs are the checks of a property that run inside the generated code.
func Subs(id string) []*rec.Sub { return rt.Props[id] }
