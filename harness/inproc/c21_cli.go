package inproc

import (
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"vlib/rec"
)

// CLICase is an execution of the command line tool.
type CLICase struct {
	Model   *MutatedCase
	Command string // The command: 'check', 'go', 'openapi' or 'docs'.
	// Fault is something wrong in the environment or in the command line, empty if there is nothing.
	Fault string
	// Existing says that the output directory contains other files.
	Existing bool
	// Index selects the file where the fault happens.
	Index int
	// Paths says how the paths are given: absolute if empty, 'relative', 'slash' (relative with slashes at the
	// end), 'link' (the model is a link to the directory) or 'dot' (the output is the working directory).
	Paths string `json:",omitempty"`
}

// C21 checks the command line tool.
var C21 = []*rec.Sub{
	rec.NewSub("command line", 200, 1500, func(t *rapid.T) *CLICase {
		c := &CLICase{Model: genMutated(t)}
		c.Command = rapid.SampledFrom([]string{"check", "go", "openapi", "docs"}).Draw(t, "command")
		faults := []string{"", "", "", "no-model", "missing-model", "file-model", "also-missing-model", "unknown-option"}
		if c.Command != "check" {
			faults = append(faults, "no-output", "file-output", "file-in-output", "directory-in-place-of-file", "full", "full")
		}
		if c.Command == "go" {
			faults = append(faults, "no-base", "missing-formatter", "failing-formatter", "missing-temporary")
		}
		c.Fault = rapid.SampledFrom(faults).Draw(t, "fault")
		c.Existing = rapid.Bool().Draw(t, "existing")
		c.Paths = rapid.SampledFrom([]string{"", "", "relative", "slash", "link", "dot"}).Draw(t, "paths")
		c.Index = rapid.IntRange(0, 1000).Draw(t, "index")
		return c
	}, checkCLI),
	rec.NewSub("formatted code", 2, 20, genFormatted, checkFormatted),
}

func (c *CLICase) write(dir string) string {
	input := filepath.Join(dir, "model")
	if err := os.MkdirAll(input, 0o755); err != nil {
		panic(err)
	}
	for name, text := range c.Model.render() {
		writeFile(filepath.Join(input, name), text)
	}
	return input
}

func checkCLI(f *rec.F, c *CLICase) {
	problems := c.Model.problems()
	valid := len(problems) == 0
	classes := []string{c.Command}
	if valid {
		classes = append(classes, "valid")
	} else {
		classes = append(classes, "invalid")
	}
	if c.Paths != "" {
		classes = append(classes, "paths: "+c.Paths)
	}
	if c.Fault != "" {
		classes = append(classes, c.Command+": "+c.Fault)
	}
	f.R.Case(fmt.Sprint(c.Command, c.Fault, c.Existing, c.Index, c.Paths)+key(c.Model.render()), !valid || c.Fault != "", classes...)
	if f.R.WantSample() {
		f.R.Sample(map[string]interface{}{"command": c.Command, "fault": c.Fault, "mutations": c.Model.Mutations, "broken rules": problems})
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	input := c.write(dir)
	before := readTree(input)
	models := []string{input}
	output := filepath.Join(dir, "out", "put")
	var args []string
	build := func() {
		if c.Command == "check" {
			args = []string{"check"}
			for _, m := range models {
				args = append(args, "--model="+m)
			}
		} else {
			args = generateArgs(c.Command, output, models...)
		}
	}
	formatter := "none"
	// Calculate the output without faults:
	var expected tree
	if valid && c.Command != "check" {
		clean := filepath.Join(dir, "clean")
		expected = generateTree(f, formatter, c.Command, clean, input)
		if len(expected) == 0 {
			f.Failf("the '%s' generator succeeds but doesn't write any file", c.Command)
		}
		os.RemoveAll(clean)
	}
	names := sortedNames(expected)
	target := ""
	if len(names) > 0 {
		target = names[c.Index%len(names)]
	}
	existing := tree{}
	if c.Existing && c.Command != "check" && c.Fault != "file-output" && c.Fault != "file-in-output" {
		existing["zz_existing.txt"] = "Existing.\n"
		existing[".zz_existing"] = "Hidden.\n"
		existing["zz_existing/api.json"] = "{}\n"
		existing["zz_existing/index.adoc"] = "= Existing\n"
		if target != "" && filepath.Dir(target) != "." {
			existing[filepath.Join(filepath.Dir(target), "README.md")] = "# Existing\n"
			existing[filepath.Join(filepath.Dir(target), "zz_existing.json")] = "[]"
		}
		for name, text := range existing {
			writeFile(filepath.Join(output, name), text)
		}
	}
	dropped := ""
	switch c.Fault {
	case "no-model":
		models = nil
	case "missing-model":
		models = []string{filepath.Join(dir, "missing")}
	case "also-missing-model":
		models = append(models, filepath.Join(dir, "missing"))
	case "file-model":
		models = []string{filepath.Join(dir, "file")}
		writeFile(models[0], "class Cluster {\n}\n")
	case "file-output":
		writeFile(output, "Not a directory.\n")
	case "file-in-output":
		// A file where there should be a directory:
		if first := strings.Split(target, "/"); len(first) > 1 {
			writeFile(filepath.Join(output, first[0]), "Not a directory.\n")
		} else {
			writeFile(filepath.Dir(output), "Not a directory.\n")
		}
	case "directory-in-place-of-file":
		if target == "" {
			target = "x"
		}
		if err := os.MkdirAll(filepath.Join(output, target, "x"), 0o755); err != nil {
			panic(err)
		}
	case "full":
		// Writing to this file always fails:
		if target != "" {
			path := filepath.Join(output, target)
			if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
				panic(err)
			}
			if err := os.Symlink("/dev/full", path); err != nil {
				panic(err)
			}
		}
	case "no-output":
		dropped = "--output="
	case "no-base":
		dropped = "--base="
	case "missing-formatter":
		formatter = "missing"
	case "failing-formatter":
		formatter = "fail"
	}
	build()
	if c.Fault == "unknown-option" {
		args = append(args, "--unknown=x")
	}
	cwd := Scratch
	switch c.Paths {
	case "relative", "slash":
		for i, a := range args {
			name, value, _ := strings.Cut(a, "=")
			if name != "--model" && name != "--output" {
				continue
			}
			rel, err := filepath.Rel(cwd, value)
			if err != nil {
				panic(err)
			}
			if info, err := os.Stat(value); c.Paths == "slash" && (err != nil || info.IsDir()) {
				rel = "./" + rel + "//"
			}
			args[i] = name + "=" + rel
		}
	case "link":
		if err := os.Symlink("model", filepath.Join(dir, "link")); err != nil {
			panic(err)
		}
		for i, a := range args {
			if a == "--model="+input {
				args[i] = "--model=" + filepath.Join(dir, "link")
			}
		}
	case "dot":
		if info, err := os.Stat(output); c.Command != "check" && err == nil && info.IsDir() {
			cwd = output
			for i, a := range args {
				if a == "--output="+output {
					args[i] = "--output=."
				}
			}
		}
	}
	if dropped != "" {
		var kept []string
		for _, a := range args {
			if !strings.HasPrefix(a, dropped) {
				kept = append(kept, a)
			}
		}
		args = kept
	}
	// Nothing can be written to the output when the model isn't correct, when it can't be read, or
	// when the command line isn't correct.
	untouched := !valid
	switch c.Fault {
	case "no-model", "missing-model", "also-missing-model", "file-model", "no-output", "no-base", "file-output", "unknown-option":
		untouched = true
	}
	outBefore := readTree(filepath.Join(dir, "out"))
	var r cliResult
	if c.Fault == "missing-temporary" {
		r = runCLITemp(f, cwd, filepath.Join(dir, "missing"), formatter, args...)
	} else {
		r = runCLIIn(f, cwd, formatter, args...)
	}
	command := strings.ReplaceAll("metamodel "+strings.Join(args, " "), dir, "DIR")
	if valid && c.Fault == "" {
		if r.code != 0 {
			f.Failf("'%s' fails for a correct model, exit code is %d:\n%s", command, r.code, tail(r.output))
		}
	} else if r.code == 0 {
		f.Failf("'%s' succeeds, but it should fail (fault '%s', broken rules: %s):\n%s", command, c.Fault,
			strings.Join(problems, ", "), tail(r.output))
	} else if strings.TrimSpace(r.output) == "" {
		f.Failf("'%s' fails without explaining why", command)
	}
	if diff := before.difference(readTree(input)); diff != "" {
		f.Failf("'%s' changes the model: %s", command, diff)
	}
	outAfter := readTree(filepath.Join(dir, "out"))
	outTree := readTree(output)
	for _, name := range sortedNames(existing) {
		if outTree[name] != existing[name] {
			f.Failf("'%s' changes the file '%s' of the output directory", command, name)
		}
	}
	if untouched || c.Command == "check" {
		if diff := outBefore.difference(outAfter); diff != "" {
			f.Failf("'%s' should not write anything (fault '%s', broken rules: %s), but first is before and second is after: %s",
				command, c.Fault, strings.Join(problems, ", "), diff)
		}
		// Not even outside of the output:
		var extra []string
		entries, _ := os.ReadDir(dir)
		for _, e := range entries {
			switch e.Name() {
			case "model", "out", "file", "link":
			default:
				extra = append(extra, e.Name())
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			f.Failf("'%s' creates %s", command, strings.Join(extra, ", "))
		}
		return
	}
	if valid && c.Fault == "" {
		got := readTree(output)
		got.sortImports()
		for name, text := range existing {
			expected[name] = text
		}
		if diff := expected.difference(got); diff != "" {
			f.Failf("'%s' doesn't generate the same files a second time: %s", command, diff)
		}
	}
}

func genFormatted(t *rapid.T) *CLICase {
	c := &CLICase{Model: genMutated(t), Command: "go"}
	return c
}

func checkFormatted(f *rec.F, c *CLICase) {
	valid := len(c.Model.problems()) == 0
	f.R.Case("formatted"+key(c.Model.render()), valid, "formatted code")
	if !valid {
		return
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	output := filepath.Join(dir, "out")
	r := runCLI(f, "real", generateArgs("go", output, c.write(dir))...)
	if r.code != 0 {
		f.Failf("the generator fails for a correct model, exit code is %d:\n%s", r.code, tail(r.output))
	}
	t := readTree(output)
	for _, name := range sortedNames(t) {
		if filepath.Ext(name) != ".go" {
			continue
		}
		data, err := format.Source([]byte(t[name]))
		if err != nil {
			f.Failf("file '%s' isn't correct Go: %v", name, err)
		}
		if string(data) != t[name] {
			// The text of comments isn't compared, because the formatter itself changes it more than once for
			// some documentation.
			actual, formatted := codeLines(t[name]), codeLines(string(data))
			for i, line := range formatted {
				if i >= len(actual) || actual[i] != line {
					f.Failf("file '%s' isn't formatted, line %d of the code should be %q instead of %q", name, i+1, line, strings.Join(actual[i:min(i+1, len(actual))], ""))
				}
			}
			if len(actual) > len(formatted) {
				f.Failf("file '%s' isn't formatted", name)
			}
		}
	}
}

// codeLines returns the lines that aren't comments.
func codeLines(text string) []string {
	var result []string
	for _, line := range strings.Split(text, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(line), "//") {
			result = append(result, line)
		}
	}
	return result
}
