package inproc

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"vlib/rec"
)

// The environment variables used to tell the workers where is the command line tool, and where are the
// replacements of the formatter.
const (
	CLIVar   = "VERIF_CLI"
	ToolsVar = "VERIF_TOOLS"
)

type cliResult struct {
	code   int
	output string
}

// runCLI runs the command line tool. The formatter is the kind of formatter to use: 'none' doesn't
// change the files, 'real' is the real one, 'missing' means that there is no formatter, and 'fail' is
// one that fails. Nothing can be left in the temporary directory.
func runCLI(f *rec.F, formatter string, args ...string) cliResult {
	return runCLIIn(f, Scratch, formatter, args...)
}

// runCLIIn runs the command line tool in the given working directory.
func runCLIIn(f *rec.F, cwd, formatter string, args ...string) cliResult {
	temp := scratchDir()
	defer os.RemoveAll(temp)
	r := runCLITemp(f, cwd, temp, formatter, args...)
	entries, err := os.ReadDir(temp)
	if err != nil {
		panic(err)
	}
	if len(entries) > 0 {
		f.Failf("'metamodel %s' leaves '%s' in the temporary directory", strings.Join(args, " "), entries[0].Name())
	}
	return r
}

// runCLITemp runs the command line tool with the given temporary directory.
func runCLITemp(f *rec.F, cwd, temp, formatter string, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv(CLIVar), args...)
	var env []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "PATH=") && !strings.HasPrefix(v, "TMPDIR=") {
			env = append(env, v)
		}
	}
	path := filepath.Join(os.Getenv(ToolsVar), formatter)
	if formatter == "real" {
		path += ":" + os.Getenv("PATH")
	}
	cmd.Env = append(env, "PATH="+path, "TMPDIR="+temp)
	cmd.Dir = cwd
	out := &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = out, out
	err := cmd.Run()
	if ctx.Err() != nil {
		panic("the command line tool didn't finish in time")
	}
	r := cliResult{output: out.String()}
	if exit, ok := err.(*exec.ExitError); ok {
		r.code = exit.ExitCode()
	} else if err != nil {
		panic(err)
	}
	if strings.Contains(r.output, "panic: ") && strings.Contains(r.output, "goroutine ") {
		f.Failf("the command line tool crashed:\n%s", tail(r.output))
	}
	return r
}

func tail(text string) string {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if len(lines) > 20 {
		lines = append(lines[:5], lines[len(lines)-15:]...)
	}
	return strings.Join(lines, "\n")
}

// generateArgs are the arguments for a generator.
func generateArgs(kind string, output string, models ...string) []string {
	args := []string{"generate", kind}
	for _, m := range models {
		args = append(args, "--model="+m)
	}
	if kind == "go" {
		args = append(args, "--base=example.com/gm/g")
	}
	return append(args, "--output="+output)
}

// tree is the content of a directory.
type tree map[string]string

func readTree(dir string) tree {
	t := tree{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		switch {
		case info.IsDir():
		case info.Mode()&os.ModeSymlink != 0:
			target, _ := os.Readlink(path)
			t[rel] = "symbolic link to " + target
		default:
			data, err := os.ReadFile(path)
			if err != nil {
				panic(err)
			}
			t[rel] = string(data)
		}
		return nil
	})
	return t
}

var importsRE = regexp.MustCompile(`(?ms)^import \(\n(.*?)^\)\n`)

// sortImports sorts the imports of the files, something that is done by the formatter.
func (t tree) sortImports() {
	for name, text := range t {
		if filepath.Ext(name) != ".go" {
			continue
		}
		t[name] = importsRE.ReplaceAllStringFunc(text, func(block string) string {
			lines := strings.Split(block, "\n")
			sort.Strings(lines)
			return strings.Join(lines, "\n")
		})
	}
}

// difference describes the first difference between two directories.
func (t tree) difference(other tree) string {
	var names []string
	for name := range t {
		names = append(names, name)
	}
	for name := range other {
		if _, ok := t[name]; !ok {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		a, ok := t[name]
		if !ok {
			return fmt.Sprintf("file '%s' exists only in the second", name)
		}
		b, ok := other[name]
		if !ok {
			return fmt.Sprintf("file '%s' exists only in the first", name)
		}
		if a == b {
			continue
		}
		x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
		for i := 0; ; i++ {
			if i >= len(x) || i >= len(y) || x[i] != y[i] {
				get := func(s []string) string {
					if i < len(s) {
						return s[i]
					}
					return "(end)"
				}
				return fmt.Sprintf("line %d of file '%s' is '%s' in the first and '%s' in the second", i+1, name, get(x), get(y))
			}
		}
	}
	return ""
}

// under returns the part of the tree that is inside a directory.
func (t tree) under(dir string) tree {
	result := tree{}
	for name, text := range t {
		if strings.HasPrefix(name, dir+"/") {
			result[name] = text
		}
	}
	return result
}
