// Package inproc contains the checks that call the packages of /repo directly.
package inproc

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"

	"vlib/mm"
	"vlib/rec"
)

// Scratch is the directory where the checks write files.
var Scratch string

var counter int

func scratchDir() string {
	counter++
	dir := filepath.Join(Scratch, fmt.Sprintf("c%d", counter))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return dir
}

// writeFiles writes the files to a new scratch directory.
func writeFiles(files map[string]string) string {
	dir := scratchDir()
	for name, text := range files {
		path := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

type readResult struct {
	model  *concepts.Model
	err    error
	rep    *reporter.Reporter
	out    string
	errs   string
	errors int
}

func newReporter(out, errs *bytes.Buffer) *reporter.Reporter {
	rep, err := reporter.New().Streams(out, errs).Build()
	if err != nil {
		panic(err)
	}
	return rep
}

// readDirs reads the model from the given directories.
func readDirs(f *rec.F, dirs ...string) (r readResult) {
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	r.rep = newReporter(out, errs)
	f.Try("reading the model", func() {
		r.model, r.err = language.NewReader().Reporter(r.rep).Inputs(dirs).Read()
	})
	r.out, r.errs, r.errors = out.String(), errs.String(), r.rep.Errors()
	return
}

// read writes the files, reads the model, and removes the files.
func read(f *rec.F, files map[string]string) readResult {
	dir := writeFiles(files)
	defer os.RemoveAll(dir)
	return readDirs(f, dir)
}

// key is a text that identifies a set of files.
func key(files map[string]string) string {
	var paths []string
	for p := range files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var b strings.Builder
	for _, p := range paths {
		fmt.Fprintf(&b, "--- %s\n%s", p, files[p])
	}
	return b.String()
}

// ModelCase is a generated model, together with the files, which are there only for the reports.
type ModelCase struct {
	Model *mm.Model
	Files map[string]string `json:",omitempty"`
}

func words(n *names.Name) string {
	var chunks []string
	for _, w := range n.Words() {
		chunks = append(chunks, w.String())
	}
	return strings.Join(chunks, "|")
}

// identWords is the expected sequence of words of an identifier.
func identWords(id mm.Ident) string {
	var chunks []string
	for _, w := range id.W {
		chunks = append(chunks, w.T)
	}
	return strings.Join(chunks, "|")
}

// nameOf creates a name from our identifier.
func nameOf(id mm.Ident) *names.Name {
	return names.ParseUsingCase(id.Text())
}

// compareIdents is the expected order of identifiers: word by word.
func compareIdents(a, b mm.Ident) int {
	for i := 0; i < len(a.W) && i < len(b.W); i++ {
		if c := strings.Compare(a.W[i].T, b.W[i].T); c != 0 {
			return c
		}
	}
	return len(a.W) - len(b.W)
}

func sortStrings(s []string) { sort.Strings(s) }
