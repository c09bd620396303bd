package inproc

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"vlib/mm"
	"vlib/rec"

	"pgregory.net/rapid"
)

// FuzzText explores arbitrary text guided by coverage, starting with random models.
func FuzzText(f *testing.F) {
	var err error
	if Scratch, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "fuzz"); err != nil {
		f.Fatal(err)
	}
	o := mm.DefaultOpts
	o.MaxServices, o.MaxVersions, o.MaxTypes, o.MaxAttrs, o.MaxResources = 1, 1, 2, 3, 2
	gen := rapid.Custom(func(t *rapid.T) *mm.Model { return mm.GenModel(t, o) })
	for i := 0; i < 60; i++ {
		files := gen.Example(i).Files()
		for _, name := range sortedKeys(files) {
			f.Add(files[name])
		}
	}
	for _, text := range tokenTexts {
		f.Add(text)
	}
	f.Fuzz(func(t *testing.T, text string) {
		if len(text) > 3000 {
			return
		}
		r := rec.New("")
		p, stack := rec.Recover(func() {
			checkText(&rec.F{R: r}, TextCase{Kind: "fuzz", Files: map[string]string{"svc/v1/a.model": text}})
		})
		if r.Failed() || p != nil {
			keepFailing(text)
			t.Fatal(r.Message(), p, stack)
		}
	})
}

// keepFailing keeps the shortest failing text where the check will look for it.
func keepFailing(text string) {
	path := filepath.Join(os.Getenv("VERIF_SCRATCH"), "failing")
	if data, err := os.ReadFile(path); err != nil || len(text) < len(data) {
		tmp := fmt.Sprintf("%s.%d", path, os.Getpid())
		if os.WriteFile(tmp, []byte(text), 0o600) == nil {
			_ = os.Rename(tmp, path)
		}
	}
}
