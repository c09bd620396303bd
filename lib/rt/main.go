package rt

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"vlib/mm"
	"vlib/rec"
	"vlib/worker"

	"pgregory.net/rapid"
)

// Props are the checks of each property.
var Props = map[string][]*rec.Sub{}

// ModelFile contains the model used to generate the code.
var ModelDir string

// Sub creates a sub property. Panics of the generated code, and missing parts of it, are violations.
func Sub[C any](id, name string, quick, thorough int, gen func(t *rapid.T) C, check func(f *rec.F, c C)) *rec.Sub {
	s := rec.NewSub(name, quick, thorough, gen, func(f *rec.F, c C) {
		f.Try("the generated code", func() { check(f, c) })
	})
	Props[id] = append(Props[id], s)
	return s
}

// Main is the main function of the programs that contain generated code.
func Main() {
	id := flag.String("id", "", "Property.")
	tier := flag.String("tier", "quick", "Tier.")
	seed := flag.Uint64("seed", 0, "Seed.")
	out := flag.String("out", "", "Result.")
	casePath := flag.String("case", "", "Current case.")
	budget := flag.Duration("budget", time.Minute, "Time budget.")
	model := flag.String("model", "", "Directory of the model.")
	replay := flag.String("replay", "", "File containing the case to replay.")
	sub := flag.String("sub", "", "Name of the check to replay.")
	flag.Parse()
	ModelDir = *model
	data, err := os.ReadFile(filepath.Join(*model, "model.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	Model = &mm.Model{}
	if err := json.Unmarshal(data, Model); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, s := range Props[*id] {
			if s.Name == *sub {
				r := rec.New("")
				if err := s.Replay(r, data); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
				if r.Failed() {
					fmt.Println(r.Message())
					os.Exit(1)
				}
				os.Exit(0)
			}
		}
		os.Exit(2)
	}
	os.Exit(worker.Worker(Props[*id], true, *tier, *seed, *out, *casePath, *budget))
}

// pickEnv selects a version.
func pickEnv(t *rapid.T) *Env {
	return rapid.SampledFrom(Envs()).Draw(t, "version")
}

// pickStruct selects a struct type.
func pickStruct(t *rapid.T, e *Env) *mm.Type {
	return rapid.SampledFrom(e.structs()).Draw(t, "type")
}

func (e *Env) structs() []*mm.Type {
	var result []*mm.Type
	for _, typ := range e.V.Types {
		if typ.Kind == mm.Struct || typ.Kind == mm.Class {
			result = append(result, typ)
		}
	}
	return result
}

func (e *Env) typeByText(text string) *mm.Type {
	for _, typ := range e.V.Types {
		if typ.Name.Text() == text {
			return typ
		}
	}
	panic("the model doesn't have a type named " + text)
}
