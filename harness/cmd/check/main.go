// Command check decides one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif/engine"
	"verif/inproc"
	"vlib/worker"
)

func main() {
	id := flag.String("id", "", "Property.")
	tier := flag.String("tier", "", "Tier.")
	seed := flag.Uint64("seed", 0, "Seed.")
	isWorker := flag.Bool("worker", false, "Run as a worker.")
	out := flag.String("out", "", "Result of the worker.")
	casePath := flag.String("case", "", "Current case of the worker.")
	scratch := flag.String("scratch", "", "Scratch directory of the worker.")
	budget := flag.Duration("budget", 0, "Time budget of the worker.")
	replay := flag.String("replay", "", "Replay file.")
	root := flag.String("root", "/verif", "Directory of the framework.")
	repo := flag.String("repo", "/repo", "Directory of the code under test.")
	flag.Parse()

	p, ok := props[*id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property '%s'\n", *id)
		os.Exit(2)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		*seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	}
	switch {
	case *isWorker:
		inproc.Scratch = filepath.Join(*scratch, "s")
		os.Exit(worker.Worker(p.Subs, p.HangIsViolation, *tier, *seed, *out, *casePath, *budget))
	case *replay != "":
		dir, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			panic(err)
		}
		inproc.Scratch = dir
		code := engine.ReplayFile(p, *replay, dir, *root, *repo)
		os.RemoveAll(dir)
		os.Exit(code)
	}
	start := time.Now()
	code := engine.Run(p, *tier, *seed, *root, *repo)
	_ = start
	os.Exit(code)
}
