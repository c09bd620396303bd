// Package engine runs the checks: it starts worker processes, merges what they explored, and writes
// the evidence and the replay files.
package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vlib/rec"
	"vlib/worker"
)

// Prop is a property.
type Prop struct {
	ID   string
	Rule string
	Subs []*rec.Sub
	// Workers is the number of worker processes, 8 by default.
	Workers int
	// HangIsViolation says that not terminating is a violation of the property.
	HangIsViolation bool
	Assumptions     []string
	// Stage, if set, replaces the default way to run the check.
	Stage func(c *Ctx) (*Outcome, error)
	// Prepare, if set, is called before running the check or evaluating a stored case.
	Prepare func(c *Ctx) error
	// Replay, if set, replaces the default way to evaluate a stored case again. It returns the
	// description of the violation, if any.
	Replay func(c *Ctx, sub string, data []byte) (string, error)
}

// Ctx is the context of a run.
type Ctx struct {
	Prop    *Prop
	Tier    string
	Seed    uint64
	Root    string // The directory of the framework.
	Repo    string // The directory of the code under test.
	Scratch string
	Start   time.Time
}

// Thorough says if this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Outcome is the result of the run.
type Outcome struct {
	Evaluations int
	Hashes      map[uint64]bool
	Classes     map[string]int
	Samples     []interface{}
	Violation   *rec.Violation
	Extra       map[string]interface{}
}

// NewOutcome creates an empty outcome.
func NewOutcome() *Outcome {
	return &Outcome{Hashes: map[uint64]bool{}, Classes: map[string]int{}, Extra: map[string]interface{}{}}
}

// Merge adds the result of a worker.
func (o *Outcome) Merge(r *rec.Result) {
	o.Evaluations += r.Evaluations
	for _, h := range r.Hashes {
		o.Hashes[h] = true
	}
	for k, n := range r.Classes {
		o.Classes[k] += n
	}
	if len(o.Samples) < 6 {
		n := 6 - len(o.Samples)
		if n > len(r.Samples) {
			n = len(r.Samples)
		}
		if n > 2 {
			n = 2
		}
		o.Samples = append(o.Samples, r.Samples[:n]...)
	}
	if r.Violation != nil && (o.Violation == nil || size(r.Violation) < size(o.Violation)) {
		o.Violation = r.Violation
	}
}

func size(v *rec.Violation) int {
	data, _ := json.Marshal(v.Case)
	return len(data)
}

// Mix derives seeds.
func Mix(seed uint64, parts ...uint64) uint64 { return worker.Mix(seed, parts...) }

// Both runs two stages, the second one only if the first doesn't find violations.
func Both(a, b func(c *Ctx) (*Outcome, error)) func(c *Ctx) (*Outcome, error) {
	return func(c *Ctx) (*Outcome, error) {
		first, err := a(c)
		if err != nil || first.Violation != nil {
			return first, err
		}
		second, err := b(c)
		if err != nil {
			return nil, err
		}
		second.Evaluations += first.Evaluations
		for h := range first.Hashes {
			second.Hashes[h] = true
		}
		for k, n := range first.Classes {
			second.Classes[k] += n
		}
		for k, x := range first.Extra {
			second.Extra[k] = x
		}
		if len(first.Samples) > 3 {
			first.Samples = first.Samples[:3]
		}
		if len(second.Samples) > 3 {
			second.Samples = second.Samples[:3]
		}
		second.Samples = append(first.Samples, second.Samples...)
		return second, nil
	}
}

// Run runs a property and returns the exit code.
func Run(p *Prop, tier string, seed uint64, root, repo string) int {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	scratch, err := os.MkdirTemp(base, "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	c := &Ctx{Prop: p, Tier: tier, Seed: seed, Root: root, Repo: repo, Scratch: scratch, Start: time.Now()}
	stage := p.Stage
	if stage == nil {
		stage = InProcess
	}
	if p.Prepare != nil {
		if err := p.Prepare(c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	o, err := stage(c)
	if err != nil {
		fmt.Fprintf(os.Stderr, "check of %s failed by itself: %v\n", p.ID, err)
		return 2
	}
	if err := writeEvidence(c, o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		p.ID, tier, seed, o.Evaluations, len(o.Hashes), time.Since(c.Start).Seconds())
	if o.Violation != nil {
		path := writeReplay(c, o.Violation)
		fmt.Printf("%s: %s\n", o.Violation.Prop, o.Violation.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if o.Evaluations == 0 || len(o.Hashes) == 0 {
		fmt.Fprintf(os.Stderr, "check of %s didn't explore anything\n", p.ID)
		return 2
	}
	return 0
}

// Replay is the content of replay files.
type Replay struct {
	Property string
	Sub      string
	Message  string
	Seed     uint64
	Tier     string
	Case     interface{}
	Command  string
}

func writeReplay(c *Ctx, v *rec.Violation) string {
	dir := filepath.Join(c.Root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.Prop.ID+".json")
	data, err := json.MarshalIndent(Replay{
		Property: c.Prop.ID, Sub: v.Prop, Message: v.Message, Seed: c.Seed, Tier: c.Tier, Case: v.Case,
		Command: fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s, or bash run.sh %s -replay %s",
			c.Root, c.Seed, c.Tier, c.Prop.ID, c.Prop.ID, path),
	}, "", " ")
	if err != nil {
		data = []byte(v.Message)
	}
	os.WriteFile(path, data, 0o644)
	return path
}

func writeEvidence(c *Ctx, o *Outcome) error {
	coverage := map[string]interface{}{
		"evaluations":         o.Evaluations,
		"distinct_nontrivial": len(o.Hashes),
		"rule":                c.Prop.Rule,
		"samples":             o.Samples,
		"classes":             o.Classes,
	}
	for k, v := range o.Extra {
		coverage[k] = v
	}
	violations := 0
	if o.Violation != nil {
		violations = 1
	}
	evidence := map[string]interface{}{
		"property":    c.Prop.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       "exploration",
		"coverage":    coverage,
		"assumptions": append([]string{}, c.Prop.Assumptions...),
		"wall_s":      time.Since(c.Start).Seconds(),
		"violations":  violations,
	}
	data, err := json.MarshalIndent(evidence, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(c.Root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.Prop.ID+".json"), data, 0o644)
}

// Budget is the time after which the workers stop exploring.
func (c *Ctx) Budget() time.Duration {
	if c.Thorough() {
		return 25 * time.Minute
	}
	return 6 * time.Minute
}

// Spawn runs a worker process and reads its result.
type Spawn struct {
	Cmd    *exec.Cmd
	Out    string
	Case   string
	stderr bytes.Buffer
}

// RunAll runs worker processes in parallel and merges the results.
func (c *Ctx) RunAll(o *Outcome, spawns []*Spawn) error {
	var wg sync.WaitGroup
	errs := make([]error, len(spawns))
	results := make([]*rec.Result, len(spawns))
	for i, s := range spawns {
		wg.Add(1)
		go func(i int, s *Spawn) {
			defer wg.Done()
			results[i], errs[i] = c.runOne(s)
		}(i, s)
	}
	wg.Wait()
	for _, r := range results {
		if r != nil {
			o.Merge(r)
		}
	}
	if o.Violation != nil {
		return nil
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (c *Ctx) runOne(s *Spawn) (*rec.Result, error) {
	s.Cmd.Stdout = &s.stderr
	s.Cmd.Stderr = &s.stderr
	if err := s.Cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- s.Cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(c.Budget() + 5*time.Minute):
		s.Cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("worker didn't finish in time")
	}
	data, readErr := os.ReadFile(s.Out)
	if readErr == nil {
		var r rec.Result
		if jsonErr := json.Unmarshal(data, &r); jsonErr != nil {
			return nil, jsonErr
		}
		if r.Inconclusive != "" && r.Violation == nil {
			return &r, fmt.Errorf("%s", r.Inconclusive)
		}
		return &r, nil
	}
	text := s.stderr.String()
	if strings.Contains(text, "stack overflow") || strings.Contains(text, "fatal error: all goroutines are asleep") ||
		strings.Contains(text, "concurrent map") || strings.Contains(text, "fatal error: fault") ||
		strings.Contains(text, "found bad pointer") || strings.Contains(text, "fatal error: unexpected signal") {
		var current interface{}
		if data, err := os.ReadFile(s.Case); err == nil {
			json.Unmarshal(data, &current)
		}
		return &rec.Result{Evaluations: 1, Violation: &rec.Violation{
			Prop: "crash", Message: "the process crashed:\n" + head(text, 60), Case: current,
		}}, nil
	}
	return nil, fmt.Errorf("worker failed: %v\n%s", err, head(text, 80))
}

func head(text string, n int) string {
	lines := strings.Split(text, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

// InProcess is the default stage: worker processes of this same program.
func InProcess(c *Ctx) (*Outcome, error) {
	o := NewOutcome()
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	n := c.Prop.Workers
	if n == 0 {
		n = 8
	}
	var spawns []*Spawn
	for i := 0; i < n; i++ {
		dir := filepath.Join(c.Scratch, fmt.Sprintf("w%d", i))
		os.MkdirAll(dir, 0o755)
		s := &Spawn{Out: filepath.Join(dir, "result.json"), Case: filepath.Join(dir, "case.json")}
		s.Cmd = exec.Command(exe, "-worker", "-id", c.Prop.ID, "-tier", c.Tier,
			"-seed", fmt.Sprint(Mix(c.Seed, uint64(i))), "-out", s.Out, "-case", s.Case, "-scratch", dir,
			"-budget", c.Budget().String())
		spawns = append(spawns, s)
	}
	err = c.RunAll(o, spawns)
	return o, err
}

// ReplayFile evaluates the case of a replay file again.
func ReplayFile(p *Prop, path string, scratch, root, repo string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp struct {
		Sub  string
		Case json.RawMessage
	}
	if err := json.Unmarshal(data, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	own := false
	for _, s := range p.Subs {
		own = own || s.Name == rp.Sub
	}
	if p.Replay != nil && !own {
		c := &Ctx{Prop: p, Tier: "quick", Root: root, Repo: repo, Scratch: scratch, Start: time.Now()}
		message, err := p.Replay(c, rp.Sub, rp.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if message != "" {
			fmt.Println(message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			return 1
		}
		fmt.Println("the property holds for this case")
		return 0
	}
	if p.Prepare != nil {
		c := &Ctx{Prop: p, Tier: "quick", Root: root, Repo: repo, Scratch: scratch, Start: time.Now()}
		if err := p.Prepare(c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, s := range p.Subs {
		if s.Name == rp.Sub {
			r := rec.New("")
			if err := s.Replay(r, rp.Case); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if r.Failed() {
				fmt.Println(r.Message())
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				return 1
			}
			fmt.Println("the property holds for this case")
			return 0
		}
	}
	fmt.Fprintf(os.Stderr, "don't know how to replay '%s', use the seed instead\n", rp.Sub)
	return 2
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
