// Package rec records what a check explored, runs properties with rapid outside of `go test`, and
// writes the result of a worker process to a file.
package rec

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Violation describes a failure.
type Violation struct {
	Prop    string      // Name of the sub property.
	Message string      // What was expected and what was found.
	Case    interface{} // The minimal failing case.
}

// Result is what a worker writes.
type Result struct {
	Evaluations  int
	Hashes       []uint64 // Hashes of the distinct non trivial cases.
	Classes      map[string]int
	Samples      []interface{}
	Violation    *Violation `json:",omitempty"`
	Done         bool
	Inconclusive string `json:",omitempty"`
}

// R is the recorder.
type R struct {
	mu       sync.Mutex
	res      Result
	hashes   map[uint64]bool
	failed   bool
	cur      interface{}
	curStart time.Time
	casePath string
	maxSamp  int
}

// New creates a recorder. The case path is the file where the current case is written by Risky.
func New(casePath string) *R {
	return &R{
		res:      Result{Classes: map[string]int{}},
		hashes:   map[uint64]bool{},
		casePath: casePath,
		maxSamp:  4,
	}
}

// Case records the evaluation of a case. Key identifies the case, and nontrivial says if it is non
// trivial by the rule of the check.
func (r *R) Case(key string, nontrivial bool, classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.failed {
		return
	}
	r.res.Evaluations++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.hashes[h.Sum64()] = true
	}
	for _, c := range classes {
		r.res.Classes[c]++
	}
}

// Class increments counters.
func (r *R) Class(classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.failed {
		return
	}
	for _, c := range classes {
		r.res.Classes[c]++
	}
}

// Sample stores an example of a case. Only a few are preserved.
func (r *R) Sample(s interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < r.maxSamp && !r.failed {
		r.res.Samples = append(r.res.Samples, s)
	}
}

// WantSample says if samples are still needed.
func (r *R) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Samples) < r.maxSamp && !r.failed
}

// Current sets the case that is currently being evaluated, for reporting failures.
func (r *R) Current(c interface{}) {
	r.mu.Lock()
	r.cur = c
	r.curStart = time.Now()
	r.mu.Unlock()
}

// Risky is like Current, but writes the case to disk because evaluating it may kill the process.
func (r *R) Risky(c interface{}) {
	r.Current(c)
	if r.casePath != "" {
		data, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(r.casePath, data, 0o644)
	}
}

// Stuck returns the time spent in the current case.
func (r *R) Stuck() (time.Duration, interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cur == nil {
		return 0, nil
	}
	return time.Since(r.curStart), r.cur
}

// Idle says that there is no current case.
func (r *R) Idle() {
	r.mu.Lock()
	r.cur = nil
	r.mu.Unlock()
}

// Failure records a failure. Later failures replace earlier ones, because rapid runs the minimal one last.
func (r *R) Failure(prop, message string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.failed = true
	r.res.Violation = &Violation{Prop: prop, Message: message, Case: r.cur}
}

// Failed says if there has been a failure.
func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.failed
}

// Write writes the result.
func (r *R) Write(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Hashes = nil
	for h := range r.hashes {
		r.res.Hashes = append(r.res.Hashes, h)
	}
	sort.Slice(r.res.Hashes, func(i, j int) bool { return r.res.Hashes[i] < r.res.Hashes[j] })
	r.res.Done = true
	data, err := json.MarshalIndent(r.res, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}

// F is what properties use to draw values and to report failures.
type F struct {
	*rapid.T
	R        *R
	name     string
	stopping bool
}

// Failf reports a violation of the property.
func (f *F) Failf(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	f.R.Failure(f.name, msg)
	f.stop(msg)
}

type stopped struct{}

func (f *F) stop(msg string) {
	f.stopping = true
	if f.T == nil {
		panic(stopped{})
	}
	f.T.Fatalf("%s", msg)
}

// Try runs the function under test. If it panics that is reported as a violation.
func (f *F) Try(what string, fn func()) {
	p, stack := Recover(fn)
	if p != nil {
		if f.stopping {
			// This isn't a panic of the code under test, but the end of the case.
			panic(p)
		}
		f.R.Failure(f.name, fmt.Sprintf("%s panicked: %v\n%s", what, p, stack))
		f.stop(fmt.Sprintf("%s panicked: %v", what, p))
	}
}

// Recover runs the function and returns the panic.
func Recover(fn func()) (p interface{}, stack string) {
	defer func() {
		p = recover()
		if p != nil {
			stack = trim(string(debug.Stack()))
		}
	}()
	fn()
	return
}

func trim(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type tb struct {
	failed bool
	out    strings.Builder
}

func (t *tb) Helper()                           {}
func (t *tb) Name() string                      { return "check" }
func (t *tb) Logf(format string, args ...any)   { fmt.Fprintf(&t.out, format+"\n", args...) }
func (t *tb) Log(args ...any)                   { fmt.Fprintln(&t.out, args...) }
func (t *tb) Skipf(format string, args ...any)  { t.SkipNow() }
func (t *tb) Skip(args ...any)                  { t.SkipNow() }
func (t *tb) SkipNow()                          { runtime.Goexit() }
func (t *tb) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *tb) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *tb) Fatalf(format string, args ...any) { t.Logf(format, args...); t.FailNow() }
func (t *tb) Fatal(args ...any)                 { t.Log(args...); t.FailNow() }
func (t *tb) FailNow()                          { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

var once sync.Once

// Deadline, if set, is when the exploration stops: the remaining cases are skipped.
var Deadline time.Time

// Check runs the property with the given number of cases and seed. It returns false if the property
// failed. Failures that aren't reported via Failf (for example failures of the check itself) result
// in an error.
func Check(r *R, name string, checks int, seed uint64, shrink time.Duration, prop func(f *F)) (ok bool, err error) {
	once.Do(func() {
		testing.Init()
		if !flag.Parsed() {
			flag.CommandLine.Parse(nil)
		}
		flag.Set("rapid.nofailfile", "true")
	})
	if seed == 0 {
		seed = 0x9E3779B97F4A7C15
	}
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.shrinktime", shrink.String())
	t := &tb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			if !Deadline.IsZero() && !r.Failed() && time.Now().After(Deadline) {
				r.Class("skipped after the time budget")
				return
			}
			prop(&F{T: rt, R: r, name: name})
			r.Idle()
		})
	}()
	<-done
	if r.Failed() {
		return false, nil
	}
	if t.failed {
		return false, fmt.Errorf("check %s failed by itself: %s", name, t.out.String())
	}
	return true, nil
}

// Sub is one of the executable statements that decide a property: a generator of cases and a check
// of one case. The cases can be serialized, so that they can be evaluated again.
type Sub struct {
	Name string
	// Number of cases per worker in each tier.
	Quick, Thorough int
	// Risky says that the case should be written to disk before it is evaluated.
	Risky  bool
	run    func(r *R, s *Sub, checks int, seed uint64, shrink time.Duration) (bool, error)
	replay func(r *R, s *Sub, data []byte) error
}

// Run explores generated cases.
func (s *Sub) Run(r *R, checks int, seed uint64, shrink time.Duration) (bool, error) {
	return s.run(r, s, checks, seed, shrink)
}

// Replay evaluates one stored case.
func (s *Sub) Replay(r *R, data []byte) error { return s.replay(r, s, data) }

// NewSub creates a sub property.
func NewSub[C any](name string, quick, thorough int, gen func(t *rapid.T) C, check func(f *F, c C)) *Sub {
	eval := func(r *R, s *Sub, f *F, c C) {
		if s.Risky {
			r.Risky(c)
		} else {
			r.Current(c)
		}
		check(f, c)
		r.Idle()
	}
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		run: func(r *R, s *Sub, checks int, seed uint64, shrink time.Duration) (bool, error) {
			return Check(r, name, checks, seed, shrink, func(f *F) {
				eval(r, s, f, gen(f.T))
			})
		},
		replay: func(r *R, s *Sub, data []byte) error {
			var c C
			if err := json.Unmarshal(data, &c); err != nil {
				return err
			}
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stopped); !ok {
						panic(p)
					}
				}
			}()
			eval(r, s, &F{R: r, name: name}, c)
			return nil
		},
	}
}

// Inconclusive records that the exploration couldn't be completed.
func (r *R) Inconclusive(message string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Inconclusive = message
}

// Message returns the message of the failure.
func (r *R) Message() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.res.Violation == nil {
		return ""
	}
	return r.res.Violation.Message
}

// Together are several cases that are evaluated at the same time.
type Together[C any] struct {
	Cases  []C
	Rounds int
}

// GenTogether generates several cases for evaluation at the same time.
func GenTogether[C any](gen func(t *rapid.T) C) func(t *rapid.T) *Together[C] {
	return func(t *rapid.T) *Together[C] {
		c := &Together[C]{Rounds: rapid.IntRange(1, 20).Draw(t, "rounds")}
		for n := rapid.IntRange(2, 5).Draw(t, "together"); n > 0; n-- {
			c.Cases = append(c.Cases, gen(t))
		}
		return c
	}
}

// CheckTogether evaluates the cases first one by one, and then all at the same time, several times.
func CheckTogether[C any](check func(f *F, c C)) func(f *F, c *Together[C]) {
	one := func(name string, c C) (message string) {
		r := New("")
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			message = r.Message()
			if _, ok := p.(stopped); !ok {
				message = fmt.Sprintf("panicked: %v\n%s", p, trim(string(debug.Stack())))
			}
		}()
		check(&F{R: r, name: name}, c)
		return r.Message()
	}
	return func(f *F, c *Together[C]) {
		data, _ := json.Marshal(c)
		f.R.Case(string(data), len(c.Cases) > 1, "several goroutines")
		if f.R.WantSample() {
			f.R.Sample(c)
		}
		for _, x := range c.Cases {
			if message := one(f.name, x); message != "" {
				f.Failf("%s", message)
			}
		}
		start := make(chan struct{})
		messages := make([]string, len(c.Cases))
		var ready, done sync.WaitGroup
		for i, x := range c.Cases {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				<-start
				for n := 0; n < c.Rounds && messages[i] == ""; n++ {
					messages[i] = one(f.name, x)
				}
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		for _, message := range messages {
			if message != "" {
				f.Failf("with several goroutines: %s", message)
			}
		}
	}
}
