package pipeline

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"vlib/rec"

	"verif/engine"
	"verif/inproc"
)

var (
	execsRE    = regexp.MustCompile(`execs: (\d+).*total: (\d+)`)
	failingRE  = regexp.MustCompile(`Failing input written to (\S+)`)
	fuzzTextRE = regexp.MustCompile(`(?m)^string\((.*)\)$`)
)

// Fuzz returns a stage that, in the thorough tier, explores arbitrary text guided by coverage.
func Fuzz(target string, duration time.Duration) func(c *engine.Ctx) (*engine.Outcome, error) {
	return func(c *engine.Ctx) (*engine.Outcome, error) {
		o := engine.NewOutcome()
		if !c.Thorough() {
			return o, nil
		}
		dir := filepath.Join(c.Scratch, "fuzz")
		for _, sub := range []string{"cache", "scratch"} {
			if err := os.MkdirAll(filepath.Join(dir, sub), 0o755); err != nil {
				return nil, err
			}
		}
		bin := filepath.Join(dir, "fuzz.test")
		build := exec.Command("go", "test", "-c", "-fuzz="+target, "-o", bin, "./inproc")
		build.Dir = filepath.Join(c.Root, "harness")
		if out, err := build.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("can't build the fuzz target: %v\n%s", err, out)
		}
		cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^"+target+"$", "-test.fuzztime="+duration.String(),
			"-test.fuzzcachedir="+filepath.Join(dir, "cache"), "-test.fuzzminimizetime=10s", "-test.timeout="+(duration*3).String())
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+filepath.Join(dir, "scratch"))
		out, err := cmd.CombinedOutput()
		text := string(out)
		if all := execsRE.FindAllStringSubmatch(text, -1); len(all) > 0 {
			last := all[len(all)-1]
			o.Evaluations, _ = strconv.Atoi(last[1])
			o.Extra["fuzz_executions"] = o.Evaluations
			o.Extra["fuzz_corpus"], _ = strconv.Atoi(last[2])
		}
		if err == nil {
			return o, nil
		}
		input, ok := failingText(dir, text)
		if !ok {
			return nil, fmt.Errorf("fuzzing failed by itself: %v\n%s", err, tail(text))
		}
		o.Violation = &rec.Violation{
			Prop: "any-text", Message: tail(text),
			Case: inproc.TextCase{Kind: "fuzz", Files: map[string]string{"svc/v1/a.model": input}},
		}
		return o, nil
	}
}

// failingText returns the text that failed: either the one that the target kept, or, when that wasn't possible because
// the process crashed, the one that the fuzzing engine wrote.
func failingText(dir, output string) (string, bool) {
	if data, err := os.ReadFile(filepath.Join(dir, "scratch", "failing")); err == nil {
		return string(data), true
	}
	match := failingRE.FindStringSubmatch(output)
	if match == nil {
		return "", false
	}
	data, err := os.ReadFile(filepath.Join(dir, match[1]))
	if err != nil {
		return "", false
	}
	quoted := fuzzTextRE.FindSubmatch(data)
	if quoted == nil {
		return "", false
	}
	input, err := strconv.Unquote(string(quoted[1]))
	return input, err == nil
}

func tail(text string) string {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if len(lines) > 40 {
		lines = lines[len(lines)-40:]
	}
	return strings.Join(lines, "\n")
}
