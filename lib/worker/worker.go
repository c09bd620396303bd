// Package worker contains the main function of the processes that explore cases.
package worker

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"vlib/rec"
)

// Mix derives seeds.
func Mix(seed uint64, parts ...uint64) uint64 {
	x := seed ^ 0x9E3779B97F4A7C15
	for _, p := range parts {
		x ^= p + 0x9E3779B97F4A7C15 + (x << 6) + (x >> 2)
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
	}
	if x == 0 {
		x = 1
	}
	return x
}

// Worker is the main function of the worker processes.
func Worker(subs []*rec.Sub, hangIsViolation bool, tier string, seed uint64, out, casePath string, budget time.Duration) int {
	debug.SetMaxStack(256 << 20)
	r := rec.New(casePath)
	rec.Deadline = time.Now().Add(budget)
	go Watch(r, hangIsViolation, out)
	for i, s := range subs {
		checks := s.Quick
		shrink := 20 * time.Second
		if tier == "thorough" {
			checks = s.Thorough
			shrink = 60 * time.Second
		}
		ok, err := s.Run(r, checks, Mix(seed, uint64(i)), shrink)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if !ok {
			break
		}
	}
	if err := r.Write(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// Watch detects cases that don't terminate.
func Watch(r *rec.R, hangIsViolation bool, out string) {
	for {
		time.Sleep(time.Second)
		if d, _ := r.Stuck(); d > 150*time.Second {
			if r.Failed() || hangIsViolation {
				if !r.Failed() {
					r.Failure("termination", fmt.Sprintf("the case didn't terminate in %s", d))
				}
				r.Write(out)
				os.Exit(0)
			}
			r.Inconclusive(fmt.Sprintf("a case didn't terminate in %s", d))
			r.Write(out)
			os.Exit(0)
		}
	}
}
