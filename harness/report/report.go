// Package report is how the in-process monitors tell the check what they observed: one JSON line each on stdout.
package report

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Line is one report.
type Line struct {
	Case  string           `json:"case,omitempty"`
	Cases int              `json:"cases,omitempty"`
	Event map[string]int64 `json:"event,omitempty"`
	Key   string           `json:"key,omitempty"`
	Text  string           `json:"text,omitempty"`
	At    string           `json:"at,omitempty"`
	Done  bool             `json:"done,omitempty"`
}

var (
	mu     sync.Mutex
	out    = os.NewFile(3, "report")
	events = map[string]int64{}
	seen   = map[string]bool{}
	trivia int
	viols  = map[string]int{}
)

func emit(l Line) {
	b, _ := json.Marshal(l)
	out.Write(append(b, '\n'))
}

// Case counts one evaluated case, sig being what distinguishes it.
func Case(sig string) {
	mu.Lock()
	defer mu.Unlock()
	if sig == "" || seen[sig] || len(seen) > 200000 {
		trivia++
		return
	}
	seen[sig] = true
	emit(Line{Case: sig})
}

// Event counts something observed.
func Event(kind string, n int64) {
	mu.Lock()
	events[kind] += n
	mu.Unlock()
}

// Violate reports a violation; at most a few per key.
func Violate(key, f string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	viols[key]++
	if viols[key] > 5 {
		return
	}
	emit(Line{Key: key, Text: fmt.Sprintf(f, a...)})
}

// At notes what is about to be tried, so that a crash can be told from its input.
func At(f string, a ...any) { emit(Line{At: fmt.Sprintf(f, a...)}) }

// Done ends the reports; without it the check takes the process to have crashed.
func Done() {
	mu.Lock()
	defer mu.Unlock()
	emit(Line{Event: events, Cases: trivia, Done: true})
}

// Seed returns the run's seed.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if n == 0 {
		n = 1
	}
	return n
}

// Rand returns a generator of its own for one part of the run.
func Rand(part int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + part)) }

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Stacks returns all goroutines' stacks.
func Stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// Within runs f and reports key as violated when it does not return in time or panics. It tells whether f returned.
func Within(d time.Duration, key, what string, f func()) bool {
	done := make(chan bool, 1)
	go func() {
		ok := false
		defer func() {
			if !ok {
				Violate(key+":panic", "%s panicked: %v", what, recover())
			}
			done <- ok
		}()
		f()
		ok = true
	}()
	select {
	case ok := <-done:
		return ok
	case <-time.After(d):
		Violate(key+":hang", "%s did not end within %v:\n%s", what, d, Stacks())
		return false
	}
}

// Safe runs f and reports a panic as a violation of key.
func Safe(key, what string, f func()) (ok bool) {
	defer func() {
		if !ok {
			b := make([]byte, 4096)
			Violate(key+":panic", "%s panicked: %v\n%s", what, recover(), b[:runtime.Stack(b, false)])
		}
	}()
	f()
	return true
}
