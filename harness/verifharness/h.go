// Package verifharness drives bounded searches for inputs that break a property.
package verifharness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

type Failure struct {
	Key   string `json:"key"`
	Input string `json:"input"`
	What  string `json:"what"`
}

type result struct {
	Cases    int64     `json:"cases"`
	Distinct int64     `json:"distinct"`
	Rule     string    `json:"rule"`
	Samples  []string  `json:"samples"`
	Failures []Failure `json:"failures"`
}

// R is one search.
type R struct {
	*rand.Rand
	T        *testing.T
	Thorough bool
	res      result
	seen     map[uint64]bool
	deadline time.Time
	mu       sync.Mutex
	cur      func() string
	curKey   string
	started  time.Time
	stop     bool
	limit    time.Duration
}

// Run performs a search. Rule says how cases are made.
func Run(t *testing.T, rule string, f func(r *R)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &R{Rand: rand.New(rand.NewSource(seed + 1)), T: t, Thorough: os.Getenv("VERIF_TIER") == "thorough", seen: map[uint64]bool{}, limit: 20 * time.Second}
	r.res.Rule = rule
	budget := 12 * time.Second
	if r.Thorough {
		budget = 240 * time.Second
	}
	r.deadline = time.Now().Add(budget)
	done := make(chan bool)
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			r.mu.Lock()
			if r.cur != nil && time.Since(r.started) > r.limit {
				r.res.Failures = append(r.res.Failures, Failure{r.curKey, r.cur(), "does not terminate"})
				r.write()
				os.Exit(1)
			}
			r.mu.Unlock()
		}
	}()
	func() {
		defer func() {
			if x := recover(); x != nil && x != any(stopSearch) {
				panic(x)
			}
		}()
		f(r)
	}()
	close(done)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.write()
	for _, f := range r.res.Failures {
		t.Errorf("%s: %s\ninput: %s", f.Key, f.What, f.Input)
	}
}

const stopSearch = "verifharness: stop"

func (r *R) write() {
	r.res.Distinct = int64(len(r.seen))
	if p := os.Getenv("VERIF_OUT"); p != "" {
		b, _ := json.Marshal(r.res)
		os.WriteFile(p, b, 0o644)
	}
}

// More says whether there is time for more random cases.
func (r *R) More() bool { return time.Now().Before(r.deadline) && len(r.res.Failures) < 3 }

// N is a if the search is quick, b if thorough.
func (r *R) N(a, b int) int {
	if r.Thorough {
		return b
	}
	return a
}

// Case runs one case; f returns what went wrong. A panic is a failure.
func (r *R) Case(key string, input func() string, f func() error) bool {
	if len(r.res.Failures) >= 3 {
		panic(any(stopSearch))
	}
	r.mu.Lock()
	r.cur, r.curKey, r.started = input, key, time.Now()
	r.mu.Unlock()
	err := func() (err error) {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				err = fmt.Errorf("panic: %v\n%s", x, st)
			}
		}()
		return f()
	}()
	r.mu.Lock()
	r.cur = nil
	r.res.Cases++
	n := r.res.Cases
	r.mu.Unlock()
	if len(r.seen) < 2000000 {
		if n < 200000 || n%16 == 0 {
			s := input()
			h := fnv.New64a()
			h.Write([]byte(key))
			h.Write([]byte(s))
			r.seen[h.Sum64()] = true
			if len(r.res.Samples) < 3 && n%7 == 1 {
				if len(s) > 400 {
					s = s[:400]
				}
				r.res.Samples = append(r.res.Samples, key+": "+s)
			}
		}
	}
	if err != nil {
		s := input()
		if len(s) > 20000 {
			s = s[:20000]
		}
		for _, f := range r.res.Failures {
			if f.Key == key {
				return false
			}
		}
		r.res.Failures = append(r.res.Failures, Failure{key, s, err.Error()})
		return false
	}
	return true
}

// Bytes makes n random bytes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
