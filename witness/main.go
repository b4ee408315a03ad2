// Command zzverif searches for an input on which the code of the tree breaks a
// property. It only uses the public interface of the packages and its own
// reading of the property (an oracle written independently of the code). It is
// compiled into the tree with "go build -overlay"; no file of the tree changes.
//
// It does not decide anything: it replays failed proof obligations against the
// real code, and it is the bounded stand-in where the design says so.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Case is an input on which a property fails.
type Case struct {
	Property string   `json:"property"`
	Input    []string `json:"input"`
	Expected string   `json:"expected"`
	Got      string   `json:"got"`
	Seed     int64    `json:"seed"`
	Round    int      `json:"round"`
}

type failure struct{ expected, got string }

// T is one round of a search.
type T struct {
	r     *rand.Rand
	round int
	log   []string
	evals int
	dist  map[string]bool
	tmp   string
	prop  string
}

func (t *T) logf(f string, a ...interface{}) { t.log = append(t.log, fmt.Sprintf(f, a...)) }

func (t *T) fail(expected, got string, a ...interface{}) {
	panic(failure{expected, fmt.Sprintf(got, a...)})
}

// eval counts a case; key identifies it.
func (t *T) eval(key string) {
	t.evals++
	if len(t.dist) < 200000 {
		t.dist[key] = true
	}
}

func (t *T) pick(s ...string) string { return s[t.r.Intn(len(s))] }

// size is below n, and now and then well above.
func (t *T) size(n int) int {
	switch {
	case t.chance(150):
		return t.r.Intn(20 * n)
	case t.chance(40):
		return t.r.Intn(6 * n)
	}
	return t.r.Intn(n)
}
func (t *T) chance(n int) bool { return t.r.Intn(n) == 0 }

// Searches, registered by the other files. They run one round.
var searches = map[string]func(t *T){}

type out struct {
	Case     *Case    `json:"case,omitempty"`
	Evals    int      `json:"evaluations"`
	Distinct int      `json:"distinct"`
	Rounds   int      `json:"rounds"`
	Samples  []string `json:"samples"`
	Rule     string   `json:"rule"`
}

// rules says what a search generates and what makes a case count.
var rules = map[string]string{}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Duration("budget", 10*time.Second, "time")
	rounds := flag.Int("rounds", 0, "number of rounds (0: until the budget ends)")
	only := flag.Int("round", -1, "run this round only")
	tmp := flag.String("tmp", "", "scratch directory")
	flag.Parse()
	f, ok := searches[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no search for", *prop)
		os.Exit(3)
	}
	debug.SetMaxStack(64 << 20)
	time.Local = time.FixedZone("elsewhere", 5*3600+1800)
	o := out{Rule: rules[*prop]}
	dist := map[string]bool{}
	start := time.Now()
	var cur *T
	var began time.Time
	var mu sync.Mutex
	var prog *os.File
	if *tmp != "" {
		prog, _ = os.Create(filepath.Join(*tmp, "round"))
	}
	go func() { // a round that does not end is a failure
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if cur != nil && time.Since(began) > 20*time.Second {
				o.Case = &Case{Property: *prop, Input: append([]string(nil), cur.log...), Expected: "termination", Got: "no result after 20 s", Seed: *seed, Round: cur.round}
				json.NewEncoder(os.Stdout).Encode(o)
				os.Exit(1)
			}
			mu.Unlock()
		}
	}()
	for i := 0; (*rounds == 0 || i < *rounds) && time.Since(start) < *budget; i++ {
		if *only >= 0 {
			if i > 0 {
				break
			}
			i = *only
		}
		t := &T{r: rand.New(rand.NewSource(*seed*1000003 + int64(i))), round: i, dist: dist, tmp: *tmp, prop: *prop}
		mu.Lock()
		cur, began = t, time.Now()
		mu.Unlock()
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		c := runRound(f, t)
		mu.Lock()
		cur = nil
		mu.Unlock()
		o.Rounds++
		o.Evals += t.evals
		if len(o.Samples) < 3 && len(t.log) > 0 && i%7 == 1 {
			o.Samples = append(o.Samples, strings.Join(t.log, "; "))
		}
		if c != nil {
			c.Property, c.Seed, c.Round = *prop, *seed, i
			o.Case = c
			break
		}
		if *only >= 0 {
			break
		}
	}
	o.Distinct = len(dist)
	json.NewEncoder(os.Stdout).Encode(o)
	if o.Case != nil {
		os.Exit(1)
	}
}

func runRound(f func(*T), t *T) (c *Case) {
	defer func() {
		if r := recover(); r != nil {
			c = &Case{Input: t.log}
			if fl, ok := r.(failure); ok {
				c.Expected, c.Got = fl.expected, fl.got
			} else {
				c.Expected = "no panic"
				c.Got = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f(t)
	return nil
}
