// Command zzverif runs the executable oracles of the properties against the real
// packages. It is compiled into /repo's module through a build overlay, uses
// only exported interfaces, and serves two purposes: finding a concrete failing
// input once an obligation has failed, and the bounded checks of what is
// assumed or out of the verifier's reach.
package main

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// B is a byte string that survives JSON.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString(b)})
}

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if json.Unmarshal(d, &s) == nil {
		*b = B(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(d, &m); err != nil {
		return err
	}
	x, err := base64.StdEncoding.DecodeString(m["b64"])
	*b = x
	return err
}

// Case is one input.
type Case struct {
	Kind   string          `json:"kind,omitempty"`
	Query  B               `json:"query,omitempty"`
	Docs   []B             `json:"docs,omitempty"`
	Ints   []int           `json:"ints,omitempty"`
	Strs   []string        `json:"strs,omitempty"`
	Floats []float64       `json:"floats,omitempty"`
	Tree   *qtree          `json:"tree,omitempty"`
	Raw    json.RawMessage `json:"raw,omitempty"`
}

// Prop is an executable oracle: cases come from gen, run tells what is wrong
// with one ("" if nothing is), trivial cases do not count as explored.
type Prop struct {
	fixed []Case
	gen   func(r *rand.Rand) Case
	run   func(c *Case) (bad string, trivial bool)
	rule  string
	bound string
}

var props = map[string]*Prop{}

func safeRun(p *Prop, c *Case) (bad string, trivial bool) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			// the oracle's own mistakes are not the code's
			for i, l := range st {
				if strings.HasPrefix(l, "panic(") && i+2 < len(st) {
					j := i + 2
					for j+2 < len(st) && (strings.HasPrefix(st[j], "runtime.") || strings.HasPrefix(st[j], "panic(")) {
						j += 2
					}
					if strings.HasPrefix(st[j], "main.") {
						fmt.Fprintln(os.Stderr, "oracle failure:", r, strings.Join(st, "\n"))
						os.Exit(3)
					}
				}
			}
			bad = fmt.Sprintf("panic: %v\n%s", r, strings.Join(st, "\n"))
		}
	}()
	return p.run(c)
}

type report struct {
	Property    string `json:"property"`
	Seed        int64  `json:"seed"`
	Evaluations int    `json:"evaluations"`
	Distinct    int    `json:"distinct_nontrivial"`
	Rule        string `json:"rule"`
	Bound       string `json:"bound"`
	Samples     []Case `json:"samples"`
	Failed      bool   `json:"failed"`
	Case        *Case  `json:"case,omitempty"`
	What        string `json:"what,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	ms := flag.Int("ms", 5000, "time budget")
	max := flag.Int("max", 1<<30, "most cases")
	out := flag.String("out", "", "report")
	replay := flag.String("replay", "", "run the case of this file only")
	flag.Parse()
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	rep := &report{Property: *prop, Seed: *seed, Rule: p.rule, Bound: p.bound}
	finish := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			if err := os.WriteFile(*out, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
		if rep.Failed {
			os.Exit(1)
		}
		os.Exit(0)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var rp report
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil || rp.Case == nil {
			fmt.Fprintln(os.Stderr, "no case to replay", err)
			os.Exit(3)
		}
		bad, _ := safeRun(p, rp.Case)
		rep.Evaluations, rep.Failed, rep.Case, rep.What = 1, bad != "", rp.Case, bad
		finish()
	}
	var cur atomic.Pointer[Case]
	var started atomic.Int64
	go func() {
		for {
			time.Sleep(time.Second)
			if c := cur.Load(); c != nil && time.Now().UnixMilli()-started.Load() > 60000 {
				rep.Failed, rep.Case, rep.What = true, c, "does not return within 60 seconds"
				finish()
			}
		}
	}()
	seen := map[uint64]bool{}
	r := rand.New(rand.NewSource(*seed))
	end := time.Now().Add(time.Duration(*ms) * time.Millisecond)
	one := func(c Case) {
		started.Store(time.Now().UnixMilli())
		cur.Store(&c)
		bad, trivial := safeRun(p, &c)
		cur.Store(nil)
		rep.Evaluations++
		if !trivial {
			h := fnv.New64a()
			json.NewEncoder(h).Encode(c)
			if k := h.Sum64(); !seen[k] {
				seen[k] = true
				if len(rep.Samples) < 3 || len(rep.Samples) < 6 && len(seen)%997 == 0 {
					rep.Samples = append(rep.Samples, c)
				}
			}
		}
		if bad != "" {
			rep.Failed, rep.Case, rep.What = true, &c, bad
		}
	}
	for _, c := range p.fixed {
		one(c)
		if rep.Failed {
			break
		}
	}
	for p.gen != nil && !rep.Failed && rep.Evaluations < *max && time.Now().Before(end) {
		one(p.gen(r))
	}
	rep.Distinct = len(seen)
	finish()
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
