package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/flowchartsman/aql/jsonmatcher"
)

// ---- C11, C12: one matcher used from many goroutines ----

func (s *counts) add(m *jsonmatcher.MatchStats, times int64) {
	s.checked += m.TimesChecked * times
	s.matched += m.TimesMatched * times
	for i, c := range m.Children {
		if len(s.kids) <= i {
			s.kids = append(s.kids, &counts{})
		}
		s.kids[i].add(c, times)
	}
}

const (
	stressGoroutines = 8
	stressRounds     = 2500
)

func stress(c *Case) (string, bool) {
	q := string(c.Query)
	m, err := jsonmatcher.NewMatcher(q)
	if err != nil {
		return "", true
	}
	want := &counts{}
	verdicts := make([]bool, len(c.Docs))
	for i, d := range c.Docs {
		f, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			return "rejected the second time: " + err.Error(), false
		}
		if verdicts[i], err = f.Match(append([]byte{}, d...)); err != nil {
			return "", true
		}
		want.add(f.Stats(), stressGoroutines*stressRounds)
	}
	var wg sync.WaitGroup
	bad := make([]string, stressGoroutines)
	for g := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[g] = fmt.Sprint("panic: ", r)
				}
			}()
			for n := 0; n < stressRounds; n++ {
				for i, d := range c.Docs {
					if v, err := m.Match(d); (v != verdicts[i] || err != nil) && bad[g] == "" {
						bad[g] = fmt.Sprintf("query %s on %s: verdict %v (error %v), alone %v", q, d, v, err, verdicts[i])
					}
				}
			}
		}()
	}
	wg.Wait()
	if b := strings.Join(bad, ""); b != "" {
		return b + " (concurrently)", false
	}
	if d := want.diff(m.Stats(), "root"); d != "" {
		return fmt.Sprintf("query %s, %d goroutines with %d matches each: %s", q, stressGoroutines, stressRounds*len(c.Docs), d), false
	}
	return "", false
}

func init() {
	for _, id := range []string{"C11", "C12"} {
		p := props[id]
		run := p.run
		p.run = func(c *Case) (string, bool) {
			if c.Kind == "stress" {
				return stress(c)
			}
			return run(c)
		}
		p.rule += "; counts and verdicts of one matcher used from 8 goroutines at once"
		for _, q := range []string{"a:1", "NOT a:2 AND (b:\"x\" OR c:exists)", "d:/^x/ OR a:(1,5)"} {
			p.fixed = append(p.fixed, Case{Kind: "stress", Query: B(q), Docs: []B{B(`{"a":1,"b":"x","c":null}`), B(`{"a":[1,2],"d":"xy"}`)}})
		}
	}
}
