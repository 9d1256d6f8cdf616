// Command vcgen checks the functions of a Go module against contracts.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type Report struct {
	Units   []*UnitReport `json:"units"`
	Unbound []string      `json:"unbound"`
	LoadMs  int64         `json:"load_ms"`
	Ms      int64         `json:"ms"`
	Assumed []string      `json:"assumed_contracts"`
	Error   string        `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "module to verify")
	specs := flag.String("specs", "/verif/specs", "directory of contracts")
	tags := flag.String("tag", "", "only units with one of these tags (comma separated)")
	only := flag.String("only", "", "only units matching this expression")
	out := flag.String("json", "", "write the report to this file")
	quick := flag.Bool("quick", false, "short retries")
	verbose := flag.Bool("v", false, "print every obligation")
	jobs := flag.Int("j", 8, "parallel units")
	pk := flag.String("pkgs", "./...", "packages to load")
	dropped := flag.Bool("dropped", false, "print candidate invariants")
	sigs := flag.Bool("signatures", false, "print the functions of the program with their signatures")
	flag.Parse()
	_ = dropped
	t0 := time.Now()
	rep := &Report{}
	die := func(err error) {
		rep.Error = err.Error()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		fmt.Fprintln(os.Stderr, "vcgen:", err)
		os.Exit(2)
	}
	sp, err := loadSpecs(*specs)
	if err != nil {
		die(err)
	}
	p, err := loadProg(*repo, strings.Fields(*pk), sp)
	if err != nil {
		die(err)
	}
	if *sigs {
		fmt.Print(p.signatures())
		return
	}
	rep.LoadMs = time.Since(t0).Milliseconds()
	for _, k := range sp.order {
		c := sp.contracts[k]
		if !c.bound {
			rep.Unbound = append(rep.Unbound, shortPkg(c.pkg)+"."+c.key)
		}
		if c.kind == "extern" || c.flags["trusted"] || c.flags["assumed"] {
			rep.Assumed = append(rep.Assumed, c.key)
		}
	}
	want := map[string]bool{}
	for _, t := range strings.Split(*tags, ",") {
		if t != "" {
			want[t] = true
		}
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var us []*Unit
	for _, u := range p.units() {
		if re != nil && !re.MatchString(u.name) {
			continue
		}
		if len(want) > 0 {
			ok := false
			for _, t := range u.tags {
				ok = ok || want[t]
			}
			if !ok {
				continue
			}
		}
		us = append(us, u)
	}
	reps := make([]*UnitReport, len(us))
	var wg sync.WaitGroup
	sem := make(chan bool, *jobs)
	for i, u := range us {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					reps[i] = &UnitReport{Name: u.name, Tags: u.tags, Error: fmt.Sprintf("internal: %v", r)}
					if *verbose {
						fmt.Printf("%s: %v\n%s\n", u.name, r, debug.Stack())
					}
				}
			}()
			reps[i] = verifyUnit(p, u, *quick)
		}()
	}
	wg.Wait()
	rep.Units = reps
	rep.Ms = time.Since(t0).Milliseconds()
	bad := 0
	for _, r := range reps {
		ok, fl := 0, 0
		for _, o := range r.Results {
			if o.Status == "proved" {
				ok++
			} else {
				fl++
			}
		}
		bad += fl
		if r.Error != "" {
			bad++
		}
		if *out == "" {
			fmt.Printf("%-60s %4d proved %3d failed %6d ms (%d rounds) %s\n", r.Name, ok, fl, r.Ms, r.Rounds, r.Error)
			for _, o := range r.Results {
				if o.Status != "proved" || *verbose {
					fmt.Printf("    %-7s %s: %s at %s %v [%s %dms] %s\n", o.Status, o.Kind, o.Label, o.Pos, o.Tags, o.Backend, o.Ms, o.Output)
				}
			}
			if *verbose {
				for _, n := range r.Notes {
					fmt.Println("    note:", n)
				}
				for _, n := range r.Invs {
					fmt.Println("    inv:", n)
				}
				for _, n := range r.Trusted {
					fmt.Println("    trusted:", n)
				}
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			die(err)
		}
	} else {
		fmt.Printf("%d units, %d problems, unbound %v, load %d ms, total %d ms\n", len(reps), bad, rep.Unbound, rep.LoadMs, rep.Ms)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
