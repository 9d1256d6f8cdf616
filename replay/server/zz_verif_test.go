package main

// The oracle of the demo server, compiled into its package through an overlay.
// Every file it names lies in a scratch directory of its own.

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type zzCase struct {
	Added     []string `json:"added"`
	Requested []string `json:"requested"`
}

type zzReport struct {
	Property    string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Bound       string   `json:"bound"`
	Samples     []zzCase `json:"samples"`
	Failed      bool     `json:"failed"`
	Case        *zzCase  `json:"case,omitempty"`
	What        string   `json:"what,omitempty"`
}

var zzFiles = []string{"a.txt", "b.txt", "sub/a.txt", "sub/c.txt", "sub/deep/b.txt", "secret", "sub/secret"}

func zzSetup(dir string) {
	for _, f := range zzFiles {
		p := filepath.Join(dir, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte("content of "+f), 0o644)
	}
}

func zzRun(dir string, c *zzCase) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	d := new(DiskFS)
	table := map[string]string{}
	for _, a := range c.Added {
		d.AddFile(a)
		full, _ := filepath.Abs(a)
		table[filepath.Base(full)] = full
	}
	for _, q := range c.Requested {
		q = strings.ReplaceAll(q, "$DIR", dir)
		f, err := d.Open(q)
		got := ""
		if err == nil && f != nil {
			b, _ := io.ReadAll(f)
			st, serr := f.Stat()
			f.Close()
			if serr == nil && st.IsDir() {
				return fmt.Sprintf("added %q, requested %q: opened a directory", c.Added, q)
			}
			got = string(b)
		}
		full, ok := table[q]
		want := ""
		if ok {
			if b, err := os.ReadFile(full); err == nil {
				want = string(b)
			}
		}
		if got != want {
			return fmt.Sprintf("added %q, requested %q: read %q, want %q", c.Added, q, got, want)
		}
		// through the file server
		r := httptest.NewRequest("GET", "http://x/", nil)
		r.URL.Path = "/" + q
		w := httptest.NewRecorder()
		http.FileServer(http.FS(d)).ServeHTTP(w, r)
		for _, f := range zzFiles {
			if strings.Contains(w.Body.String(), "content of "+f) {
				listed := false
				for _, p := range table {
					listed = listed || p == filepath.Join(dir, f)
				}
				if !listed {
					return fmt.Sprintf("added %q, requested %q over HTTP: served %s", c.Added, q, f)
				}
			}
		}
	}
	return ""
}

// zzMain runs the program in this process and asks its handler.
func zzMain(dir string) string {
	site := filepath.Join(dir, "site")
	os.MkdirAll(filepath.Join(site, "sub"), 0o755)
	names := []string{"index.html", "wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"}
	for _, n := range names {
		os.WriteFile(filepath.Join(site, n), []byte("public "+n), 0o644)
	}
	for _, n := range []string{"secret.txt", "sub/secret.txt", "../outside.txt", "index.htm", "main.go"} {
		os.WriteFile(filepath.Join(site, n), []byte("SECRET "+n), 0o644)
	}
	os.Args = []string{"server", site}
	go main()
	for i := 0; i < 200; i++ {
		r := httptest.NewRequest("GET", "http://x/", nil)
		if _, pat := http.DefaultServeMux.Handler(r); pat != "" {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	get := func(p string) string {
		r := httptest.NewRequest("GET", "http://x/", nil)
		r.URL.Path = p
		w := httptest.NewRecorder()
		func() {
			defer func() { recover() }()
			http.DefaultServeMux.ServeHTTP(w, r)
		}()
		return w.Body.String()
	}
	for _, p := range []string{"/secret.txt", "/sub/secret.txt", "/../outside.txt", "/..%2foutside.txt", "/index.htm", "/main.go", "/sub/", "/sub", "/.", "//secret.txt", "/./secret.txt", "/sub/../secret.txt", site + "/secret.txt", "/" + site + "/secret.txt", "/style.css/../secret.txt", "/\\secret.txt", "/SECRET.TXT", ""} {
		if b := get(p); strings.Contains(b, "SECRET ") {
			return fmt.Sprintf("request %q to the program: served %q", p, b)
		}
	}
	for _, n := range names {
		p := "/" + n
		if n == "index.html" {
			p = "/"
		}
		if b := get(p); b != "public "+n {
			return fmt.Sprintf("request %q to the program: served %q", p, b)
		}
	}
	return ""
}

func TestZZVerif(t *testing.T) {
	if out := os.Getenv("ZZVERIF_CHILD"); out != "" {
		bad := zzMain(os.Getenv("ZZVERIF_DIR"))
		os.WriteFile(out, []byte(bad), 0o644)
		os.Exit(0)
	}
	log.SetOutput(io.Discard)
	fl := flag.NewFlagSet("zz", flag.ExitOnError)
	fl.String("prop", "", "")
	seed := fl.Int64("seed", 1, "")
	ms := fl.Int("ms", 5000, "")
	out := fl.String("out", "", "")
	replay := fl.String("replay", "", "")
	fl.Parse(strings.Split(os.Getenv("ZZVERIF_ARGS"), "\x1f"))
	dir, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	zzSetup(dir)
	os.Chdir(filepath.Join(dir, "sub"))
	rep := &zzReport{Property: "C22", Seed: *seed, Rule: "what Open returns compared with a table of the files added; contents served by a file server on top of it, and by the program's handler, searched for files that were not added", Bound: "up to 4 files added, 5 names requested, over a tree of 7 files"}
	finish := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, append(b, '\n'), 0o644)
	}
	defer finish()
	if *replay != "" {
		var rp zzReport
		b, _ := os.ReadFile(*replay)
		json.Unmarshal(b, &rp)
		if rp.Case != nil && len(rp.Case.Requested) > 0 {
			rep.What = zzRun(dir, rp.Case)
		} else {
			rep.What = zzMain(dir)
		}
		rep.Evaluations, rep.Failed, rep.Case = 1, rep.What != "", rp.Case
		return
	}
	// the program itself, in a process of its own (it ends it if the port is taken)
	exe, _ := os.Executable()
	child := exec.Command(exe, "-test.run=ZZVerif")
	cout := filepath.Join(dir, "child.out")
	child.Env = append(os.Environ(), "ZZVERIF_CHILD="+cout, "ZZVERIF_DIR="+dir)
	child.Start()
	done := make(chan bool, 1)
	go func() { child.Wait(); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		child.Process.Kill()
	}
	if b, err := os.ReadFile(cout); err == nil {
		rep.Evaluations++
		if len(b) > 0 {
			rep.Failed, rep.What, rep.Case = true, string(b), &zzCase{}
			return
		}
	}
	seen := map[string]bool{}
	r := rand.New(rand.NewSource(*seed))
	adds := []string{"a.txt", "c.txt", "../a.txt", "../b.txt", "deep/b.txt", dir + "/sub/a.txt", dir + "/b.txt", "./a.txt", "deep/../a.txt", "missing.txt", "../sub/c.txt"}
	reqs := []string{"a.txt", "b.txt", "c.txt", "secret", "../secret", "./a.txt", "/a.txt", "deep/b.txt", "$DIR/secret", "$DIR/sub/a.txt", "$DIR/a.txt", "../a.txt", "deep/../secret", "sub/a.txt", "", ".", "..", "/", "a.txt/", "a.txt/../secret", "A.TXT", "missing.txt", "a.txt\x00", "deep", "..\\secret", "a", "txt"}
	end := time.Now().Add(time.Duration(*ms) * time.Millisecond)
	for time.Now().Before(end) && !rep.Failed {
		var c zzCase
		for n := r.Intn(5); n > 0; n-- {
			c.Added = append(c.Added, adds[r.Intn(len(adds))])
		}
		for n := 1 + r.Intn(5); n > 0; n-- {
			c.Requested = append(c.Requested, reqs[r.Intn(len(reqs))])
		}
		bad := zzRun(dir, &c)
		rep.Evaluations++
		k := fmt.Sprint(c)
		if !seen[k] && len(c.Added) > 0 {
			seen[k] = true
			if len(rep.Samples) < 3 {
				rep.Samples = append(rep.Samples, c)
			}
		}
		if bad != "" {
			rep.Failed, rep.What, rep.Case = true, bad, &c
		}
	}
	rep.Distinct = len(seen)
}
