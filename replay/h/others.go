package main

import (
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

// ---- C19: formatted messages ----

const sepTmpl = "{{.Query}}\x00{{.QueryPre}}\x00{{.QueryHL}}\x00{{.QueryPost}}\x00{{.HLStrOffset}}\x00{{.HLLen}}\x00{{.HasHL}}\x00{{.Message}}\x00{{.Type}}"

// c19run: Ints are width, byte offset (-1: no position), length, kind.
func c19run(c *Case) (string, bool) {
	q := string(c.Query)
	width, off, n, kind := c.Ints[0], c.Ints[1], c.Ints[2], c.Ints[3]
	pos := ast.NoPosition()
	if off >= 0 {
		l, col := lineCol(q, off)
		pos = ast.Pos{Line: l, Col: col, Offset: off, Len: n}
	}
	var m fmtmsg.Message
	typ := "error"
	switch kind {
	case 0:
		m = parser.ErrorAt(pos, "some text")
	case 1:
		m, typ = &parser.ParserMessage{Position: pos, Msg: "some text", Type: parser.MsgHint}, "info"
	case 2:
		m, typ = &parser.ParserMessage{Position: pos, Msg: "some text", Type: parser.MsgWarning}, "warning"
	default:
		m = &parser.ParserMessage{Position: pos, Msg: "some text", Type: parser.MsgError}
	}
	f, err := fmtmsg.NewFormatter(sepTmpl, false, width)
	if err != nil {
		return "NewFormatter: " + err.Error(), false
	}
	out := f.WithQuery(q).Sprint(m)
	what := fmt.Sprintf("query %q, width %d, position %+v", q, width, pos)
	fs := strings.Split(out, "\x00")
	if len(fs) != 9 {
		return fmt.Sprintf("%s: formats as %q", what, out), false
	}
	shown, pre, hl, post := fs[0], fs[1], fs[2], fs[3]
	hlOff, _ := strconv.Atoi(fs[4])
	hlLen, _ := strconv.Atoi(fs[5])
	if fs[7] != "some text" || fs[8] != typ || fs[6] != fmt.Sprint(off >= 0) {
		return fmt.Sprintf("%s: message, type or highlight flag are %q", what, fs[6:]), false
	}
	if pre+hl+post != shown {
		return fmt.Sprintf("%s: %q, %q and %q do not make up %q", what, pre, hl, post, shown), false
	}
	runes := []rune(q)
	if off < 0 {
		if shown != string(runes) && (width <= 0 || len(runes) <= width) {
			return fmt.Sprintf("%s: shows %q", what, shown), false
		}
		return "", false
	}
	o := utf8.RuneCountInString(q[:off])
	bad := ""
	check := func(lo, ro int) bool {
		var sb strings.Builder
		if lo > 0 {
			sb.WriteString("...")
		}
		sb.WriteString(string(runes[lo:ro]))
		if ro < len(runes) {
			sb.WriteString("...")
		}
		if sb.String() != shown {
			return false
		}
		e := min(o+n, ro)
		wantOff := o - lo
		if lo > 0 {
			wantOff += 3
		}
		wantLen := n
		if ro < len(runes) {
			wantLen = min(n, ro-o)
		}
		switch {
		case o < lo || o > ro || o == ro && o < len(runes) && n > 0:
			bad = fmt.Sprintf("the highlight at %d is outside the window %d-%d", o, lo, ro)
		case n <= width && min(o+n, len(runes)) > ro:
			bad = fmt.Sprintf("the window %d-%d cuts the highlight %d-%d", lo, ro, o, o+n)
		case hl != string(runes[o:e]):
			bad = fmt.Sprintf("the highlight is %q, want %q", hl, string(runes[o:e]))
		case hlOff != wantOff || hlLen != wantLen:
			bad = fmt.Sprintf("the marker is at %d of length %d, want %d and %d", hlOff, hlLen, wantOff, wantLen)
		default:
			bad = ""
			return true
		}
		return false
	}
	ok := false
	if width <= 0 || len(runes) <= width {
		ok = check(0, len(runes))
	} else {
		for lo := 0; lo+width <= len(runes) && !ok; lo++ {
			ok = check(lo, lo+width)
		}
	}
	if !ok {
		if bad == "" {
			bad = "no window of the query"
		}
		return fmt.Sprintf("%s: shows %q: %s", what, shown, bad), false
	}
	// the terminal formatter and html
	t := fmtmsg.NewTerminalFormatter(width).WithQuery(q).Sprint(m)
	if strings.Contains(t, "PRINT ERROR") {
		return fmt.Sprintf("%s: terminal formatter: %s", what, t), false
	}
	want := strings.ToUpper(typ) + ": some text\n    " + shown + "\n    " + strings.Repeat(" ", hlOff) + strings.Repeat("^", hlLen) + "\n"
	if t != want {
		return fmt.Sprintf("%s: terminal formatter writes %q, want %q", what, t, want), false
	}
	h, err := fmtmsg.NewFormatter("{{.QueryPre}}|{{.QueryHL}}|{{.QueryPost}}", true, width)
	if err != nil {
		return "NewFormatter: " + err.Error(), false
	}
	s := h.WithQuery(q).Sprint(m)
	if strings.Contains(s, "PRINT ERROR") {
		return fmt.Sprintf("%s: html formatter: %s", what, s), false
	}
	if html.UnescapeString(s) != pre+"|"+hl+"|"+post || strings.ContainsAny(s, "<>\"'") {
		return fmt.Sprintf("%s: html formatter writes %q", what, s), false
	}
	return "", false
}

func c19() *Prop {
	return &Prop{rule: "text, window, highlight and marker of formatted messages compared with an independent computation", bound: "queries of up to 40 characters, widths -1 to 45, every kind of message", run: c19run,
		gen: func(r *rand.Rand) Case {
			q := ""
			for n := r.Intn(40); n > 0; n-- {
				q += pick(r, []string{"a", "b", "c", "d", "e", ":", " ", "é", "𝄞", ".", "\n", "1", "(", "x", "<", "\"", "&lt;"})
			}
			runes := []rune(q)
			o := r.Intn(len(runes) + 1)
			left := len(runes) - o
			n := 1
			if left > 0 {
				n = 1 + r.Intn(left)
				if chance(r, 2) {
					n = 1 + r.Intn(min(left, 4))
				}
				if chance(r, 12) {
					n = 0
				}
			}
			off := len(string(runes[:o]))
			if chance(r, 10) {
				off = -1
			}
			return Case{Query: B(q), Ints: []int{r.Intn(47) - 1, off, n, r.Intn(4)}}
		}}
}

// ---- C20, C21: sampler ----

type sop struct {
	Op    string `json:"op"` // sample reset
	Doc   B      `json:"doc,omitempty"`
	Valid bool   `json:"valid,omitempty"`
}

func quoteKey(k string) string {
	if strings.Contains(k, " ") {
		return `"` + k + `"`
	}
	return k
}

func (j *jnode) sampleRef(path []string, depth, max int, add func(string)) {
	if max >= 0 && depth > max {
		return
	}
	switch j.kind {
	case 'o':
		for i, k := range j.keys {
			j.kids[i].sampleRef(append(path[:len(path):len(path)], quoteKey(k)), depth+1, max, add)
		}
	case 'a':
		for _, e := range j.kids {
			if e.kind != 'a' {
				e.sampleRef(path, depth, max, add)
			}
		}
	default:
		if len(path) > 0 {
			add(strings.Join(path, "."))
		}
	}
}

// sampled reads the state of a sampler through its interface: the keys and
// their largest threshold.
func sampled(s *sampler.Sampler) (map[string]int, string) {
	keys := s.Keys()
	out := map[string]int{}
	for _, k := range keys {
		if _, dup := out[k]; dup {
			return nil, fmt.Sprintf("key %q is listed twice", k)
		}
		out[k] = -1
	}
	return out, ""
}

func samplerRun(counting bool) func(c *Case) (string, bool) {
	return func(c *Case) (string, bool) {
		var ops []sop
		if json.Unmarshal(c.Raw, &ops) != nil {
			return "", true
		}
		max := c.Ints[0]
		s := sampler.New(max)
		counts, docs := map[string]int{}, 0
		exact := true // the counts are known
		for i, op := range ops {
			what := fmt.Sprintf("limit %d, history %s, step %d", max, c.Raw, i)
			if op.Op == "reset" {
				s.Reset()
				counts, docs, exact = map[string]int{}, 0, true
			} else {
				before, _ := sampled(s)
				in := append([]byte{}, op.Doc...)
				err := s.Sample(in)
				if string(in) != string(op.Doc) {
					return what + ": the document was changed", false
				}
				j, ok := parseDoc(op.Doc)
				ok = ok && op.Valid && len(op.Doc) > 0 && (j.kind == 'o' || j.kind == 'a')
				if err != nil {
					if ok && counting {
						return fmt.Sprintf("%s: rejected: %v", what, err), false
					}
					after, _ := sampled(s)
					if s.Scanned() != docs || len(before) != len(after) {
						return fmt.Sprintf("%s: the rejected sample changed the state: %d documents, keys %v, before %d and %v", what, s.Scanned(), after, docs, before), false
					}
				} else {
					docs++
					if ok {
						j.sampleRef(nil, 0, max, func(k string) { counts[k]++ })
					} else {
						exact = false
					}
				}
			}
			if s.Scanned() != docs {
				return fmt.Sprintf("%s: %d documents scanned, want %d", what, s.Scanned(), docs), false
			}
			got, bad := sampled(s)
			if bad != "" {
				return what + ": " + bad, false
			}
			if !exact {
				continue
			}
			if len(got) != len(counts) {
				return fmt.Sprintf("%s: keys %q, want %v", what, s.Keys(), counts), false
			}
			for k := range got {
				if _, ok := counts[k]; !ok {
					return fmt.Sprintf("%s: key %q should not be there, want %v", what, k, counts), false
				}
			}
			if docs == 0 {
				continue
			}
			ts := map[int]bool{0: true, 1: true, 50: true, 100: true, 101: true, -1: true, 99: true}
			for _, n := range counts {
				ts[100*n/docs] = true
				ts[100*n/docs+1] = true
				ts[100*n/docs-1] = true
				ts[100*(n+1)/docs] = true
			}
			for t := range ts {
				var want []string
				for k, n := range counts {
					if n*100 >= t*docs {
						want = append(want, k)
					}
				}
				have := s.KeysAtThreshold(t)
				sort.Strings(want)
				sort.Strings(have)
				if strings.Join(want, "\x00") != strings.Join(have, "\x00") || len(want) != len(have) {
					return fmt.Sprintf("%s: keys at %d%% of %d documents are %q, counts are %v", what, t, docs, have, counts), false
				}
			}
		}
		return "", len(ops) == 0
	}
}

var sampleLeaf = []string{"1", `"s"`, "null", "true", "-2.5e3", `"a b"`, `""`, `"}"`, `"[1]"`}

func samplerGen(broken int) func(r *rand.Rand) Case {
	return func(r *rand.Rand) Case {
		var ops []sop
		for n := 1 + r.Intn(5); n > 0; n-- {
			if chance(r, 7) {
				ops = append(ops, sop{Op: "reset"})
				continue
			}
			j := genDoc(r, 1+r.Intn(4), func() string { return pick(r, sampleLeaf) })
			if j.kind == 's' {
				j = &jnode{kind: 'o', keys: []string{"a"}, kids: []*jnode{j}}
			}
			var sb strings.Builder
			j.write(r, &sb)
			d := sb.String()
			valid := true
			if chance(r, broken) {
				valid = false
				switch r.Intn(5) {
				case 0:
					d = ""
				case 1:
					i := r.Intn(len(d))
					d = d[:i] + d[i+1:]
				case 2:
					i := r.Intn(len(d))
					d = d[:i] + pick(r, []string{"x", "{", "}", "[", "]", ",", `"`, ":"}) + d[i:]
				case 3:
					d = " " + d
				case 4:
					i := r.Intn(len(d))
					d = d[:i] + d[len(d)-1:]
				}
			}
			ops = append(ops, sop{Op: "sample", Doc: B(d), Valid: valid})
		}
		c := Case{Ints: []int{pick(r, []int{-1, -1, 0, 1, 2, 3, 5, -3})}}
		c.Raw, _ = json.Marshal(ops)
		return c
	}
}

func init() {
	props["C19"] = c19()
	fixed := func() (out []Case) {
		for _, max := range []int{-1, 0, 1, 2} {
			for _, d := range []string{"{}", "[]", `{"a":1}`, `[1,{"a":1},[{"b":1}]]`, `{"a":[1,2,[3],{"b":4}]}`, `{"a b":{"c":1},"a":{"b c":[1,2]}}`, `{"a":{"b":{"c":{"d":1}}}}`, `{"a":1,"a":2}`, `{"":1}`, `{"a":[],"b":{}}`, `[[1]]`, `{"a":{"x":1},"b":{"x":1},"c":[{"x":1},{"x":2}]}`} {
				raw, _ := json.Marshal([]sop{{Op: "sample", Doc: B(d), Valid: true}, {Op: "sample", Doc: B(`{"a":3,"z":{"y":1}}`), Valid: true}, {Op: "sample", Doc: B(`{"q":1,"r":{"s":`), Valid: false}, {Op: "sample", Doc: B(`{"q":1,"r":{"s":}}`), Valid: false}, {Op: "reset"}, {Op: "sample", Doc: B(d), Valid: true}})
				out = append(out, Case{Ints: []int{max}, Raw: raw})
			}
		}
		return
	}()
	props["C20"] = &Prop{rule: "keys and thresholds of a sampler after every step compared with counts of an independent reading of the documents", bound: "histories of up to 5 steps, documents of depth <= 4", run: samplerRun(true), gen: samplerGen(20), fixed: fixed}
	props["C21"] = &Prop{rule: "state of a sampler after every step of a history with rejected samples and resets compared with a reference; thresholds around every count", bound: "histories of up to 5 steps, documents of depth <= 4, one in three broken", run: samplerRun(false), gen: samplerGen(3), fixed: fixed}
}
