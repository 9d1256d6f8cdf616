"""Behaviour-preserving edits on which no obligation may fail: refactors.py [-vcgen BIN] [-specs DIR] [ids]

Applies each to a scratch clone of /repo, runs the repository's tests of the package and all obligations.
"""
import os, re, subprocess, sys, shutil

J = "jsonmatcher/"
G = "internal/grammar/parser_gen.go"
EDITS = [
("and-if", [(J+"nodes.go", "	result := a.left.result(root) && a.right.result(root)\n", "	result := a.left.result(root)\n	if result {\n		result = a.right.result(root)\n	}\n")]),
("or-switch", [(J+"nodes.go", "	result := o.left.result(root) || o.right.result(root)\n", "	var result bool\n	switch {\n	case o.left.result(root):\n		result = true\n	default:\n		result = o.right.result(root)\n	}\n")]),
("mark-helper", [(J+"nodes.go", "	if n.nodeStats != nil {\n		n.nodeStats.mark(result)\n	}\n	return result\n}\n", "	return marked(n.nodeStats, result)\n}\n\nfunc marked(s *nodeStats, result bool) bool {\n	if s == nil {\n		return result\n	}\n	s.mark(result)\n	return result\n}\n")]),
("expr-helper", [(J+"nodes.go", """	matched := false
	field := getField(e.path, root)
	if len(field.values) > 0 {
		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
	}
""", """	matched := e.any(getField(e.path, root))
"""), (J+"nodes.go", "func (e exprNode) stats()", """func (e exprNode) any(f *field) bool {
	if len(f.values) == 0 {
		return false
	}
	for i := 0; i < len(e.exprs); i++ {
		if e.exprs[i].matches(f) {
			return true
		}
	}
	return false
}

func (e exprNode) stats()""")]),
("expr-while", [(J+"nodes.go", """		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
""", """		for i := 0; i < len(e.exprs) && !matched; i++ {
			matched = e.exprs[i].matches(field)
		}
""")]),
("expr-backward", [(J+"nodes.go", """		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
""", """		rest := e.exprs
		for len(rest) > 0 && !matched {
			matched = rest[0].matches(field)
			rest = rest[1:]
		}
""")]),
("getfield-inline", [(J+"json_values.go", """	values := getValues(path, root, jsonparser.Object)
	return &field{
		values: values,
	}
""", """	f := &field{}
	f.values = getValues(path, root, jsonparser.Object)
	return f
""")]),
("scalar-if", [(J+"json_values.go", """					switch dataType {
					case jsonparser.Object, jsonparser.Array:
					default:
						out = append(out, jsonValue{
							data:     value,
							dataType: dataType,
						})
					}
""", """					if dataType == jsonparser.Object || dataType == jsonparser.Array {
						return
					}
					out = append(out, jsonValue{value, dataType})
""")]),
("scalar-index", [(J+"json_values.go", """	for _, v := range f.values {
		switch v.dataType {
		case jsonparser.Object:
			continue
""", """	for i := range f.values {
		v := f.values[i]
		switch v.dataType {
		case jsonparser.Object:
""")]),
("getvalues-rename", [(J+"json_values.go", "getValues(path, root", "collect(path, root"), (J+"json_values.go", "func getValues(", "func collect("), (J+"json_values.go", "getValues(path.next()", "collect(path.next()"), (J+"json_values.go", "getValues(path, child", "collect(path, child")]),
("getvalues-return", [(J+"json_values.go", "		outputValues = append(outputValues, getValues(path.next(), child, childType)...)\n", "		return getValues(path.next(), child, childType)\n")]),
("getvalues-ifs", [(J+"json_values.go", "	switch dataType {\n	case jsonparser.Object:\n		// looking for a path", "	if dataType == jsonparser.Object {\n		// looking for a path"),
 (J+"json_values.go", "	case jsonparser.Array:\n		// looking for a path", "	} else if dataType == jsonparser.Array {\n		// looking for a path")]),
("stringval-merge", [(J+"json_values.go", """		sv, err := jsonparser.ParseString(v.data)
		if err != nil {
			return "", false
		}
		return string(sv), true
""", """		if sv, err := jsonparser.ParseString(v.data); err == nil {
			return sv, true
		}
		return "", false
""")]),
("float-helper", [(J+"expr_float.go", """		switch e.op {
		case ast.EQ:
			if fv == e.values[0] {
				return true
			}
		case ast.LT:
			if fv < e.values[0] {
				return true
			}
		case ast.LTE:
			if fv <= e.values[0] {
				return true
			}
		case ast.GT:
			if fv > e.values[0] {
				return true
			}
		case ast.GTE:
			if fv >= e.values[0] {
				return true
			}
		case ast.BET:
			if fv >= e.values[0] && fv <= e.values[1] {
				return true
			}
		// backstop
		default:
			panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
		}
	}
	return false
}
""", """		if e.compare(fv) {
			return true
		}
	}
	return false
}

func (e *exprFloat) compare(fv float64) bool {
	lo, hi := e.values[0], e.values[1]
	switch e.op {
	case ast.EQ:
		return fv == lo
	case ast.LT:
		return lo > fv
	case ast.LTE:
		return lo >= fv
	case ast.GT:
		return fv > lo
	case ast.GTE:
		return fv >= lo
	case ast.BET:
		return lo <= fv && fv <= hi
	}
	panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
}
""")]),
("date-combine", [(J+"expr_datetime.go", "			if !dv.After(e.values[0]) {", "			if dv.Before(e.values[0]) || dv.Equal(e.values[0]) {"), (J+"expr_datetime.go", "if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {", "if !(dv.Before(e.values[0]) || dv.After(e.values[1])) {")]),
("bool-simple", [(J+"expr_equal_bool.go", """		if !ok {
			continue
		}
		if bv == e.value {
			return true
		}
""", """		if ok && bv == e.value {
			return true
		}
""")]),
("exists-neg", [(J+"expr_exists.go", "	return len(field.values) > 0\n", "	if len(field.values) == 0 {\n		return false\n	}\n	return true\n")]),
("null-count", [(J+"expr_null.go", """	for i := range field.values {
		if field.values[i].dataType != jsonparser.Null {
			return false
		}
	}
	return true
""", """	ok := true
	for _, v := range field.values {
		ok = ok && v.dataType == jsonparser.Null
	}
	return ok
""")]),
("null-index", [(J+"expr_null.go", """	for i := range field.values {
		if field.values[i].dataType != jsonparser.Null {
			return false
		}
	}
	return true
""", """	n := len(field.values)
	for i := 0; i < n; i++ {
		switch field.values[i].dataType {
		case jsonparser.Null:
		default:
			return false
		}
	}
	return true
""")]),
("net-helper", [(J+"expr_net.go", """			netsv := sv[ipIdx[0]:ipIdx[1]]
			switch {
			case strings.Contains(netsv, `/`):
				// net block, check for overlap
				netblock, err := netip.ParsePrefix(netsv)
				if err != nil {
					// report incorrect field
					continue
				}
				if e.value.Overlaps(netblock) {
					return true
				}
			// would add port awareness here if needed
			// case strings.Contains(netsv, `:`):
			default:
				// plain netaddr, check if it's contained/equals
				netaddr, err := netip.ParseAddr(netsv)
				if err != nil {
					continue
				}
				if e.value.Contains(netaddr) {
					return true
				}
			}
		}
	}
	return false
}
""", """			if e.one(sv[ipIdx[0]:ipIdx[1]]) {
				return true
			}
		}
	}
	return false
}

func (e *exprNet) one(netsv string) bool {
	if strings.Contains(netsv, `/`) {
		netblock, err := netip.ParsePrefix(netsv)
		return err == nil && e.value.Overlaps(netblock)
	}
	netaddr, err := netip.ParseAddr(netsv)
	return err == nil && e.value.Contains(netaddr)
}
""")]),
("regexp-index", [(J+"expr_regexp.go", """	for _, v := range field.scalarValues() {
		str, ok := getStringVal(v)
		if !ok {
			continue
		}
		if e.value.MatchString(str) {
			return true
		}
	}
	return false
""", """	values := field.scalarValues()
	for i := range values {
		if str, ok := getStringVal(values[i]); ok && e.value.MatchString(str) {
			return true
		}
	}
	return false
""")]),
("between-helper", [(J+"expr_between.go", """		switch v := RVals[0].(type) {
		case *ast.FloatVal:
			constantValues[0] = v.Value()
		case *ast.IntVal:
			constantValues[0] = float64(v.Value())
		}
		switch v := RVals[1].(type) {
		case *ast.FloatVal:
			constantValues[1] = v.Value()
		case *ast.IntVal:
			constantValues[1] = float64(v.Value())
		}
""", """		for i := range constantValues {
			constantValues[i] = rangeNumber(RVals[i])
		}
"""), (J+"expr_between.go", "func exprBetween", """func rangeNumber(v ast.Val) float64 {
	switch v := v.(type) {
	case *ast.FloatVal:
		return v.Value()
	case *ast.IntVal:
		return float64(v.Value())
	}
	return 0
}

func exprBetween""")]),
("eq-helper", [(J+"expr_eq.go", """			if rval.DayOnly() {
				endOfDay := rval.Value().Add(24*time.Hour - 1)
				matchers = append(matchers, &exprDatetime{
					values: [2]time.Time{
						rval.Value(),
						endOfDay,
					},
					op: ast.BET,
				})
			} else {
				matchers = append(matchers, &exprDatetime{
					values: [2]time.Time{rval.Value()},
					op:     ast.EQ,
				})
			}
""", """			matchers = append(matchers, timeMatcher(rval))
"""), (J+"expr_eq.go", "// TODO: some optim", """func timeMatcher(v *ast.TimeVal) fieldExpr {
	e := &exprDatetime{op: ast.EQ}
	e.values[0] = v.Value()
	if v.DayOnly() {
		e.values[1] = v.Value().Add(24*time.Hour - 1)
		e.op = ast.BET
	}
	return e
}

// TODO: some optim""")]),
("eq-prealloc", [(J+"expr_eq.go", "	matchers := make([]fieldExpr, 0, len(RVals))\n	for _, r := range RVals {\n", "	var matchers []fieldExpr\n	for i := 0; i < len(RVals); i++ {\n		r := RVals[i]\n")]),
("wild-if", [(J+"str_matchers.go", """			switch wcRunes[i] {
			case '?':
				buf.WriteString(`.`)
			case '*':
				buf.WriteString(`.*?`)
			}
""", """			if wcRunes[i] == '?' {
				buf.WriteString(`.`)
			} else {
				buf.WriteString(`.*?`)
			}
""")]),
("wild-range", [(J+"str_matchers.go", "	for i := 0; i < len(wcRunes); i++ {\n		switch wcRunes[i] {", "	n := len(wcRunes)\n	for i := 0; i < n; i++ {\n		r := wcRunes[i]\n		switch r {"), (J+"str_matchers.go", "			if i < len(wcRunes)-1 {", "			if i+1 < n {")]),
("ascii-range", [(J+"str_matchers.go", """	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
""", """	for _, c := range []byte(s) {
		if c >= utf8.RuneSelf {
			return false
		}
	}
	return true
""")]),
("match-reorder", [(J+"jsonmatcher.go", """	if !json.Valid(data) {
		return false, errors.New("invalid JSON")
	}
	return m.root.result(data), nil
""", """	if json.Valid(data) {
		verdict := m.root.result(data)
		return verdict, nil
	}
	return false, errors.New("invalid JSON")
""")]),
("matcher-steps", [(J+"jsonmatcher.go", """	builder := newBuilder(true)

	return &Matcher{
		root:     builder.build(root),
		query:    aqlQuery,
		messages: visitor.Messages(),
	}, nil
""", """	m := &Matcher{query: aqlQuery}
	m.messages = visitor.Messages()
	m.root = newBuilder(true).build(root)
	return m, nil
""")]),
("sample-helper", [("sampler/sampler.go", """			path.WriteString(".")
			if bytes.ContainsAny(key, " ") {
				path.WriteString(`"`)
				path.Write(key)
				path.WriteString(`"`)
			} else {
				path.Write(key)
			}
""", """			writeKey(path, key)
"""), ("sampler/sampler.go", "func (s *Sampler) Keys()", """func writeKey(path *bytes.Buffer, key []byte) {
	quote := ""
	if bytes.ContainsAny(key, " ") {
		quote = `"`
	}
	path.WriteString("." + quote)
	path.Write(key)
	path.WriteString(quote)
}

func (s *Sampler) Keys()""")]),
("sample-early", [("sampler/sampler.go", """		if err == nil {
			err = aerr
		}
		return err
""", """		if err != nil {
			return err
		}
		return aerr
""")]),
("threshold-hoist", [("sampler/sampler.go", """	pct := float64(thresholdPercent) / 100
	for key, count := range s.keys {
		if float64(count)/float64(s.totalDocs) >= pct {
			out = append(out, key)
		}
	}
""", """	pct := float64(thresholdPercent) / 100
	docs := float64(s.totalDocs)
	for key := range s.keys {
		share := float64(s.keys[key]) / docs
		if share < pct {
			continue
		}
		out = append(out, key)
	}
""")]),
("reset-order", [("sampler/sampler.go", """	for k := range s.keys {
		delete(s.keys, k)
	}
	s.totalDocs = 0
""", """	s.totalDocs = 0
	for k := range s.keys {
		delete(s.keys, k)
	}
""")]),
("reset-new", [("sampler/sampler.go", """	for k := range s.keys {
		delete(s.keys, k)
	}
	s.totalDocs = 0
""", """	s.keys = make(map[string]uint)
	s.totalDocs = 0
""")]),
("walk-helper", [("parser/visitors.go", """	case *ast.AndNode:
		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
	case *ast.OrNode:
		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
""", """	case *ast.AndNode:
		return walkBoth(v, n.Left, n.Right)
	case *ast.OrNode:
		return walkBoth(v, n.Left, n.Right)
"""), ("parser/visitors.go", "// VisitorFun is", """func walkBoth(v Visitor, left, right ast.Node) error {
	if err := walkr(v, left); err != nil && err != Skip {
		return err
	}
	return walkr(v, right)
}

// VisitorFun is""")]),
("walk-rename", [("parser/visitors.go", "	err := walkr(v, node)\n", "	err := descend(v, node)\n"), ("parser/visitors.go", "func walkr(", "func descend("), ("parser/visitors.go", "walkr(v, n.", "descend(v, n.")]),
("tape-once", [("parser/visitors.go", "	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))\n", "	mt.messages = append(mt.messages, pmsg)\n")]),
("checks-unrolled", [("parser/validators.go", """		for _, check := range []exprCheck{
			checkValues,
			checkArity,
			checkRVals,
			checkBetween,
		} {
			if err := check(n); err != nil {
				return err
			}
		}
""", """		if err := checkValues(n); err != nil {
			return err
		}
		if err := checkArity(n); err != nil {
			return err
		}
		if err := checkRVals(n); err != nil {
			return err
		}
		if err := checkBetween(n); err != nil {
			return err
		}
""")]),
("rvals-sv", [("parser/validators.go", "		seen[rv.String()] = struct{}{}\n", "		seen[sv] = struct{}{}\n")]),
("rvals-conflict", [("parser/validators.go", """			conflictingBool := false
			if sv == "true" {
				_, conflictingBool = seen["false"]
			} else {
				_, conflictingBool = seen["true"]
			}
			if conflictingBool {
""", """			other := "true"
			if sv == "true" {
				other = "false"
			}
			if _, conflict := seen[other]; conflict {
""")]),
("oneof-helper", [("parser/validators.go", """VLOOP:
	for v := range values {
		for t := range types {
			if values[v].Type() == types[t] {
				continue VLOOP
			}
		}
		return v
	}
	return -1
}
""", """	for i, v := range values {
		if !hasType(v, types) {
			return i
		}
	}
	return -1
}

func hasType(v ast.Val, types []ast.ValType) bool {
	for _, t := range types {
		if v.Type() == t {
			return true
		}
	}
	return false
}
""")]),
("between-num", [("parser/validators.go", """	var l, r float64
	switch lnv := e.RVals[0].(type) {
	case *ast.IntVal:
		l = float64(lnv.Value())
	case *ast.FloatVal:
		l = lnv.Value()
	}
	switch rnv := e.RVals[1].(type) {
	case *ast.IntVal:
		r = float64(rnv.Value())
	case *ast.FloatVal:
		r = rnv.Value()
	}
	if r <= l {
""", """	if numberOf(e.RVals[0]) >= numberOf(e.RVals[1]) {
"""), ("parser/validators.go", "func mustBeOneOf", """func numberOf(v ast.Val) float64 {
	if iv, ok := v.(*ast.IntVal); ok {
		return float64(iv.Value())
	}
	if fv, ok := v.(*ast.FloatVal); ok {
		return fv.Value()
	}
	return 0
}

func mustBeOneOf""")]),
("arity-table", [("parser/validators.go", """	case min == 0 && max == 0:
		if numArgs > 0 {
			msg = "does not accept arguments"
		}
	case min == max:
		if numArgs != min {
			msg = fmt.Sprintf("requires exactly %d arguments", min)
		}
""", """	case max == 0:
		if numArgs != 0 {
			msg = "does not accept arguments"
		}
	case min == max:
		if numArgs < min || numArgs > max {
			msg = fmt.Sprintf("requires exactly %d arguments", min)
		}
""")]),
("parse-type", [("parser/parser.go", """	switch t := v.(type) {
	case nil:
		return nil, genericParseError("parser returned nil output")
	case ast.Node:
		root = t
	default:
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", t))
	}
""", """	if v == nil {
		return nil, genericParseError("parser returned nil output")
	}
	root, ok := v.(ast.Node)
	if !ok {
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", v))
	}
"""), ("parser/parser.go", "	var root ast.Node\n\n", "")]),
("parse-visit-helper", [("parser/parser.go", """		err := walk(v, root)
		if err != nil {
			if perr, ok := err.(*ParseError); ok {
				return nil, perr
			}
			return nil, genericParseError("validation failure: " + err.Error())
		}
""", """		if err := visitErr(walk(v, root)); err != nil {
			return nil, err
		}
"""), ("parser/parser.go", "func genericParseError", """func visitErr(err error) error {
	if err == nil {
		return nil
	}
	if perr, ok := err.(*ParseError); ok {
		return perr
	}
	return genericParseError("validation failure: " + err.Error())
}

func genericParseError""")]),
("hl-helper", [("parser/fmtmsg/formatter.go", """	return string(m.query[m.pos.Offset:min(m.pos.Offset+m.pos.Len, m.ro)])
""", """	return string(m.query[m.pos.Offset:m.hlEnd()])
"""), ("parser/fmtmsg/formatter.go", "	sb.WriteString(string(m.query[min(m.pos.Offset+m.pos.Len, m.ro):m.ro]))\n", "	sb.WriteString(string(m.query[m.hlEnd():m.ro]))\n"), ("parser/fmtmsg/formatter.go", "const terminalTmpl", """func (m *printData) hlEnd() int {
	end := m.pos.Offset + m.pos.Len
	if end > m.ro {
		end = m.ro
	}
	return end
}

const terminalTmpl""")]),
("query-concat", [("parser/fmtmsg/formatter.go", """	var sb strings.Builder
	if m.lo > 0 {
		sb.WriteString("...")
	}
	sb.WriteString(string(m.query[m.lo:m.ro]))
	if m.ro < (len(m.query)) {
		sb.WriteString("...")
	}
	return sb.String()
""", """	out := string(m.query[m.lo:m.ro])
	if m.lo > 0 {
		out = "..." + out
	}
	if m.ro < len(m.query) {
		out += "..."
	}
	return out
""")]),
("center-simplified", [("parser/fmtmsg/truncate.go", """	if rightOffset >= strLen {
		leftOffset -= (rightOffset - strLen + 1)
		rightOffset = strLen - 1
	}

	// Adjust""", """	if over := rightOffset - strLen + 1; over > 0 {
		leftOffset -= over
		rightOffset -= over
	}

	// Adjust""")]),
("addfile-order", [("wasm/aqlparse/server/main.go", """	if d.files == nil {
		d.files = map[string]string{}
	}
	fullpath, err := filepath.Abs(loc)
	if err != nil {
		panic(err.Error())
	}
	relpath := filepath.Base(fullpath)
	d.files[relpath] = fullpath
""", """	full, err := filepath.Abs(loc)
	if err != nil {
		panic(err.Error())
	}
	if d.files == nil {
		d.files = make(map[string]string)
	}
	d.files[filepath.Base(full)] = full
""")]),
("serve-loop", [("wasm/aqlparse/server/main.go", """	wasmfs.AddFile(filepath.Join(os.Args[1], "wasm_exec.js"))
	wasmfs.AddFile(filepath.Join(os.Args[1], "hwt.css"))
	wasmfs.AddFile(filepath.Join(os.Args[1], "style.css"))
	wasmfs.AddFile(filepath.Join(os.Args[1], "aqlparse.wasm"))
""", """	for _, name := range []string{"wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"} {
		wasmfs.AddFile(filepath.Join(os.Args[1], name))
	}
""")]),
("open-var", [("wasm/aqlparse/server/main.go", "	return os.OpenFile(d.files[filename], os.O_RDONLY, 0o444)\n", "	full, ok := d.files[filename]\n	if !ok {\n		return os.OpenFile(\"\", os.O_RDONLY, 0o444)\n	}\n	return os.OpenFile(full, os.O_RDONLY, 0o444)\n")]),
("intval-early", [("parser/ast/ast.go", "func NewIntVal", "func unused() {}\n\nfunc NewIntVal")]),
("graph-edges-last", [("aqlgraph/graph.go", """	if left != nil {
		lNode := visitNodes(graph, left)
		ledge := graph.NewEdge(n, lNode)
		ledge.SetPenWidth(3)
	}
	if right != nil {
		lNode := visitNodes(graph, right)
		graph.NewEdge(n, lNode)
	}
""", """	var lNode, rNode *cgraph.Node
	if left != nil {
		lNode = visitNodes(graph, left)
	}
	if right != nil {
		rNode = visitNodes(graph, right)
	}
	if lNode != nil {
		graph.NewEdge(n, lNode).SetPenWidth(3)
	}
	if rNode != nil {
		graph.NewEdge(n, rNode)
	}
""")]),
("graph-value-helper", [("aqlgraph/graph.go", """			hn.Values = append(hn.Values, NodeVal{
				ValType: valType,
				ValStr:  rv.String(),
				Color:   valColor,
			})
""", """			hn.Values = append(hn.Values, nodeVal(rv, valType, valColor))
"""), ("aqlgraph/graph.go", """func visitNodes(""", """func nodeVal(v ast.Val, kind, color string) NodeVal {
	return NodeVal{ValType: kind, ValStr: v.String(), Color: color}
}

func visitNodes(""")]),
("graph-no-var", [("aqlgraph/graph.go", """		left = a.Left
		right = a.Right
	case *ast.OrNode:
""", """		graph.NewEdge(n, visitNodes(graph, a.Left)).SetPenWidth(3)
		graph.NewEdge(n, visitNodes(graph, a.Right))
		return n
	case *ast.OrNode:
""")]),
("eng-seq-index", [(G, """	for _, expr := range seq.exprs {
		val, ok := p.parseExpr(expr)
""", """	for i := 0; i < len(seq.exprs); i++ {
		val, ok := p.parseExpr(seq.exprs[i])
""")]),
("eng-star-cond", [(G, """	var vals []interface{}

	for {
		p.pushV()
		val, ok := p.parseExpr(expr.expr)
		p.popV()
		if !ok {
			return vals, true
		}
		vals = append(vals, val)
	}
}
""", """	var vals []interface{}

	val, ok := p.scoped(expr.expr)
	for ok {
		vals = append(vals, val)
		val, ok = p.scoped(expr.expr)
	}
	return vals, true
}

func (p *parser) scoped(expr interface{}) (interface{}, bool) {
	p.pushV()
	val, ok := p.parseExpr(expr)
	p.popV()
	return val, ok
}
""")]),
("eng-plus-break", [(G, """		if !ok {
			if len(vals) == 0 {
				// did not match once, no match
				return nil, false
			}
			return vals, true
		}
		vals = append(vals, val)
	}
}
""", """		if !ok {
			break
		}
		vals = append(vals, val)
	}
	if len(vals) > 0 {
		return vals, true
	}
	return nil, false
}
""")]),
("eng-choice-scoped", [(G, """		p.pushV()
		val, ok := p.parseExpr(alt)
		p.popV()
		if ok {
			p.incChoiceAltCnt(ch, altI)
			return val, ok
		}
		p.restoreState(state)
""", """		val, ok := p.alternative(alt)
		if !ok {
			p.restoreState(state)
			continue
		}
		p.incChoiceAltCnt(ch, altI)
		return val, true
"""), (G, "func (p *parser) parseLabeledExpr(", """func (p *parser) alternative(alt interface{}) (interface{}, bool) {
	p.pushV()
	val, ok := p.parseExpr(alt)
	p.popV()
	return val, ok
}

func (p *parser) parseLabeledExpr(""")]),
("eng-class-helper", [(G, """			if chr.inverted {
				p.failAt(false, start.position, chr.val)
				return nil, false
			}
			p.read()
			p.failAt(true, start.position, chr.val)
			return p.sliceFrom(start), true
""", """			return p.decide(!chr.inverted, start, chr)
"""), (G, """	if chr.inverted {
		p.read()
		p.failAt(true, start.position, chr.val)
		return p.sliceFrom(start), true
	}
	p.failAt(false, start.position, chr.val)
	return nil, false
}
""", """	return p.decide(chr.inverted, start, chr)
}

func (p *parser) decide(match bool, start savepoint, chr *charClassMatcher) (interface{}, bool) {
	if !match {
		p.failAt(false, start.position, chr.val)
		return nil, false
	}
	p.read()
	p.failAt(true, start.position, chr.val)
	return p.sliceFrom(start), true
}
""")]),
("eng-class-member", [(G, """	// try to match in the list of available chars
	for _, rn := range chr.chars {
		if rn == cur {
			if chr.inverted {
				p.failAt(false, start.position, chr.val)
				return nil, false
			}
			p.read()
			p.failAt(true, start.position, chr.val)
			return p.sliceFrom(start), true
		}
	}
""", """	// try to match in the list of available chars
	listed := false
	for i := 0; i < len(chr.chars) && !listed; i++ {
		listed = chr.chars[i] == cur
	}
	if listed {
		if chr.inverted {
			p.failAt(false, start.position, chr.val)
			return nil, false
		}
		p.read()
		p.failAt(true, start.position, chr.val)
		return p.sliceFrom(start), true
	}
""")]),
("eng-read-order", [(G, """	p.pt.rn = rn
	p.pt.w = n
	p.pt.col++
	if rn == '\\n' {
		p.pt.line++
		p.pt.col = 0
	}
""", """	p.pt.w = n
	p.pt.rn = rn
	if rn == '\\n' {
		p.pt.line++
		p.pt.col = 0
	} else {
		p.pt.col++
	}
""")]),
("eng-rule-helper", [(G, """	p.rstack = append(p.rstack, rule)
	p.pushV()
	val, ok := p.parseExpr(rule.expr)
	p.popV()
	p.rstack = p.rstack[:len(p.rstack)-1]
""", """	val, ok := p.inRule(rule)
"""), (G, "func (p *parser) parseExpr(", """func (p *parser) inRule(r *rule) (interface{}, bool) {
	p.rstack = append(p.rstack, r)
	p.pushV()
	val, ok := p.parseExpr(r.expr)
	p.rstack = p.rstack[:len(p.rstack)-1]
	p.popV()
	return val, ok
}

func (p *parser) parseExpr(""")]),
("eng-lit-bytes", [(G, """		cur := p.pt.rn
		if lit.ignoreCase {
			cur = unicode.ToLower(cur)
		}
		if cur != want {
""", """		if fold(p.pt.rn, lit.ignoreCase) != want {
"""), (G, "func (p *parser) parseNotCodeExpr(", """func fold(r rune, ignoreCase bool) rune {
	if ignoreCase {
		return unicode.ToLower(r)
	}
	return r
}

func (p *parser) parseNotCodeExpr(""")]),
("eng-dedupe", [(G, """	for _, err := range *e {
		if msg := err.Error(); !set[msg] {
			set[msg] = true
			cleaned = append(cleaned, err)
		}
	}
""", """	for _, err := range *e {
		msg := err.Error()
		if set[msg] {
			continue
		}
		cleaned = append(cleaned, err)
		set[msg] = true
	}
""")]),
("eng-err", [(G, """	if len(e) == 0 {
		return nil
	}
	e.dedupe()
	return e
""", """	if len(e) > 0 {
		e.dedupe()
		return e
	}
	return nil
""")]),
("eng-rules-index", [(G, """	for _, r := range g.rules {
		p.rules[r.name] = r
	}
""", """	for i := 0; i < len(g.rules); i++ {
		r := g.rules[i]
		p.rules[r.name] = r
	}
""")]),
("eng-adderr-helper", [(G, """		rule := p.rstack[len(p.rstack)-1]
		if rule.displayName != "" {
			buf.WriteString("rule " + rule.displayName)
		} else {
			buf.WriteString("rule " + rule.name)
		}
""", """		buf.WriteString("rule " + shownName(p.rstack[len(p.rstack)-1]))
"""), (G, "func (p *parser) failAt(", """func shownName(r *rule) string {
	if r.displayName == "" {
		return r.name
	}
	return r.displayName
}

func (p *parser) failAt(""")]),
("eng-throw-loop", [(G, """	for i := len(p.recoveryStack) - 1; i >= 0; i-- {
		if recoverExpr, ok := p.recoveryStack[i][expr.label]; ok {
			if val, ok := p.parseExpr(recoverExpr); ok {
				return val, ok
			}
		}
	}
""", """	for i := len(p.recoveryStack); i > 0; i-- {
		recoverExpr, found := p.recoveryStack[i-1][expr.label]
		if !found {
			continue
		}
		if val, ok := p.parseExpr(recoverExpr); ok {
			return val, true
		}
	}
""")]),
("eng-labeled-early", [(G, """	if ok && lab.label != "" {
		m := p.vstack[len(p.vstack)-1]
		m[lab.label] = val
	}
	return val, ok
""", """	if !ok || lab.label == "" {
		return val, ok
	}
	p.vstack[len(p.vstack)-1][lab.label] = val
	return val, true
""")]),
("act-comparison-helper", [(G, """	var opOut ast.Op
	if operation == nil {
		opOut = ast.EQ
	} else {
		opOut = operation.(ast.Op)
	}
	node := &ast.ExprNode{
		Op:       opOut,
		Field:    field.([]string),
		RVals:    values.([]ast.Val),
		Position: getpos(c),
	}
	return node, nil
}
""", """	return &ast.ExprNode{
		Position: getpos(c),
		Op:       opOr(operation, ast.EQ),
		Field:    field.([]string),
		RVals:    values.([]ast.Val),
	}, nil
}

func opOr(operation interface{}, def ast.Op) ast.Op {
	if operation != nil {
		return operation.(ast.Op)
	}
	return def
}
""")]),
("act-field-index", [(G, """	for _, v := range restSl {
		vSl := toAny(v)
		field = append(field, vSl[1].(string))
	}
""", """	for i := 0; i < len(restSl); i++ {
		field = append(field, toAny(restSl[i])[1].(string))
	}
""")]),
("act-values-prealloc", [(G, """	out := []ast.Val{first.(ast.Val)}
	restSl := toAny(rest)
	if len(restSl) == 0 {
		return nil, fmt.Errorf("unnecessary parenthesis for only one value")
	}
	for _, v := range restSl {
		r := toAny(v)
		out = append(out, r[3].(ast.Val))
	}
	return out, nil
""", """	restSl := toAny(rest)
	if len(restSl) == 0 {
		return nil, fmt.Errorf("unnecessary parenthesis for only one value")
	}
	out := make([]ast.Val, 0, 1+len(restSl))
	out = append(out, first.(ast.Val))
	for _, v := range restSl {
		out = append(out, toAny(v)[3].(ast.Val))
	}
	return out, nil
""")]),
("eng-parse-helper", [(G, """		if len(*p.errs) == 0 {
			// If parsing fails, but no errors have been recorded, the expected values
			// for the farthest parser position are returned as error.
			maxFailExpectedMap""", """		if len(*p.errs) == 0 {
			p.addExpected()
		}

		return nil, p.errs.err()
	}
	return val, p.errs.err()
}

func (p *parser) addExpected() {
			// If parsing fails, but no errors have been recorded, the expected values
			// for the farthest parser position are returned as error.
			maxFailExpectedMap"""), (G, """			p.addErrAt(errors.New("no match found, expected: "+listJoin(expected, ", ", "or")), p.maxFailPos, expected)
		}

		return nil, p.errs.err()
	}
	return val, p.errs.err()
}
""", """			p.addErrAt(errors.New("no match found, expected: "+listJoin(expected, ", ", "or")), p.maxFailPos, expected)
}
""")]),
("eng-not-order", [(G, """	p.maxFailInvertExpected = !p.maxFailInvertExpected
	p.popV()
	p.restoreState(state)
	p.restore(pt)

	return nil, !ok
""", """	p.popV()
	p.maxFailInvertExpected = !p.maxFailInvertExpected
	p.restore(pt)
	p.restoreState(state)
	if ok {
		return nil, false
	}
	return nil, true
""")]),
("stars-slice", [(G, "		ss = append(ss[:i], ss[i+1:]...)\n", "		rest := ss[i+1:]\n		ss = append(ss[:i], rest...)\n")]),
("msg-early-return", [(J+"query_messages.go", """	switch n := node.(type) {
	case *ast.ExprNode:
		for _, v := range n.RVals {
""", """	n, ok := node.(*ast.ExprNode)
	if !ok {
		return nil
	}
	{
		for i := 0; i < len(n.RVals); i++ {
			v := n.RVals[i]
""")]),
("msg-time-helper", [(J+"query_messages.go", """				if n.Op == ast.EQ && !rv.DayOnly() {
					tape.WarningAt(rv.Pos(), `exact matches on full datetime values match the time EXACTLY, consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)
				}
""", """				adviseTime(n, rv, tape)
"""), (J+"query_messages.go", "func doesSomethingSpecial", """func adviseTime(n *ast.ExprNode, rv *ast.TimeVal, tape *parser.MessageTape) {
	if n.Op != ast.EQ || rv.DayOnly() {
		return
	}
	tape.WarningAt(rv.Pos(), `exact matches on full datetime values match the time EXACTLY, consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)
}

func doesSomethingSpecial""")]),
("msg-string-helper", [(J+"query_messages.go", """				if n.Op == ast.SIM {
					tape.WarningAt(rv.Pos(), `Similarity comparison is deprecated""", """				sim := n.Op == ast.SIM
				if pos := rv.Pos(); sim {
					tape.WarningAt(pos, `Similarity comparison is deprecated""")]),
("msg-stars-helper", [(J+"query_messages.go", """				if len(reg.Sub) >= 2 {
					if isDotStar(reg.Sub[0]) {
						tape.HintAt(rv.Pos(), `leading ".*" may not do what you think, if you are searching for a term anywhere in a string, consider just "/word/"`)
					}
					if len(reg.Sub) >= 3 {
						if isDotStar(reg.Sub[len(reg.Sub)-1]) {
							tape.HintAt(rv.Pos(), `trailing ".*" is probably unnecessary`)
						}
					}
				}
""", """				adviseStars(reg, rv, tape)
"""), (J+"query_messages.go", "func doesSomethingSpecial", """func adviseStars(reg *syntax.Regexp, rv *ast.RegexpVal, tape *parser.MessageTape) {
	n := len(reg.Sub)
	if n < 2 {
		return
	}
	if isDotStar(reg.Sub[0]) {
		tape.HintAt(rv.Pos(), `leading ".*" may not do what you think, if you are searching for a term anywhere in a string, consider just "/word/"`)
	}
	if n > 2 && isDotStar(reg.Sub[n-1]) {
		tape.HintAt(rv.Pos(), `trailing ".*" is probably unnecessary`)
	}
}

func doesSomethingSpecial""")]),
("msg-special-loop", [(J+"query_messages.go", """	} else {
		for i := range r.Sub {
			if doesSomethingSpecial(r.Sub[i]) {
				return true
			}
		}
	}
	return false
""", """	}
	special := false
	for _, sub := range r.Sub {
		if special = doesSomethingSpecial(sub); special {
			break
		}
	}
	return special
""")]),
("msg-dotstar", [(J+"query_messages.go", """	if len(r.Sub) == 1 && r.Op == syntax.OpStar {
		if r.Sub[0].Op == syntax.OpAnyChar || r.Sub[0].Op == syntax.OpAnyCharNotNL {
			return true
		}
	}
	return false
""", """	if r.Op != syntax.OpStar || len(r.Sub) != 1 {
		return false
	}
	switch r.Sub[0].Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return true
	}
	return false
""")]),
("msg-regexp-helper", [(J+"query_messages.go", """				reg, err := syntax.Parse(rv.Value().String(), syntax.Perl)
				if err != nil {
					return fmt.Errorf("unexpected error parsing regular expression: %v", err)
				}
""", """				reg, err := parsed(rv)
				if err != nil {
					return err
				}
"""), (J+"query_messages.go", "func doesSomethingSpecial", """func parsed(rv *ast.RegexpVal) (*syntax.Regexp, error) {
	reg, err := syntax.Parse(rv.Value().String(), syntax.Perl)
	if err != nil {
		return nil, fmt.Errorf("unexpected error parsing regular expression: %v", err)
	}
	return reg, nil
}

func doesSomethingSpecial""")]),
("msg-value-helper", [(J+"query_messages.go", """			case *ast.RegexpVal:
				if n.Op""", """			case *ast.RegexpVal:
				if err := adviseRegexp(n, rv, tape); err != nil {
					return err
				}
			case *ast.TimeVal:
				if n.Op == ast.EQ && !rv.DayOnly() {
					tape.WarningAt(rv.Pos(), `exact matches on full datetime values match the time EXACTLY, consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)
				}
			}
		}
	}
	return nil
}

func adviseRegexp(n *ast.ExprNode, rv *ast.RegexpVal, tape *parser.MessageTape) error {
	v := rv
	{
		{
			{
				if n.Op"""), (J+"query_messages.go", """					}
				}
			case *ast.TimeVal:
				if n.Op == ast.EQ && !rv.DayOnly() {
					tape.WarningAt(rv.Pos(), `exact matches on full datetime values match the time EXACTLY, consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)
				}
			}
		}
	}
	return nil
}

func doesSomethingSpecial""", """					}
				}
			}
		}
	}
	return nil
}

func doesSomethingSpecial""")]),
("print-field-first", [("parser/ast/ast.go", """	for i, p := range pathparts {
		if strings""", """	for i, p := range pathparts {
		if i > 0 {
			sb.WriteString(`.`)
		}
		if strings"""), ("parser/ast/ast.go", """			sb.WriteString(p)
		}
		if i < len(pathparts)-1 {
			sb.WriteString(`.`)
		}
""", """			sb.WriteString(p)
		}
""")]),
("print-field-join", [("parser/ast/ast.go", """	var sb strings.Builder
	for i, p := range pathparts {
		if strings.ContainsAny(p, ` ."`) {
			sb.WriteString(strconv.Quote(p))
		} else {
			sb.WriteString(p)
		}
		if i < len(pathparts)-1 {
			sb.WriteString(`.`)
		}
	}
	return sb.String()
""", """	parts := make([]string, 0, len(pathparts))
	for _, p := range pathparts {
		if strings.ContainsAny(p, ` ."`) {
			p = strconv.Quote(p)
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, ".")
""")]),
("print-vals-helper", [("parser/ast/ast.go", """		sb.WriteString(` `)
		sb.WriteString(`[`)
		for i, rv := range e.RVals {
			sb.WriteString(rv.String())
			if i < len(e.RVals)-1 {
				sb.WriteString(`, `)
			}
		}
		sb.WriteString(`]`)
""", """		sb.WriteString(` [`)
		writeVals(&sb, e.RVals, `, `)
		sb.WriteString(`]`)
"""), ("parser/ast/ast.go", """		sb.WriteString(`(`)
		for i, rv := range e.RVals {
			sb.WriteString(rv.String())
			if i < len(e.RVals)-1 {
				sb.WriteString(`,`)
			}
		}
		sb.WriteString(`)`)
""", """		sb.WriteString(`(`)
		writeVals(&sb, e.RVals, `,`)
		sb.WriteString(`)`)
"""), ("parser/ast/ast.go", "func (e *ExprNode) Pos() Pos {", """func writeVals(sb *strings.Builder, vals []Val, sep string) {
	for i, rv := range vals {
		sb.WriteString(rv.String())
		if i < len(vals)-1 {
			sb.WriteString(sep)
		}
	}
}

func (e *ExprNode) Pos() Pos {""")]),
("print-concat", [("parser/ast/ast.go", 'return fmt.Sprintf("(&& %s %s)", a.Left.String(), a.Right.String())', 'return "(&& " + a.Left.String() + " " + a.Right.String() + ")"'), ("parser/ast/ast.go", 'sb.WriteString(fmt.Sprintf("(%s %s", e.Op, FieldString(e.Field)))', 'sb.WriteString("(" + string(e.Op) + " " + FieldString(e.Field))'), ("parser/ast/ast.go", "sb.WriteString(fmt.Sprintf(`%s:`, FieldString(e.Field)))", "fmt.Fprintf(&sb, `%s:`, FieldString(e.Field))")]),
("print-stringer", [("parser/ast/ast.go", 'return fmt.Sprintf("(|| %s %s)", o.Left.String(), o.Right.String())', 'return fmt.Sprintf("(|| %s %s)", o.Left, o.Right)'), ("parser/ast/ast.go", 'return fmt.Sprintf("(! %s)", n.Expr.String())', 'return fmt.Sprintf("(! %v)", n.Expr)')]),
("print-friendly-vals-join", [("parser/ast/ast.go", """		sb.WriteString(`(`)
		for i, rv := range e.RVals {
			sb.WriteString(rv.String())
			if i < len(e.RVals)-1 {
				sb.WriteString(`,`)
			}
		}
		sb.WriteString(`)`)
""", """		var vals []string
		for _, rv := range e.RVals {
			vals = append(vals, rv.String())
		}
		sb.WriteString(`(` + strings.Join(vals, `,`) + `)`)
""")]),
("print-message-pos", [("parser/message.go", """	if p.Position.Line == 0 || p.Position.Col == 0 || p.Position.Offset == -1 {
		return fmt.Sprintf("%s: %s", typeStr(p.Type), p.Msg)
	}
	return fmt.Sprintf("%s [%d:%d(%d)]: %s", typeStr(p.Type), p.Position.Line, p.Position.Col, p.Position.Offset, p.Msg)
""", """	where := ""
	if pos := p.Position; pos.Line != 0 && pos.Col != 0 && pos.Offset != -1 {
		where = fmt.Sprintf(" [%d:%d(%d)]", pos.Line, pos.Col, pos.Offset)
	}
	return typeStr(p.Type) + where + ": " + p.Msg
""")]),
("print-names", [(J+"build_matcher.go", """			node.nodeStats = &nodeStats{
				nodeName: "AND",
			}""", """			node.nodeStats = newNodeStats("AND")"""), (J+"build_matcher.go", """			node.nodeStats = &nodeStats{
				nodeName: "NOT",
			}""", """			ns := new(nodeStats)
			ns.nodeName = "NOT"
			node.nodeStats = ns"""), (J+"build_matcher.go", "func (b *builder) build(", """func newNodeStats(name string) *nodeStats {
	return &nodeStats{nodeName: name}
}

func (b *builder) build(""")]),
("count-sync-type", [(J+"node_stats.go", '"go.uber.org/atomic"', '"sync/atomic"'), (J+"node_stats.go", "ns.timesChecked.Inc()", "ns.timesChecked.Add(1)"), (J+"node_stats.go", "ns.timesMatched.Inc()", "ns.timesMatched.Add(1)")]),
("count-sync-funcs", [(J+"node_stats.go", '"go.uber.org/atomic"', '"sync/atomic"'), (J+"node_stats.go", "timesChecked atomic.Int64 `", "timesChecked int64 `"), (J+"node_stats.go", "timesMatched atomic.Int64 `", "timesMatched int64 `"), (J+"node_stats.go", "ns.timesChecked.Inc()", "atomic.AddInt64(&ns.timesChecked, 1)"), (J+"node_stats.go", "ns.timesMatched.Inc()", "atomic.AddInt64(&ns.timesMatched, 1)"), (J+"node_stats.go", "ns.timesChecked.Load()", "atomic.LoadInt64(&ns.timesChecked)"), (J+"node_stats.go", "ns.timesMatched.Load()", "atomic.LoadInt64(&ns.timesMatched)")]),
("count-cas-loop", [(J+"node_stats.go", "ns.timesChecked.Inc()", """for {
		n := ns.timesChecked.Load()
		if ns.timesChecked.CAS(n, n+1) {
			break
		}
	}""")]),
]


def main():
    args = sys.argv[1:]
    vcgen, specs = "/verif/bin/vcgen", "/verif/specs"
    while args and args[0].startswith("-"):
        if args[0] == "-vcgen":
            vcgen = args[1]
        else:
            specs = args[1]
        args = args[2:]
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
    scr = "/tmp/refactor-scratch"
    for name, edits in EDITS:
        if args and name not in args:
            continue
        shutil.rmtree(scr, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", scr])
        bad = False
        for f, old, new in edits:
            p = os.path.join(scr, f)
            t = open(p).read()
            if old not in t:
                print(name, "edit does not apply", f, repr(old[:50]))
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        pk = sorted({"./" + os.path.dirname(f) for f, _, _ in edits})
        t = subprocess.run(["go", "test", "-vet=off", "-count=1"] + pk + ["./parser", "./jsonmatcher"], cwd=scr, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if t.returncode:
            print(name, "TESTS FAIL", t.stdout[-600:])
            continue
        r = subprocess.run([vcgen, "-repo", scr, "-specs", specs], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l[:230] for l in r.stdout.splitlines() if re.search(r" [1-9]\d* failed|^    |error|problem", l)]
        print(name, lines[-1] if lines else r.stdout[-300:])
        for l in lines[:-1]:
            print("   ", l)
        sys.stdout.flush()
    shutil.rmtree(scr, ignore_errors=True)


main()
