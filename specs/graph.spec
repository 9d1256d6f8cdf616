// The picture of a query (C23): which vertices, edges and labels it is given.
package "github.com/flowchartsman/aql/aqlgraph"

// The graph being drawn: vertices are numbered in the order of their creation.
sort gedge
fun ge(a int, b int) gedge
fun gfrom(e gedge) int
fun gto(e gedge) int
axiom edge_from : forall a int, b int :: {ge(a, b)} gfrom(ge(a, b)) == a && gto(ge(a, b)) == b

ghostvar gvertices int
ghostvar gedges arr gedge bool
ghostvar gedgecount int
ghostvar glabels arr int string
ghostvar gnames arr string bool
ghostvar gtitle string
touches gvertices "github.com/goccy/go-graphviz/cgraph", "github.com/goccy/go-graphviz"
touches gedges "github.com/goccy/go-graphviz/cgraph", "github.com/goccy/go-graphviz"
touches glabels "github.com/goccy/go-graphviz/cgraph", "github.com/goccy/go-graphviz"

// number of a vertex
fun gidx(n *cgraph.Node) int

// ---- the library (assumed) ---------------------------------------------------

extern "(*github.com/goccy/go-graphviz.Graphviz).Graph"(v, opts)(g, err) {
	modifies gvertices, gedges, gedgecount, glabels, gnames, gtitle
	ensures err == nil ==> g != nil && gvertices == 0 && gedgecount == 0 && (forall s string :: {gnames[s]} !gnames[s]) && (forall a int, b int :: {gedges[ge(a, b)]} !gedges[ge(a, b)])
}
extern "github.com/goccy/go-graphviz.New"()(v) { ensures v != nil }
extern "github.com/goccy/go-graphviz.Name"(s)(o) { }

// a name not used before makes a new vertex
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).CreateNode"(g, name)(n, err) {
	modifies gvertices, gnames
	ensures err != nil ==> gvertices == old(gvertices) && gnames == old(gnames)
	ensures err == nil ==> n != nil
	ensures err == nil && !old(gnames)[name] ==> gidx(n) == old(gvertices) && gvertices == old(gvertices) + 1 && gnames == upd(old(gnames), name, true)
}
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).CreateEdge"(g, name, start, end)(e, err) {
	modifies gedges, gedgecount, gnames
	ensures err != nil ==> gedges == old(gedges) && gedgecount == old(gedgecount) && gnames == old(gnames)
	ensures err == nil ==> e != nil
	ensures err == nil && !old(gnames)[name] ==> gedges == upd(old(gedges), ge(gidx(start), gidx(end)), true) && gedgecount == old(gedgecount) + 1 && gnames == upd(old(gnames), name, true)
}
fun htmltext(s string) string
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).StrdupHTML"(g, s)(r) { ensures r == htmltext(s) }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SetLabel"(g, s)(r) { modifies gtitle ensures r == g && gtitle == s }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SafeSet"(g, name, v, d)(r) { modifies gtitle ensures gtitle == (name == "label" ? v : old(gtitle)) }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SetLabelLocation"(g, s)(r) { ensures r == g }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SetLabelJust"(g, s)(r) { ensures r == g }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SetNodeSeparator"(g, s)(r) { ensures r == g }
extern "(*github.com/goccy/go-graphviz/cgraph.Graph).SetStyle"(g, s)(r) { ensures r == g }
extern "(*github.com/goccy/go-graphviz/cgraph.Node).SetLabel"(n, s)(r) { modifies glabels ensures r == n && glabels == upd(old(glabels), gidx(n), s) }
extern "(*github.com/goccy/go-graphviz/cgraph.Node).SafeSet"(n, name, v, d)(r) { modifies glabels ensures glabels == (name == "label" ? upd(old(glabels), gidx(n), v) : old(glabels)) }
extern "(*github.com/goccy/go-graphviz/cgraph.Node).SetStyle"(n, s)(r) { ensures r == n }
extern "(*github.com/goccy/go-graphviz/cgraph.Node).SetShape"(n, s)(r) { ensures r == n }
extern "(*github.com/goccy/go-graphviz/cgraph.Node).SetFillColor"(n, s)(r) { ensures r == n }
extern "(*github.com/goccy/go-graphviz/cgraph.Edge).SetPenWidth"(e, s)(r) { ensures r == e }

// what the template makes of a comparison
fun tmpl(t *template.Template, f string, props seq NodeProp, gvs seq NodeVal) string
extern "(*text/template.Template).Execute"(t, w, data)(err) {
	modifies *as(w,*bytes.Buffer)
	ensures is(w,*bytes.Buffer) && is(data,htmlNode) && err == nil ==>
		*as(w,*bytes.Buffer) == old(*as(w,*bytes.Buffer)) ++ tmpl(t, as(data,htmlNode).Field, seq(as(data,htmlNode).Props), seq(as(data,htmlNode).Values))
}

axiom itoa_injective : forall a int, b int :: {strconv.Itoa(a), strconv.Itoa(b)} strconv.Itoa(a) == strconv.Itoa(b) ==> a == b
axiom itoa_digit : forall a int :: {strconv.Itoa(a)} a >= 0 ==> len(strconv.Itoa(a)) > 0 && '0' <= strconv.Itoa(a)[0] && strconv.Itoa(a)[0] <= '9'

// ---- what a tree is drawn as -------------------------------------------------

rec nsize(n ast.Node) int depth 2 =
	is(n,*ast.AndNode) ? 1 + nsize(as(n,*ast.AndNode).Left) + nsize(as(n,*ast.AndNode).Right)
	: is(n,*ast.OrNode) ? 1 + nsize(as(n,*ast.OrNode).Left) + nsize(as(n,*ast.OrNode).Right)
	: is(n,*ast.NotNode) ? 1 + nsize(as(n,*ast.NotNode).Expr)
	: 1

// is there an edge from vertex a to vertex b, the root of n being vertex k
rec treeedge(n ast.Node, k int, a int, b int) bool depth 2 =
	is(n,*ast.AndNode) ? treeedge2(as(n,*ast.AndNode).Left, as(n,*ast.AndNode).Right, k, a, b)
	: is(n,*ast.OrNode) ? treeedge2(as(n,*ast.OrNode).Left, as(n,*ast.OrNode).Right, k, a, b)
	: is(n,*ast.NotNode) ? (a == k ? b == k + 1 : treeedge(as(n,*ast.NotNode).Expr, k + 1, a, b))
	: false
rec treeedge2(l ast.Node, r ast.Node, k int, a int, b int) bool depth 2 =
	a == k ? b == k + 1 || b == k + 1 + nsize(l)
	: a < k + 1 + nsize(l) ? treeedge(l, k + 1, a, b) : treeedge(r, k + 1 + nsize(l), a, b)

// the label of vertex j, the root of n being vertex k
rec labelat(n ast.Node, k int, j int) string depth 2 =
	is(n,*ast.AndNode) ? (j == k ? "AND" : labelat2(as(n,*ast.AndNode).Left, as(n,*ast.AndNode).Right, k, j))
	: is(n,*ast.OrNode) ? (j == k ? "OR" : labelat2(as(n,*ast.OrNode).Left, as(n,*ast.OrNode).Right, k, j))
	: is(n,*ast.NotNode) ? (j == k ? "NOT" : labelat(as(n,*ast.NotNode).Expr, k + 1, j))
	: htmltext(tmpl(labelTmpl, strings.Join(as(n,*ast.ExprNode).Field, "."), unit(mk(NodeProp, "op", as(n,*ast.ExprNode).Op)), gvals(as(n,*ast.ExprNode).RVals, len(as(n,*ast.ExprNode).RVals))))
rec labelat2(l ast.Node, r ast.Node, k int, j int) string depth 2 =
	j < k + 1 + nsize(l) ? labelat(l, k + 1, j) : labelat(r, k + 1 + nsize(l), j)

def valkind(v ast.Val) string =
	is(v,*ast.FloatVal) ? "float" : is(v,*ast.IntVal) ? "integer" : is(v,*ast.StringVal) ? "string" : is(v,*ast.NetVal) ? "network"
	: is(v,*ast.BoolVal) ? "boolean" : is(v,*ast.RegexpVal) ? "regexp" : "datetime"
def valcolor(v ast.Val) string =
	is(v,*ast.FloatVal) ? colorFloat : is(v,*ast.IntVal) ? colorInt : is(v,*ast.StringVal) ? colorString : is(v,*ast.NetVal) ? colorNet
	: is(v,*ast.BoolVal) ? colorBool : is(v,*ast.RegexpVal) ? colorRegex : colorTime
rec gvals(vs seq ast.Val, n int) seq NodeVal =
	n <= 0 ? empty(NodeVal) : gvals(vs, n - 1) ++ unit(mk(NodeVal, valstr(vs[n-1]), valkind(vs[n-1]), valcolor(vs[n-1])))

// names not used yet, and no edge out of vertices to come
def unused(g *namegraph) bool =
	g != nil && g.n.id >= 0 && (forall i int :: {strconv.Itoa(i)} i >= g.n.id ==> !gnames[strconv.Itoa(i)])
	&& gvertices >= 0 && (forall a int, b int :: {gedges[ge(a, b)]} a >= gvertices ==> !gedges[ge(a, b)])

func visitNodes(graph, n)(r) {
	tags C23
	maypanic
	requires wfnode(n) && unused(graph)
	modifies graph.n, gvertices, gedges, gedgecount, glabels, gnames
	ensures r != nil && gidx(r) == old(gvertices) && unused(graph)
	ensures [C23 "one vertex per node"] gvertices == old(gvertices) + nsize(n) && gvertices > old(gvertices)
	ensures [C23 "one edge per operand"] gedgecount == old(gedgecount) + nsize(n) - 1
	ensures [C23 "edges to the operands"] forall a int, b int :: {gedges[ge(a, b)]} old(gvertices) <= a ==> gedges[ge(a, b)] == (a < gvertices && treeedge(n, old(gvertices), a, b))
	ensures [C23 "other edges as before"] forall a int, b int :: {gedges[ge(a, b)]} a < old(gvertices) ==> gedges[ge(a, b)] == old(gedges)[ge(a, b)]
	ensures [C23 "labels"] forall j int :: {glabels[j]} old(gvertices) <= j && j < gvertices ==> glabels[j] == labelat(n, old(gvertices), j)
	ensures [C23 "other labels as before"] forall j int :: {glabels[j]} j < old(gvertices) ==> glabels[j] == old(glabels)[j]
	inv (h htmlNode, i int) 0 <= i && i <= len(as(n,*ast.ExprNode).RVals) && seq(h.Values) == gvals(as(n,*ast.ExprNode).RVals, i)
	inv (h htmlNode) h.Field == entry(h.Field) && h.Props == entry(h.Props)
	inv (vs []NodeVal, i int) 0 <= i && i <= len(as(n,*ast.ExprNode).RVals) && seq(vs) == gvals(as(n,*ast.ExprNode).RVals, i)
}

func QueryGraph(q)(g, err) {
	tags C23
	maypanic
	requires tapesok()
	modifies trace, heap(parser.MessageTape,firstErr), heap(parser.MessageTape,messages), parsed, parseErr, maps(grammar.storeDict)
	modifies gvertices, gedges, gedgecount, glabels, gnames, gtitle
	ensures [C23 "one vertex per node and the start"] err == nil ==> gvertices == 1 + nsize(parsed)
	ensures [C23 "edges"] err == nil ==> gedgecount == nsize(parsed) && (forall a int, b int :: {gedges[ge(a, b)]} gedges[ge(a, b)] == (a == 0 ? b == 1 : 1 <= a && a < gvertices && treeedge(parsed, 1, a, b)))
	ensures [C23 "labels"] err == nil ==> (forall j int :: {glabels[j]} 1 <= j && j < gvertices ==> glabels[j] == labelat(parsed, 1, j))
	ensures [C23 "title"] err == nil ==> gtitle == strings.ReplaceAll(q, "\\", "\\\\")
}
