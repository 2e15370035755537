package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Format coverage: for every constant of the API's format type the factory returns a serializer of its own and for any other value an error; each serializer is compared with the format: DOT by an inductive contract (every node of the tree becomes one node with a fresh id and a properly quoted label, one edge from its parent, and all of its children are serialized below it; errors of the graph library propagate), JSON and spew by the encoder they hand the whole tree to and, for JSON, the struct tags of the tree types (back references excluded, nothing else). Explain and Expand use the requested format, report failures, and name the format in the answer.", func(c *Check) {
		c.serializers()
		c.texts()
		c.graphService()
		c.min("an unknown format is refused", 2)
		c.min("the answer names the format it is in", 2)
	})
	register("C23", "Dump: the edges of the policy are listed from exactly its own keys; on every path of the walk each listed edge links the (unique) tree of its object node to that of its subject node, and each of them is in the set reached from the returned roots or becomes a root; the serialization is decided by an inductive contract (node, edge from the parent before the visited test, all children) with a visited set that bounds the recursion; ids and labels are quoted, errors propagate.", checkC23)
}

const (
	gvAddNode = "(*github.com/awalterschulze/gographviz.Graph).AddNode"
	gvAddEdge = "(*github.com/awalterschulze/gographviz.Graph).AddEdge"
	gvNew     = "github.com/awalterschulze/gographviz.NewGraph"
	gvString  = "(*github.com/awalterschulze/gographviz.Graph).String"
	gvSetDir  = "(*github.com/awalterschulze/gographviz.Graph).SetDir"
	pretty    = "(*domain.RelationNode).PrettyString"
	srString  = "(relation_graph.SearchResult).String"
)

// ---- quoted strings ----

// quoted: t is a quoted string of the DOT language; what is inside of the quotes.
func quoted(t *Term) ([]*Term, bool) {
	t = strip(t)
	if t.Op == OCall && (t.S == "strconv.Quote" && len(t.A) == 1) {
		return []*Term{t.A[0]}, true
	}
	parts := []*Term{t}
	if t.Op == OBin && t.S == "cat" {
		parts = append([]*Term{}, t.A...)
	}
	n := len(parts)
	first, ok1 := parts[0].strVal()
	last, ok2 := parts[n-1].strVal()
	if !ok1 || !ok2 || !strings.HasPrefix(first, `"`) || !strings.HasSuffix(last, `"`) || n == 1 && len(first) < 2 {
		return nil, false
	}
	parts[0] = cStr(first[1:])
	last, _ = parts[n-1].strVal()
	parts[n-1] = cStr(last[:len(last)-1])
	var out []*Term
	for _, p := range parts {
		x, ok := escaped(p)
		if !ok {
			return nil, false
		}
		if s, isS := x.strVal(); !isS || s != "" {
			out = append(out, x)
		}
	}
	return out, true
}

// escaped: t holds no quote or backslash that is not escaped.
func escaped(t *Term) (*Term, bool) {
	t = strip(t)
	if s, ok := t.strVal(); ok {
		u, err := strconv.Unquote(`"` + strings.NewReplacer("\n", `\n`, "\t", `\t`, "\r", `\r`).Replace(s) + `"`)
		return cStr(u), err == nil
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return t, true
		}
	}
	if t.Op != OCall {
		return t, false
	}
	switch t.S {
	case nodeID, "(*encoding/base64.Encoding).EncodeToString", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return t, true
	case "strings.ReplaceAll":
		q, ok := t.A[0], false
		if from, to := str(t.A[1]), str(t.A[2]); from == `"` && to == `\"` {
			q = strip(q)
			if s, isS := q.strVal(); isS {
				return cStr(s), true
			}
			if q.Op == OCall && q.S == "strings.ReplaceAll" && str(q.A[1]) == `\` && str(q.A[2]) == `\\` {
				q, ok = strip(q.A[0]), true
			}
		}
		return q, ok
	case "(*strings.Replacer).Replace":
		r := strip(t.A[0])
		if r.Op == OCall && r.S == "strings.NewReplacer" && len(r.A) == 1 {
			m := map[string]string{}
			l := strip(r.A[0])
			for i := 0; i+1 < len(l.A); i += 2 {
				m[str(l.A[i])] = str(l.A[i+1])
			}
			return strip(t.A[1]), m[`\`] == `\\` && m[`"`] == `\"`
		}
	case "fmt.Sprint", "fmt.Sprintf":
		// of numbers only
		for _, a := range t.A {
			l := strip(a)
			ok := l.Op == OLit
			for _, x := range l.A {
				x = strip(x)
				b, isB := x.T, false
				if b != nil {
					u, k := b.Underlying().(*types.Basic)
					isB = k && u.Info()&types.IsInteger != 0
				}
				ok = ok && isB
			}
			if s, isS := l.strVal(); isS && !strings.ContainsAny(s, "\"\\") {
				ok = true
			}
			if !ok {
				return t, false
			}
		}
		return t, true
	}
	return t, false
}

func str(t *Term) string {
	s, _ := strip(t).strVal()
	return s
}

func anyHas(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if t == x || t.contains(x) {
			return true
		}
	}
	return false
}

// attrOf is the value that an attribute map holds under a key.
func attrOf(m *Term, key string) *Term {
	m = strip(m)
	for m.Op == OBin && m.S == "mapupd" {
		if str(m.A[1]) == key {
			return m.A[2]
		}
		m = strip(m.A[0])
	}
	return nil
}

// recHead is the function that the recursion below f over trees of a type goes through.
func (c *Check) recHead(f *ssa.Function, ty string) *ssa.Function {
	for _, comp := range c.P.sccs(f) {
		for _, g := range comp {
			if paramOf(g, ty) >= 0 && cuts(comp, g) {
				return g
			}
		}
	}
	return nil
}

func (c *Check) dotCfg(cut ...string) Config {
	cfg := stdConfig(nodeID, pretty, srString)
	cfg.Cut = map[string]bool{}
	for _, x := range cut {
		cfg.Cut[x] = true
	}
	return cfg
}

// ---- formats ----

// serializers: each format has one, and it serializes the whole tree.
func (c *Check) serializers() {
	f := c.fn(serFactory)
	if f == nil {
		return
	}
	args := symArgs(f)
	consts := c.constsOf("api.ExplainFormat")
	c.reqp("C25", len(consts) >= 3, "anchor", "api.ExplainFormat", "-", "%d formats found", len(consts))
	made := map[string]string{}
	for _, o := range c.run(f, stdConfig("-"+serFactory), args, nil) {
		if o.Kind != "return" {
			c.reqp("C25", false, "every format has a serializer", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		for n, v := range consts {
			eq := mkEq(args[0], cInt(v))
			if is(o.St, eq, false) {
				continue
			}
			if !is(o.St, eq, true) {
				c.reqp("C25", !o.ok(), "a format that is not defined is refused", fname(f), c.fpos(f), "%s", o.brief())
				continue
			}
			r := o.Rets[0]
			if c.reqp("C25", o.ok() && r.Op == OIface, "every format has a serializer", fname(f), c.fpos(f), "%s: %s", n, o.brief()) && r.Op == OIface {
				made[n] = r.S
			}
		}
		known := false
		for _, v := range consts {
			known = known || is(o.St, mkEq(args[0], cInt(v)), true)
		}
		if !known {
			c.reqp("C25", !o.ok(), "a format that is not defined is refused", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	for n := range consts {
		c.reqp("C25", made[n] != "", "every format has a serializer", fname(f), c.fpos(f), "%s has none", n)
	}
	c.minp("C25", "every format has a serializer", 3)
	c.minp("C25", "a format that is not defined is refused", 1)
	for n, t := range made {
		g := c.method(c.P.typeByName[t], "Serialize")
		if g == nil {
			continue
		}
		switch {
		case strings.HasSuffix(n, "_DOT"):
			c.dotTree(g)
		case strings.HasSuffix(n, "_JSON"):
			c.encoded(g, "JSON", "encoding/json.MarshalIndent", "encoding/json.Marshal")
			c.jsonTags()
		case strings.HasSuffix(n, "_SPEW"):
			c.encoded(g, "SPEW", "github.com/davecgh/go-spew/spew.Sdump")
		default:
			c.reqp("C25", false, "anchor", n, c.fpos(g), "the format %s is not known to this check", n)
		}
	}
}

// constsOf lists the declared constants of a named integer type.
func (c *Check) constsOf(ty string) map[string]int64 {
	out := map[string]int64{}
	t := c.P.typeByName[ty]
	if t == nil {
		c.req(false, "anchor", ty, "-", "type not found")
		return out
	}
	n, ok := t.(*types.Named)
	if !ok {
		return out
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), t) {
			if v, ok := constant.Int64Val(k.Val()); ok {
				out[name] = v
			}
		}
	}
	return out
}

// encoded: the serializer is one of the given encoders applied to the whole tree.
func (c *Check) encoded(f *ssa.Function, format string, enc ...string) {
	rule := "the " + format + " serializer encodes the whole tree"
	args := symArgs(f)
	for _, o := range c.run(f, c.dotCfg(), args, nil) {
		if o.Kind != "return" {
			c.reqp("C25", false, rule, fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		r := strip(o.Rets[0])
		if r.Op == ORes {
			r = r.A[0]
		}
		call := strip(r)
		ok := false
		for _, e := range enc {
			if call.Op == OCall && call.S == e && len(call.A) > 0 {
				x := strip(call.A[0])
				ok = x == args[1] || x.Op == OLit && len(x.A) == 1 && strip(x.A[0]) == args[1]
			}
		}
		var fails *Term
		if call.Op == OCall {
			fails = resN(call, 1, types.Universe.Lookup("error").Type())
		}
		if !ok && format == "JSON" {
			if e := streamed(o, r, args[1]); e != nil {
				ok, fails = true, e
			}
		}
		if !o.ok() {
			failed := factHas(o.St, func(t *Term, v bool) bool {
				return !v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && isErrTerm(t.A[0])
			})
			c.reqp("C25", failed, "serializing fails only if the encoder does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		c.reqp("C25", ok, rule, fname(f), c.fpos(f), "%s", o.brief())
		if format == "JSON" {
			c.reqp("C25", factHas(o.St, func(t *Term, v bool) bool {
				return v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && fails != nil && strip(t.A[0]) == strip(fails)
			}), "a failure of the encoder is reported", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.minp("C25", rule, 1)
}

// streamed: the result is what a JSON encoder wrote of the tree into a buffer
// nothing else is written to; returns the encoder's error.
func streamed(o *Outcome, r, tree *Term) *Term {
	for r.Op == OCall && (r.S == "strings.TrimSuffix" || r.S == "strings.TrimSpace" || r.S == "strings.TrimRight" || r.S == "bytes.TrimSpace" || r.S == "bytes.TrimRight" || r.S == "bytes.TrimSuffix") {
		r = strip(r.A[0])
	}
	var buf, enc, fails *Term
	read := false
	for _, e := range o.Evs {
		if e.Kind != "call" || len(e.Raw) == 0 {
			continue
		}
		base, _ := splitAddr(strip(e.Raw[0]))
		switch {
		case e.Name == "encoding/json.NewEncoder" && buf == nil:
			buf, enc = base, e.Res
		case enc != nil && strip(e.Raw[0]) == strip(enc):
			switch e.Name {
			case "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
			case "(*encoding/json.Encoder).Encode":
				if fails != nil || len(e.Raw) != 2 || strip(e.Raw[1]) != tree {
					return nil
				}
				fails = e.Res
			default:
				return nil
			}
		case buf != nil && base == buf:
			return nil // something else is written
		}
	}
	if r.Op == OCall && len(r.A) == 1 && (strings.HasSuffix(r.S, ").String") || strings.HasSuffix(r.S, ").Bytes")) && enc != nil {
		read = r.A[0].has(func(t *Term) bool { return t == strip(enc) })
	}
	if !read {
		return nil
	}
	return fails
}

// jsonTags: the encoding of tree nodes follows every link but the one to the parent.
func (c *Check) jsonTags() {
	const rule = "tree nodes are encoded without their parent and with everything else"
	for _, n := range []string{tOR, tAND, tDIFF, tPATH} {
		t := c.ty(n)
		if t == nil {
			c.req(false, "anchor", n, "-", "type not found")
			continue
		}
		back := map[string]bool{}
		if f := c.method(t, "SetParent"); f != nil {
			for _, o := range c.run(f, Config{}, symArgs(f), nil) {
				for _, ev := range o.Evs {
					if ev.Kind == "store" {
						back[strings.TrimPrefix(ev.Name, ".")] = true
					}
				}
			}
		}
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		custom := c.methodOpt(t, "MarshalJSON") != nil
		c.reqp("C25", !custom, rule, n, c.P.Pos(derefType(t).(*types.Named).Obj().Pos()), "%s has an encoding of its own", n)
		names := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			pos := c.P.Pos(fd.Pos())
			name, opts, _ := strings.Cut(tag, ",")
			if back[fd.Name()] {
				c.reqp("C25", tag == "-" || !fd.Exported(), rule, n+"."+fd.Name(), pos, "the parent is encoded: the encoding does not end")
				continue
			}
			if name == "" {
				name = fd.Name()
			}
			_ = opts
			c.reqp("C25", tag != "-" && fd.Exported() && !names[strings.ToLower(name)], rule, n+"."+fd.Name(), pos, "the field is not encoded")
			names[strings.ToLower(name)] = true
		}
	}
	c.minp("C25", rule, 12)
}

// ---- DOT ----

const svDot = "C25 C08"

func (c *Check) dotTree(f *ssa.Function) {
	head := c.recHead(f, rg+"GoalTree")
	if !c.reqp(svDot, head != nil, "anchor", fname(f), c.fpos(f), "no function recurses over goal trees") || head == nil {
		return
	}
	hn := fname(head)
	ti, pi := paramOf(head, rg+"GoalTree"), paramOf(head, "string")
	if !c.reqp("C25", pi >= 0, "anchor", hn, c.fpos(head), "the parent's id is not passed down") {
		return
	}
	// entry
	args := symArgs(f)
	root := 0
	for _, o := range c.run(f, c.dotCfg(hn), args, nil) {
		if o.Kind != "return" {
			c.reqp("C25", false, "the whole tree is serialized", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		if !o.ok() {
			c.reqp("C25", dotFailed(o), "serializing fails only if a step does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		root++
		recs := allEvents(o, func(ev *Event) bool { return ev.Kind == "rec" && ev.Name == hn })
		ok := len(recs) == 1 && len(recs[0].in) == 0 && noErr(o.St, recs[0].ev) && strip(recs[0].ev.Args[ti]) == args[1]
		g := c.freshGraph(o)
		ok = ok && g != nil && strip(o.Rets[0]).Op == OCall && strip(o.Rets[0]).S == gvString && strip(o.Rets[0]).A[0] == g && c.passes(recs[0].ev, head, g)
		c.reqp("C25", ok, "the whole tree is serialized", fname(f), c.fpos(f), "%s", o.brief())
		for _, e := range calls(o.Evs, gvAddNode, gvAddEdge) {
			c.reqp("C25", noErr(o.St, e) && e.Args[0] == g, "a failure to add to the graph is reported", fname(f), c.posOf(e), "%s", o.brief())
		}
	}
	c.minp("C25", "the whole tree is serialized", 1)
	_ = root
	// induction
	a := symArgs(head)
	x := a[ti]
	seen := map[string]bool{}
	for _, o := range c.run(head, c.dotCfg(hn), a, nil) {
		fn, pos := hn, c.fpos(head)
		if o.Kind != "return" {
			c.reqp("C25", false, "every node is serialized", fn, pos, "%s", o.brief())
			continue
		}
		walk(o, func(w where) {
			if w.ev.Kind == "rec" && w.ev.Name == hn {
				c.reqp(svDot, strictPart(strip(w.ev.Args[ti]), x), "serializing descends", fn, c.posOf(w.ev), "%s", w.ev.Args[ti])
			}
		})
		k := ""
		for _, n := range []string{tOR, tAND, tDIFF, tPATH} {
			if is(o.St, isT(x, n), true) {
				k = n
			}
		}
		if !o.ok() {
			c.reqp("C25", dotFailed(o) || k == "", "serializing fails only if a step does", fn, pos, "%s", o.brief())
			continue
		}
		if is(o.St, isNilT(x), true) {
			continue
		}
		if !c.reqp("C25", k != "", "every kind of node is serialized", fn, pos, "%s", o.brief()) {
			continue
		}
		seen[k] = true
		n := c.as(x, k)
		adds := allEvents(o, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == gvAddNode })
		edges := allEvents(o, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == gvAddEdge })
		one := len(adds) == 1 && len(edges) == 1 && len(adds[0].in) == 0 && len(edges[0].in) == 0
		if !c.reqp("C25", one, "a node becomes one node below its parent", fn, pos, "%d nodes, %d edges: %s", len(adds), len(edges), o.brief()) || !one {
			continue
		}
		an, ae := adds[0].ev, edges[0].ev
		c.reqp("C25", noErr(o.St, an) && noErr(o.St, ae), "a failure to add to the graph is reported", fn, c.posOf(an), "%s", o.brief())
		id := an.Args[2]
		c.reqp("C25", ae.Args[1] == a[pi] && ae.Args[2] == id && ae.Args[3] == tTrue && ae.Args[0] == an.Args[0], "a node becomes one node below its parent", fn, c.posOf(ae), "edge %s -> %s", ae.Args[1], ae.Args[2])
		ids, q := quoted(id)
		c.reqp("C25", q && c.freshId(o, a[0], ids), "every node has an id of its own", fn, c.posOf(an), "%s", id)
		lab := attrOf(an.Args[3], "label")
		if c.reqp("C25", lab != nil, "the label shows the node", fn, c.posOf(an), "%s", an.Args[3]) && lab != nil {
			in, q := quoted(lab)
			c.reqp("C25", q, "labels are quoted", fn, c.posOf(an), "%s", lab)
			ok := anyShows(in, fld(n, "Result")) && (k != tPATH || anyShows(in, mk(OCall, pretty, 0, nil, nil, nil, types.Typ[types.String], fld(n, "RelationNode"))))
			if !q {
				ok = anyShows([]*Term{lab}, fld(n, "Result"))
			}
			c.reqp("C25", ok, "the label shows the node", fn, c.posOf(an), "%s", lab)
		}
		below := func(ev *Event) bool {
			return ev.Args[pi] == id && c.passes(ev, head, an.Args[0])
		}
		switch k {
		case tPATH, tDIFF:
			want := []string{"Path"}
			if k == tDIFF {
				want = []string{"Left", "Right"}
			}
			for _, w := range want {
				n0 := 0
				for _, ev := range recCalls(o.Evs, &head0{name: hn}) {
					if strip(ev.Args[ti]) == fld(n, w) {
						n0++
						c.reqp("C25", noErr(o.St, ev) && below(ev), "every child is serialized below its node", fn, c.posOf(ev), "%s", o.brief())
					}
				}
				isNil := is(o.St, isNilT(fld(n, w)), true)
				c.reqp("C25", n0 == 1 || isNil && n0 == 0, "every child is serialized below its node", fn, pos, "%s of %s: %d times", w, k, n0)
			}
		default:
			ls := loopsOver(o.Evs, fld(n, "Paths"))
			empty := is(o.St, mkEq(mkLen(fld(n, "Paths")), cInt(0)), true)
			ok := len(ls) == 1 && ls[0].Loop.Exhausted
			if ok {
				el := elemOf(ls[0].Loop.L, fld(n, "Paths"))
				for _, cs := range ls[0].Loop.All {
					r := recCalls(cs.Evs, &head0{name: hn})
					ok = ok && len(r) == 1 && strip(r[0].Args[ti]) == el && noErr(cs.St, r[0]) && below(r[0])
				}
			}
			c.reqp("C25", ok || empty, "every child is serialized below its node", fn, pos, "%s", o.brief())
		}
	}
	for _, n := range []string{tOR, tAND, tDIFF, tPATH} {
		c.reqp("C25", seen[n], "every kind of node is serialized", hn, c.fpos(head), "%s is not", n)
	}
}

type head0 = head

// passes: the recursive call works on the same graph.
func (c *Check) passes(ev *Event, head *ssa.Function, g *Term) bool {
	for i, p := range head.Params {
		if typeStr(p.Type()) == "*github.com/awalterschulze/gographviz.Graph" || strings.HasSuffix(typeStr(p.Type()), "gographviz.Graph") {
			return ev.Args[i] == g
		}
	}
	if head.Signature.Recv() == nil {
		return false
	}
	for _, n := range structNames(derefType(head.Params[0].Type())) {
		if fld(ev.Args[0], n) == g {
			return true
		}
	}
	return g.contains(ev.Args[0])
}

// freshGraph is the new, directed graph of an outcome.
func (c *Check) freshGraph(o *Outcome) *Term {
	n := calls(o.Evs, gvNew)
	if len(n) != 1 {
		return nil
	}
	for _, d := range calls(o.Evs, gvSetDir) {
		if d.Args[0] == n[0].Res && d.Args[1] == tTrue {
			return n[0].Res
		}
	}
	return nil
}

// freshId: the id is taken from a counter that moves on with every node.
func (c *Check) freshId(o *Outcome, recv *Term, id []*Term) bool {
	for _, ev := range o.Evs {
		if ev.Kind == "rec" || ev.Kind == "loop" {
			return false
		}
		if ev.Kind != "store" || len(ev.Raw) != 2 || !rooted(ev.Raw[0], recv) {
			continue
		}
		cnt := fld(recv, strings.Split(strings.TrimPrefix(ev.Name, "."), ".")...)
		next := ev.Args[1]
		if next == mkAdd(cnt, cInt(1)) && (anyShows(id, cnt) || anyShows(id, next)) {
			return true
		}
	}
	return false
}

// anyShows: one of the parts is the value itself, written out.
func anyShows(parts []*Term, x *Term) bool {
	for _, t := range parts {
		if t == x || shows(strip(t), x) {
			return true
		}
	}
	return false
}

func shows(t, x *Term) bool {
	switch {
	case t == x:
		return true
	case t.Op == OCall:
		switch t.S {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "fmt.Sprint", "fmt.Sprintf", "strconv.Quote", "strings.Join", srString:
			if f, ok := t.A[0].strVal(); ok && t.S == "fmt.Sprintf" && (strings.Contains(f, "%.") || strings.Contains(f, "%t") || strings.Contains(f, "%T")) {
				return false
			}
			return anyShows(t.A, x)
		}
	case t.Op == OLit, t.Op == OCat, t.Op == OBin && (t.S == "cat" || t.S == "+"):
		return anyShows(t.A, x)
	}
	return false
}

// dotFailed: some step of the serialization reported an error.
func dotFailed(o *Outcome) bool {
	return factHas(o.St, func(t *Term, v bool) bool {
		return !v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && isErrTerm(t.A[0])
	})
}

// texts: results and nodes are shown as what they are.
func (c *Check) texts() {
	if f := c.P.funcs[srString]; f != nil {
		shown := map[string]string{}
		consts := c.constsOf(rg + "SearchResult")
		a := symArgs(f)
		for _, o := range c.run(f, Config{}, a, nil) {
			for n, v := range consts {
				if o.Kind == "return" && is(o.St, mkEq(a[0], cInt(v)), true) {
					s, ok := strip(o.Rets[0]).strVal()
					c.reqp("C25 C06", ok && s != "" && shown[s] == "", "different results are shown differently", fname(f), c.fpos(f), "%s is shown as %q, as is %s", n, s, shown[s])
					shown[s] = n
				}
			}
		}
		c.minp("C25 C06", "different results are shown differently", 3)
	}
	if f := c.P.funcs["(relation_graph.SearchResult).MarshalJSON"]; f != nil {
		a := symArgs(f)
		cfg := stdConfig(srString)
		for _, o := range c.run(f, cfg, a, nil) {
			if o.ok() {
				c.reqp("C25 C06", o.Rets[0].contains(mk(OCall, srString, 0, nil, nil, nil, types.Typ[types.String], a[0])) || o.Rets[0].contains(a[0]), "different results are shown differently", fname(f), c.fpos(f), "%s", o.brief())
			}
		}
	}
	f := c.fn(pretty)
	if f == nil {
		return
	}
	a := symArgs(f)
	n := fld(a[0], "Node")
	for _, o := range c.run(f, Config{}, a, nil) {
		if o.Kind != "return" {
			continue
		}
		var want []*Term
		switch {
		case is(o.St, isT(n, "*domain.RelationNode_EntitySet"), true):
			p := c.pay(n, "*domain.RelationNode_EntitySet")
			want = []*Term{fld(p, "Object", "Resource"), fld(p, "Object", "Id"), fld(p, "Relation")}
		case is(o.St, isT(n, "*domain.RelationNode_Entity"), true):
			p := c.pay(n, "*domain.RelationNode_Entity")
			want = []*Term{fld(p, "Object", "Resource"), fld(p, "Object", "Id")}
		case is(o.St, isT(n, "*domain.RelationNode_Wildcard"), true):
			want = []*Term{fld(c.pay(n, "*domain.RelationNode_Wildcard"), "Resource")}
		default:
			continue
		}
		for _, x := range want {
			c.reqp("C25 C23", o.Rets[0].contains(x) || is(o.St, mkEq(x, cStr("")), true), "the text of a node shows all of its parts", fname(f), c.fpos(f), "%s is not in %s", x, o.Rets[0])
		}
	}
	c.minp("C25 C23", "the text of a node shows all of its parts", 6)
}
