package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "Symbolic summaries of the exported containers of pkg/types: which memory of a graph holds nodes, outgoing and incoming edges is read off its getters; every path of the setters is then checked to write exactly the given node or edge there, in both directions, or to fail and write nothing; getters return exactly what is stored; the DOT form names every node and edge once, quoted.", checkC30)
}

const graphPkg = "types."

func checkC30(c *Check) {
	c.optionType()
	c.mapGraph()
	c.diGraph()
	c.graphDot()
}

// boolOf is the truth of a term over a given struct value.
func boolOf(o *Outcome, arg, val *Term) (bool, bool) {
	get := func(t *Term) (bool, bool) {
		t = strip(t)
		neg := false
		for t.Op == ONot {
			t, neg = strip(t.A[0]), !neg
		}
		if t.Op == OFld && strip(t.A[0]) == arg {
			t = strip(fld(val, t.S))
		}
		b, ok := t.boolVal()
		return b != neg, ok
	}
	for t, v := range o.St.facts { // is this path taken?
		if b, ok := get(t); ok && b != v {
			return false, false
		}
	}
	return get(o.Rets[0])
}

// options: an option holds a value exactly if it was made with one.
func (c *Check) optionType() {
	const rule = "an option holds the value it was made with, or none"
	some, none := c.fn(graphPkg+"Some"), c.fn(graphPkg+"None")
	empty, value := c.fn("(*types.Option).IsEmpty"), c.fn("(*types.Option).Value")
	if some == nil || none == nil || empty == nil || value == nil {
		return
	}
	made := func(f *ssa.Function, args []*Term) *Term {
		os := c.run(f, Config{}, args, nil)
		if len(os) != 1 || os[0].Kind != "return" {
			c.req(false, rule, fname(f), c.fpos(f), "more than one outcome")
			return nil
		}
		return strip(os[0].Rets[0])
	}
	sa := symArgs(some)
	for _, x := range []struct {
		f    *ssa.Function
		v    *Term
		none bool
	}{{some, made(some, sa), false}, {none, made(none, nil), true}} {
		if x.v == nil {
			continue
		}
		c.req(c.isOption(x.v, x.none, sa[0]), rule, fname(x.f), c.fpos(x.f), "%s", x.v)
	}
	c.min(rule, 2)
}

// isOption: v is an option that is empty, or one that holds val.
func (c *Check) isOption(v *Term, none bool, val *Term) bool {
	v = strip(v)
	empty, value := c.P.Fn("(*types.Option).IsEmpty"), c.P.Fn("(*types.Option).Value")
	if empty == nil || value == nil {
		return false
	}
	a := symArgs(empty)
	ok := false
	for _, o := range c.run(empty, Config{}, a, nil) {
		if b, known := boolOf(o, a[0], v); known {
			ok = o.Kind == "return" && b == none
			break
		}
	}
	if none || !ok {
		return ok
	}
	a = symArgs(value)
	for _, o := range c.run(value, Config{}, a, nil) {
		taken := true
		for t, w := range o.St.facts {
			n := strip(t)
			neg := false
			for n.Op == ONot {
				n, neg = strip(n.A[0]), !neg
			}
			if n.Op == OFld && strip(n.A[0]) == a[0] {
				if b, known := strip(fld(v, n.S)).boolVal(); known && (b != neg) != w {
					taken = false
				}
			}
		}
		if !taken {
			continue
		}
		if o.Kind != "return" {
			return false
		}
		r := strip(o.Rets[0])
		return r.Op == OFld && strip(r.A[0]) == a[0] && strip(fld(v, r.S)) == strip(val)
	}
	return false
}

// graphMem: which fields of a graph hold what.
type graphMem struct {
	nodes, fwd, back string
	inner            string // field of the inner value that holds the edges
}

func has(m, k *Term) *Term { return mk(OHas, "", 0, nil, nil, nil, nil, m, k) }

// nodeField reads off a getter where nodes are kept.
func (c *Check) nodeField(f *ssa.Function, wrap bool) string {
	const rule = "a node is found under its id"
	a := symArgs(f)
	field := ""
	for _, o := range c.run(f, Config{}, a, nil) {
		factHas(o.St, func(t *Term, v bool) bool {
			if t.Op == OHas && t.A[0].Op == OFld && t.A[0].A[0] == a[0] && strip(t.A[1]) == a[1] {
				field = t.A[0].S
			}
			return false
		})
		if len(o.Rets) == 1 && field == "" {
			if r := strip(o.Rets[0]); r.Op == OLookup && r.A[0].Op == OFld && r.A[0].A[0] == a[0] {
				field = r.A[0].S
			}
		}
	}
	if !c.req(field != "", rule, fname(f), c.fpos(f), "no map of the graph is looked up with the id") {
		return ""
	}
	m := fld(a[0], field)
	for _, o := range c.run(f, Config{}, a, nil) {
		ok := o.Kind == "return" && len(allIn(o.Evs, "mapset"))+len(allIn(o.Evs, "mapdel"))+len(allIn(o.Evs, "store")) == 0
		if ok {
			r := strip(o.Rets[0])
			here, known := o.St.decide(has(m, a[1]))
			isVal := func(t *Term) bool {
				return t.Op == OLookup && t.A[0] == m && strip(t.A[1]) == a[1]
			}
			switch {
			case wrap && known && here:
				ok = false
				for _, v := range lookups(r) {
					ok = ok || isVal(v) && c.isOption(r, false, v)
				}
			case wrap:
				ok = known && c.isOption(r, true, nil)
			case known && !here:
				ok = r == tNil
			default:
				ok = isVal(r)
			}
		}
		c.req(ok, rule, fname(f), c.fpos(f), "%s", o.brief())
	}
	return field
}

func lookups(t *Term) []*Term {
	var out []*Term
	t.each(func(x *Term) {
		if x.Op == OLookup {
			out = append(out, x)
		}
	})
	return out
}

// edgeField checks a getter of neighbours and reads off where their edges are kept.
func (c *Check) edgeField(f *ssa.Function, nodes string) string {
	const rule = "neighbours are exactly the nodes an edge leads to"
	a := symArgs(f)
	field := ""
	outs := c.run(f, Config{}, a, nil)
	var m *Term
	for _, o := range outs {
		for _, ev := range o.Evs {
			if ev.Kind != "loop" || ev.Loop.Domain == nil {
				continue
			}
			d := strip(ev.Loop.Domain)
			if d.Op == OLookup && d.A[0].Op == OFld && d.A[0].A[0] == a[0] && strip(d.A[1]) == a[1] {
				field, m = d.A[0].S, d.A[0]
			}
		}
	}
	if !c.req(field != "", rule, fname(f), c.fpos(f), "the edges of the node are not visited") {
		return ""
	}
	n := fld(a[0], nodes)
	for _, o := range outs {
		r := strip(o.Rets[0])
		ok := o.Kind == "return"
		here, known := o.St.decide(has(m, a[1]))
		if known && !here || r == tNil || r.Op == OLit {
			none := known && !here || is(o.St, mkEq(mkLen(mk(OLookup, "", 0, nil, nil, nil, nil, m, a[1])), cInt(0)), true)
			ok = ok && none && (r == tNil || r.Op == OLit && len(r.A) == 0)
		} else {
			ok = ok && r.Op == OColl
			var loop *LoopEv
			for _, ev := range o.Evs {
				if ok && ev.Kind == "loop" && ev.Loop.L == r.L {
					loop = ev.Loop
				}
			}
			ok = ok && loop != nil && loop.Exhausted && loop.Domain != nil
			if ok {
				d := strip(loop.Domain)
				ok = d.Op == OLookup && d.A[0] == m && strip(d.A[1]) == a[1]
				for _, cs := range loop.All {
					it := cs.Items[r.S]
					good := len(it) == 1
					if good {
						x := strip(it[0])
						good = x == tNil || x.Op == OLookup && x.A[0] == n && x.A[1].Op == OKey && x.A[1].L == loop.L
						if x == tNil {
							good = factHas(cs.St, func(t *Term, v bool) bool { return !v && t.Op == OHas && t.A[0] == n })
						}
					}
					ok = ok && good
				}
			}
		}
		c.req(ok, rule, fname(f), c.fpos(f), "%s", o.brief())
	}
	return field
}

func (c *Check) mapGraph() {
	var g graphMem
	if f := c.fn("(*types.MapGraph).GetNode"); f != nil {
		g.nodes = c.nodeField(f, true)
	}
	if f := c.fn("(*types.MapGraph).GetSucessors"); f != nil && g.nodes != "" {
		g.fwd = c.edgeField(f, g.nodes)
	}
	if f := c.fn("(*types.MapGraph).GetAncestors"); f != nil && g.nodes != "" {
		g.back = c.edgeField(f, g.nodes)
	}
	if g.nodes == "" || g.fwd == "" || g.back == "" {
		return
	}
	c.req(g.fwd != g.back, "incoming and outgoing edges are kept apart", "types.MapGraph", "-", "%s", g.fwd)
	c.made("types.New", g)
	if f := c.fn("(*types.MapGraph).SetNode"); f != nil {
		a := symArgs(f)
		c.setNode(f, a, g, a[1], a[2])
	}
	if f := c.fn("(*types.MapGraph).SetEdge"); f != nil {
		a := symArgs(f)
		c.setEdge(f, a, g, a[1], a[2], nil, true)
	}
	c.min("a node is found under its id", 2)
	c.min("neighbours are exactly the nodes an edge leads to", 2)
}

func (c *Check) diGraph() {
	f := c.fn("(*types.MapDiGraph).GetNode")
	if f == nil {
		return
	}
	g := graphMem{nodes: c.nodeField(f, false), fwd: "ForwardEdges", back: "BackEdges", inner: "Edges"}
	c.req(g.nodes == "Nodes", "a node is found under its id", fname(f), c.fpos(f), "looks in %s", g.nodes)
	c.made("types.NewMapDiGraph", g)
	if f := c.fn("(*types.MapDiGraph).AddNode"); f != nil {
		a := symArgs(f)
		c.setNode(f, a, g, fld(a[1], "Id"), a[1])
	}
	if f := c.fn("(*types.MapDiGraph).AddEdge"); f != nil {
		a := symArgs(f)
		c.setEdge(f, a, g, fld(a[1], "Source"), fld(a[1], "Dest"), a[1], false)
	}
}

// made: a new graph has maps to write to.
func (c *Check) made(name string, g graphMem) {
	const rule = "a new graph can be filled"
	f := c.fn(name)
	if f == nil {
		return
	}
	for _, o := range c.run(f, Config{}, symArgs(f), nil) {
		ok := o.Kind == "return"
		for _, n := range []string{g.nodes, g.fwd, g.back} {
			ok = ok && strip(fld(strip(o.Rets[0]), n)) == tEmptyMap
		}
		c.req(ok, rule, name, c.fpos(f), "%s", o.brief())
	}
	c.min(rule, 1)
}

func (c *Check) setNode(f *ssa.Function, a []*Term, g graphMem, id, node *Term) {
	const rule = "setting a node stores it under its id"
	for _, o := range c.run(f, Config{}, a, nil) {
		n := 0
		ok := o.Kind == "return"
		for _, ev := range o.Evs {
			switch ev.Kind {
			case "mapset":
				n++
				ok = ok && strip(ev.Args[0]) == fld(a[0], g.nodes) && strip(ev.Args[1]) == id && strip(ev.Args[2]) == node
			case "mapdel", "store":
				ok = false
			}
		}
		c.req(ok && n == 1, rule, fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min(rule, 1)
}

// setEdge: every successful path records the edge on both sides; a failing one changes nothing.
func (c *Check) setEdge(f *ssa.Function, a []*Term, g graphMem, src, dst, val *Term, checked bool) {
	const rule, fails, keeps = "an edge is recorded at both of its ends", "an edge is refused exactly if one of its ends is missing", "adding an edge keeps the others"
	nodes := fld(a[0], g.nodes)
	for _, o := range c.run(f, Config{}, a, nil) {
		if o.Kind != "return" {
			c.req(false, rule, fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		s, ks := o.St.decide(has(nodes, src))
		d, kd := o.St.decide(has(nodes, dst))
		writes := 0
		for _, ev := range o.Evs {
			if ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "store" {
				writes++
			}
		}
		if !o.ok() {
			c.req(checked && (ks && !s || kd && !d) && writes == 0, fails, fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		if checked {
			c.req(ks && s && kd && d, fails, fname(f), c.fpos(f), "%s", o.brief())
		}
		n1, ok1 := c.linked(o, fld(a[0], g.fwd), src, dst, val, g.inner)
		n2, ok2 := c.linked(o, fld(a[0], g.back), dst, src, val, g.inner)
		c.req(ok1 && ok2, rule, fname(f), c.fpos(f), "%s", o.brief())
		c.req(n1+n2 == writes, keeps, fname(f), c.fpos(f), "writes something else: %s", o.brief())
	}
	c.min(rule, 2)
	c.min(keeps, 2)
}

// linked: m[from] (or its field inner) gets the entry to; an existing one is
// kept. It returns how many writes that takes.
func (c *Check) linked(o *Outcome, m, from, to, val *Term, inner string) (int, bool) {
	n := 0
	ok := false
	here, known := o.St.decide(has(m, from))
	var fresh *Term // memory of the new entry
	for _, ev := range o.Evs {
		if ev.Kind != "mapset" {
			continue
		}
		into := strip(ev.Args[0])
		switch {
		case into == m:
			n++
			none := known && !here || factHas(o.St, func(t *Term, v bool) bool { // nothing was there
				return v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && t.A[0].Op == OLookup && t.A[0].A[0] == m && strip(t.A[0].A[1]) == from
			})
			if !none || strip(ev.Args[1]) != from || fresh != nil {
				return n, false
			}
			fresh = ev.Raw[2]
			if inner != "" {
				if base, _ := splitAddr(fresh); base != nil {
					fresh = o.St.heap[base]["."+inner]
				}
			}
			if fresh == nil {
				return n, false
			}
			if cont := o.St.heap[fresh]["#"]; cont != nil && cont.Op == OBin && cont.S == "mapupd" && strip(cont.A[1]) == to {
				ok = val == nil || strip(cont.A[2]) == val
			}
		case into.Op == OLookup && into.A[0] == m || inner != "" && into.Op == OFld && into.S == inner && into.A[0].Op == OLookup && into.A[0].A[0] == m:
			l := into
			if l.Op == OFld {
				l = l.A[0]
			}
			n++
			if strip(l.A[1]) != from || strip(ev.Args[1]) != to || val != nil && strip(ev.Args[2]) != val {
				return n, false
			}
			ok = true
		case fresh != nil && ev.Raw[0] == fresh:
			n++
			if strip(ev.Args[1]) != to || val != nil && strip(ev.Args[2]) != val {
				return n, false
			}
			ok = true
		}
	}
	return n, ok
}

// graphDot: the DOT form has each node, with its data as the label, and each edge.
func (c *Check) graphDot() {
	const rNode, rEdge = "the DOT form names every node", "the DOT form names every edge"
	f := c.fn("types.GraphToDOT")
	if f == nil {
		return
	}
	a := symArgs(f)
	isQ := func(t *Term, want func(*Term) bool) bool {
		p, ok := quoted(t)
		return ok && len(p) == 1 && want(strip(p[0]))
	}
	nodes, fwd := fld(a[0], "Nodes"), fld(a[0], "ForwardEdges")
	for _, o := range c.run(f, Config{}, a, nil) {
		if o.Kind != "return" {
			c.req(false, rNode, fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		var graph *Term
		nn, ne := 0, 0
		okN, okE := true, true
		seenN, seenE := false, false
		walk(o, func(w where) {
			ev := w.ev
			if ev.Kind == "loop" && ev.Loop.Domain != nil {
				switch strip(ev.Loop.Domain) {
				case nodes:
					seenN = true
					okN = okN && ev.Loop.Exhausted
					for _, cs := range ev.Loop.All {
						okN = okN && len(calls(cs.Evs, gvAddNode)) == 1
					}
				case fwd:
					seenE = true
					okE = okE && ev.Loop.Exhausted
					for _, cs := range ev.Loop.All {
						in := 0
						for _, e := range cs.Evs {
							if e.Kind == "loop" && e.Loop.Domain != nil && e.Loop.Exhausted && strip(e.Loop.Domain) == fld(mk(OVal, "", 0, ev.Loop.L, nil, nil, nil, fwd), "Edges") {
								in++
								for _, x := range e.Loop.All {
									okE = okE && len(calls(x.Evs, gvAddEdge)) == 1
								}
							}
						}
						okE = okE && in == 1
					}
				}
			}
			if ev.Kind != "call" {
				return
			}
			switch ev.Name {
			case gvAddNode:
				nn++
				graph = ev.Args[0]
				good := len(w.in) == 1 && strip(w.in[0].Loop.Domain) == nodes
				if good {
					L := w.in[0].Loop.L
					own := func(t *Term) bool {
						return t.Op == OKey && t.L == L || t.Op == OFld && t.S == "Id" && t.A[0].Op == OVal && t.A[0].L == L
					}
					data := func(t *Term) bool {
						return t.Op == OFld && t.S == "Data" && t.A[0].Op == OVal && t.A[0].L == L
					}
					label := ev.Args[3].has(func(t *Term) bool {
						if t.Op != OBin || t.S != "mapupd" {
							return false
						}
						s, isS := strip(t.A[1]).strVal()
						return isS && s == "label" && isQ(t.A[2], data)
					})
					good = isQ(ev.Args[2], own) && label
				}
				okN = okN && good
			case gvAddEdge:
				ne++
				graph = ev.Args[0]
				good := len(w.in) == 2 && w.in[0].Loop.Domain != nil && strip(w.in[0].Loop.Domain) == fwd
				if good {
					k := func(i int, f string) func(t *Term) bool {
						return func(t *Term) bool {
							return t.Op == OKey && t.L == w.in[i].Loop.L || t.Op == OFld && t.S == f && t.A[0].Op == OVal && t.A[0].L == w.in[1].Loop.L
						}
					}
					b, isB := strip(ev.Args[3]).boolVal()
					good = isQ(ev.Args[1], k(0, "Source")) && isQ(ev.Args[2], k(1, "Dest")) && isB && b
				}
				okE = okE && good
			}
		})
		r := strip(o.Rets[0])
		printed := graph != nil && r.Op == OCall && strings.HasSuffix(r.S, "gographviz.Graph).String") && len(r.A) == 1 && strip(r.A[0]) == strip(graph)
		c.req(okN && seenN && nn == 1 && printed, rNode, fname(f), c.fpos(f), "%s", o.brief())
		c.req(okE && seenE && ne == 1 && printed, rEdge, fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min(rNode, 1)
	c.min(rEdge, 1)
}

func (t *Term) boolVal() (bool, bool) { return t == tTrue, t == tTrue || t == tFalse }
