package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relTree = "*domain.RelationTree"

// bySig finds the one function of the repository with a parameter and results of the given types.
func (c *Check) bySig(what, param string, results ...string) *ssa.Function {
	var found []*ssa.Function
	for f := range c.P.allFns {
		if !isRepo(f) || c.P.generated(f) || f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		r := f.Signature.Results()
		ok := r.Len() == len(results) && (param == "" || paramOf(f, param) >= 0)
		for i := 0; ok && i < r.Len(); i++ {
			ok = typeStr(r.At(i).Type()) == results[i]
		}
		if ok {
			found = append(found, f)
		}
	}
	// the outermost one: helpers with the same signature are called by it
	var top []*ssa.Function
	for _, f := range found {
		called := false
		for _, g := range found {
			called = called || g != f && c.P.reachable(g)[f] && !c.P.reachable(f)[g]
		}
		if !called {
			top = append(top, f)
		}
	}
	if !c.req(len(top) == 1, "anchor", what, "-", "%d candidates", len(top)) {
		return nil
	}
	return top[0]
}

func checkC23(c *Check) {
	walkF := c.bySig("construction of relation trees", "", relTree, "error")
	serF := c.bySig("serialization of relation trees", relTree, "string", "error")
	if walkF == nil || serF == nil {
		return
	}
	fresh := c.dumpService(walkF, serF)
	c.dumpWalk(walkF)
	c.dumpDot(serF, fresh)
	c.texts()
	if m, _, _, _ := c.relForm(); m != nil {
		c.edges(m)
		c.keyRange(m)
	}
}

// dumpService: the request's policy is walked and what was found is serialized.
// It tells whether each request has a serializer of its own.
func (c *Check) dumpService(walkF, serF *ssa.Function) (fresh bool) {
	cfg := c.svcCfg()
	cfg.Opaque[fname(walkF)] = Opaque{}
	cfg.Opaque[fname(serF)] = Opaque{}
	f, args, outs := c.svcRun(relSvc, "DumpRelationships", cfg)
	if f == nil {
		return
	}
	fresh = true
	req := args[2]
	const rule = "a dump shows the policy of the request"
	for _, o := range outs {
		pos := c.fpos(f)
		if o.Kind != "return" {
			c.req(false, rule, fname(f), pos, "%s", o.brief())
			continue
		}
		if !o.ok() {
			ok := c.refusable(o, req) || factHas(o.St, func(t *Term, v bool) bool {
				return !v && t.Op == OBin && t.S == "==" && t.A[0] == fld(req, "Format")
			})
			c.req(ok, "a dump is refused only if the request is wrong or a step failed", fname(f), pos, "%s", o.brief())
			continue
		}
		rec, get := policyRead(o, fld(req, "PolicyId"))
		ws, ss := calls(o.Evs, fname(walkF)), calls(o.Evs, fname(serF))
		ok := rec != nil && noErr(o.St, get) && is(o.St, isNilT(rec), false) && len(ws) == 1 && len(ss) == 1 && noErr(o.St, ws[0]) && noErr(o.St, ss[0])
		if !c.req(ok, rule, fname(f), pos, "%s", o.brief()) || !ok {
			continue
		}
		if i := paramOf(walkF, "*domain.Policy"); i >= 0 {
			c.req(ws[0].Args[i] == fld(rec, "Policy"), rule, fname(f), c.posOf(ws[0]), "%s", ws[0].Args[i])
		} else if i := paramOf(walkF, "string"); i >= 0 {
			id := ws[0].Args[i]
			c.req(eqUnder(o.St, id, fld(req, "PolicyId")) || id == fld(rec, "Policy", "Id"), rule, fname(f), c.posOf(ws[0]), "%s", id)
		} else {
			c.req(false, "anchor", fname(walkF), c.fpos(walkF), "the policy is not passed")
		}
		i := paramOf(serF, relTree)
		if i > 0 {
			r := strip(ss[0].Args[0])
			fresh = fresh && r.Op == ONew && len(r.A) == 0
		}
		c.req(ss[0].Args[i] == resN(ws[0].Res, 0, nil), rule, fname(f), c.posOf(ss[0]), "%s is serialized", ss[0].Args[i])
		d := fld(o.Rets[0], "Dump")
		dot := is(o.St, isT(d, "*api.DumpRelationshipResponse_Dot"), true) && c.pay(d, "*api.DumpRelationshipResponse_Dot") == resN(ss[0].Res, 0, nil)
		c.req(dot && is(o.St, mkEq(fld(req, "Format"), cInt(c.enum("api.DumpRelationshipsRequest_DOT"))), true), "the dump is in the requested format", fname(f), pos, "%s", o.brief())
		repo := false
		ws[0].Args[0].each(func(x *Term) {
			repo = repo || x.T != nil && typeStr(x.T) == "relation_graph.NodeRepository" && sharedRooted(x, args[0])
		})
		for _, a := range ws[0].Args[1:] {
			repo = repo || a.T != nil && typeStr(a.T) == "relation_graph.NodeRepository" && sharedRooted(a, args[0])
		}
		c.req(repo, "the service's repository is walked", fname(f), c.posOf(ws[0]), "%s", ws[0].Args[0])
	}
	c.min(rule, 2)
	c.min("the dump is in the requested format", 1)
	return fresh
}

var slotRe = regexp.MustCompile(`^m\d+#$`)

// slotOf is the memory of a map that a view of it refers to.
func slotOf(t *Term) string {
	s := ""
	t.each(func(x *Term) {
		if slotRe.MatchString(x.S) {
			s = x.S
		}
	})
	return s
}

func rawSlot(t *Term) string { return fmt.Sprintf("m%d#", t.ID) }

func idTerm(n *Term) *Term { return mk(OCall, nodeID, 0, nil, nil, nil, nil, n) }

// dumpWalk: every edge is a link of the forest, and every tree is below its root.
func (c *Check) dumpWalk(f *ssa.Function) {
	cfg := stdConfig(nodeID)
	cfg.Cut = map[string]bool{}
	heads := map[string]*ssa.Function{}
	for _, comp := range c.P.sccs(f) {
		for _, g := range comp {
			if paramOf(g, relTree) >= 0 && cuts(comp, g) {
				cfg.Cut[fname(g)] = true
				heads[fname(g)] = g
			}
		}
	}
	marks := map[string][2]int{}
	for g := range c.P.reachable(f) { // the same with a list of trees still to be entered
		if g == f || heads[fname(g)] != nil {
			continue
		}
		if ti, mi := c.worklist(g, cfg); ti >= 0 {
			cfg.Cut[fname(g)] = true
			marks[fname(g)] = [2]int{ti, mi}
		}
	}
	for n, g := range heads {
		if ti, mi := c.marking(g, cfg); ti >= 0 {
			marks[n] = [2]int{ti, mi}
		}
	}
	args := symArgs(f)
	const rLink, rRoot = "every relationship is a link of the dump", "every node is below the root of the dump"
	for _, o := range c.run(f, cfg, args, nil) {
		pos, fn := c.fpos(f), fname(f)
		if o.Kind != "return" {
			c.req(false, rLink, fn, pos, "%s", o.brief())
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "a walk fails only if storage does", fn, pos, "%s", o.brief())
			continue
		}
		les := calls(o.Evs, "relation_graph.NodeRepository.ListEdges")
		ok := len(les) == 1 && noErr(o.St, les[0])
		if ok {
			id := les[0].Args[2]
			ok = id.Op == OFld && id.S == "Id" && argRoot(id, args[1:]) >= 0 || argRoot(id, args[1:]) >= 0 && id.Op == OIn
		}
		if !c.req(ok, "all edges of the policy are walked", fn, pos, "%s", o.brief()) {
			continue
		}
		E := resN(les[0].Res, 0, nil)
		w := dumpWalker{c: c, o: o, E: E, marks: marks}
		why := w.link()
		c.req(why == "", rLink, fn, pos, "%s", why)
		if why == "" {
			why = w.roots(o.Rets[0])
			c.req(why == "", rRoot, fn, pos, "%s", why)
		}
	}
	c.min(rLink, 1)
	c.min(rRoot, 1)
}

type dumpWalker struct {
	c     *Check
	o     *Outcome
	E     *Term
	marks map[string][2]int
	T     string // memory of the map from node ids to trees
	at    int    // position of the linking loop
}

// isTree: t is the tree of node n.
func (w *dumpWalker) isTree(cs *Case, t, n *Term) bool {
	t = strip(t)
	key := func(k *Term) bool {
		return k == idTerm(n) || is(cs.St, mkEq(k, idTerm(n)), true)
	}
	if t.Op == OLookup && key(t.A[1]) {
		return slotOf(t.A[0]) == w.T && is(cs.St, mk(OHas, "", 0, nil, nil, nil, nil, t.A[0], t.A[1]), true)
	}
	for _, ev := range cs.Evs {
		if ev.Kind == "mapset" && key(ev.Args[1]) && rawSlot(ev.Raw[0]) == w.T && fld(ev.Args[2], "Node") != nil {
			nd := fld(ev.Args[2], "Node")
			if (nd == n || is(cs.St, mkEq(idTerm(nd), idTerm(n)), true)) && (t == ev.Raw[2] || t == ev.Args[2] || t.Op == ONew && fld(t, "Node") == nd) {
				return true
			}
		}
	}
	return false
}

// linked: the iteration makes the tree of b a child of the tree of a.
func (w *dumpWalker) linked(cs *Case, a, b *Term) bool {
	child := func(v, old *Term) bool {
		v = strip(v)
		segs := []*Term{v}
		if v.Op == OCat {
			segs = v.A
		}
		found := false
		for i, s := range segs {
			s = strip(s)
			switch {
			case s.Op == OLit:
				for _, x := range s.A {
					found = found || w.isTree(cs, x, b)
				}
			case old != nil && s == old && i == 0:
			default:
				return false
			}
		}
		return found && (old == nil || segs[0] == old)
	}
	for _, ev := range cs.Evs {
		if ev.Kind == "store" && ev.Name == ".Children" && len(ev.Raw) == 2 && w.isTree(cs, ev.Raw[0], a) {
			if child(ev.Args[1], fld(ev.Raw[0], "Children")) {
				return true
			}
		}
	}
	for _, it := range cs.Items[w.T] {
		if it.Op == ONew && w.isTree(cs, it, a) && child(fld(it, "Children"), nil) {
			return true
		}
	}
	return false
}

func (w *dumpWalker) link() string {
	why := "no loop visits every edge"
	for i, ev := range w.o.Evs {
		if ev.Kind != "loop" || strip(ev.Loop.Domain) != w.E || !ev.Loop.Exhausted {
			continue
		}
		x := elemOf(ev.Loop.L, w.E)
		a, b := fld(x, "first"), fld(x, "second")
		w.T = ""
		for _, cs := range ev.Loop.All {
			for _, e := range cs.Evs {
				if e.Kind == "mapset" && strip(e.Args[2]).Op == ONew && strings.HasPrefix(strip(e.Args[2]).S, "domain.RelationTree") {
					w.T = rawSlot(e.Raw[0])
				}
			}
		}
		if w.T == "" {
			continue
		}
		bad := ""
		for _, cs := range ev.Loop.All {
			if !w.linked(cs, a, b) {
				bad = fmt.Sprintf("an iteration does not link the trees of its edge: %v", factsOf(cs))
			}
			for _, e := range cs.Evs {
				if e.Kind == "mapset" && rawSlot(e.Raw[0]) == w.T {
					k, n := e.Args[1], fld(e.Args[2], "Node")
					if k != idTerm(n) || n != a && n != b {
						bad = fmt.Sprintf("the tree of %s is kept under %s", n, k)
					}
				}
				if e.Kind == "mapdel" && rawSlot(e.Raw[0]) == w.T {
					bad = "a tree is removed"
				}
			}
		}
		if bad == "" {
			w.at = i
			return ""
		}
		why = bad
	}
	return why
}

func factsOf(cs *Case) string {
	var s []string
	for f, v := range cs.Facts {
		s = append(s, fmt.Sprint(f, "=", v))
	}
	r := strings.Join(s, " ")
	if len(r) > 300 {
		r = r[:300]
	}
	return r
}

// edgeKey: k is the id of a node of some edge, so that its tree exists.
func (w *dumpWalker) edgeKey(k *Term) bool {
	if k.Op == OCall && k.S == nodeID && len(k.A) == 1 {
		n := k.A[0]
		return n.Op == OFld && (n.S == "first" || n.S == "second") && n.A[0].Op == OElem && strip(n.A[0].A[0]) == w.E
	}
	if k.Op == OKey {
		slot := slotOf(k.A[0])
		n, ok := 0, slot != ""
		walk(w.o, func(x where) {
			if x.ev.Kind == "mapset" && rawSlot(x.ev.Raw[0]) == slot {
				n++
				ok = ok && w.edgeKey(x.ev.Args[1])
			}
		})
		return ok && n > 0
	}
	return false
}

// tree: t is the tree of a node of some edge, looked up after linking.
// impossible is set when the iteration cannot happen.
func (w *dumpWalker) tree(cs *Case) (t func(x *Term) bool, impossible bool) {
	for f, v := range cs.Facts {
		if f.Op == OHas && !v && slotOf(f.A[0]) == w.T && w.edgeKey(f.A[1]) {
			return nil, true
		}
		if f.Op == OBin && f.S == "==" && v && f.A[1] == tNil && f.A[0].Op == OLookup && slotOf(f.A[0].A[0]) == w.T && w.edgeKey(f.A[0].A[1]) {
			return nil, true
		}
	}
	return func(x *Term) bool {
		x = strip(x)
		return x.Op == OLookup && slotOf(x.A[0]) == w.T && w.edgeKey(x.A[1]) || x.Op == OVal && slotOf(x.A[0]) == w.T
	}, false
}

func (w *dumpWalker) roots(ret *Term) string {
	if ret.Op != ONew {
		return "the result is not a new tree: " + ret.String()
	}
	d := strip(fld(ret, "Children"))
	parts := []*Term{d}
	if d.Op == OCat {
		parts = d.A
	}
	isPart := map[*Term]bool{}
	for _, p := range parts {
		p = strip(p)
		info := collInfo(p)
		if info == nil {
			if p.Op == OLit && len(p.A) == 0 || p == tNil {
				continue
			}
			return "the children of the root are not collected from trees: " + p.String()
		}
		isPart[p] = true
		for _, cs := range info.All {
			t, imp := w.tree(cs)
			for _, it := range cs.Items[p.S] {
				if !imp && !t(it) {
					return fmt.Sprintf("%s becomes a child of the root", it)
				}
			}
		}
	}
	// sets of trees that hold only what is below the root
	sets := map[string]bool{}
	bad := ""
	inRoots := func(x where, t *Term) bool {
		t = strip(t)
		for p := range isPart {
			if x.cs != nil && len(x.in) > 0 && p.L == x.in[len(x.in)-1].Loop.L {
				for _, it := range x.cs.Items[p.S] {
					if strip(it) == t {
						return true
					}
				}
			}
			for _, l := range x.in {
				if dm := strip(l.Loop.Domain); dm == p || dm.Op == OCat && anyIn(dm.A, isPart) {
					if t == elemOf(l.Loop.L, dm) {
						return true
					}
					for _, cs := range collInfo(p).All {
						for _, it := range cs.Items[p.S] {
							if strip(it) == t {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	walk(w.o, func(x where) {
		if x.ev.Kind == "rec" {
			if mk, ok := w.marks[x.ev.Name]; ok {
				if x.cs != nil {
					if _, imp := w.tree(x.cs); imp {
						return
					}
				}
				s := rawSlot(x.ev.Raw[mk[1]])
				if !inRoots(x, x.ev.Args[mk[0]]) && !inRoots(x, x.ev.Raw[mk[0]]) {
					bad = fmt.Sprintf("%s counts as reached but is not below the root", x.ev.Args[mk[0]])
				}
				sets[s] = true
			}
		}
	})
	walk(w.o, func(x where) {
		if x.ev.Kind == "mapset" && sets[rawSlot(x.ev.Raw[0])] && !inRoots(x, x.ev.Args[1]) {
			bad = fmt.Sprintf("%s counts as reached but is not below the root", x.ev.Args[1])
		}
	})
	if bad != "" {
		return bad
	}
	why := "no loop visits every edge again to find trees that no root leads to"
	for i, ev := range w.o.Evs {
		if ev.Kind != "loop" || i <= w.at || !ev.Loop.Exhausted {
			continue
		}
		over := strip(ev.Loop.Domain)
		var mine func(t *Term) bool
		switch {
		case over == w.E:
			key := idTerm(fld(elemOf(ev.Loop.L, w.E), "first"))
			mine = func(t *Term) bool {
				t = strip(t)
				return t.Op == OLookup && t.A[1] == key && slotOf(t.A[0]) == w.T
			}
		case slotOf(over) == w.T:
			mine = func(t *Term) bool {
				t = strip(t)
				return t.Op == OVal && t.L == ev.Loop.L
			}
		default:
			continue
		}
		all := true
		for _, cs := range ev.Loop.All {
			if _, imp := w.tree(cs); imp {
				continue
			}
			ok := false
			for p := range isPart {
				if p.L == ev.Loop.L {
					for _, it := range cs.Items[p.S] {
						ok = ok || mine(it)
					}
				}
			}
			for f, v := range cs.Facts {
				ok = ok || f.Op == OHas && v && sets[slotOf(f.A[0])] && mine(f.A[1])
			}
			if !ok {
				all = false
				why = fmt.Sprintf("an iteration leaves out its tree: %s", factsOf(cs))
			}
		}
		if all {
			return ""
		}
	}
	return why
}

func anyIn(ts []*Term, m map[*Term]bool) bool {
	for _, t := range ts {
		if m[strip(t)] {
			return true
		}
	}
	return false
}

// marking: g adds a tree and all of its descendants to a set, and nothing
// else; every tree is entered once. It returns the indices of tree and set.
func (c *Check) marking(g *ssa.Function, cfg Config) (int, int) {
	ti, mi := paramOf(g, relTree), -1
	for i, p := range g.Params {
		if strings.HasPrefix(typeStr(p.Type()), "map["+relTree+"]") {
			mi = i
		}
	}
	if mi < 0 {
		return -1, -1
	}
	const rule = "reaching a tree reaches its descendants and ends"
	a := symArgs(g)
	name := fname(g)
	for _, o := range c.run(g, cfg, a, nil) {
		has, known := o.St.decide(mk(OHas, "", 0, nil, nil, nil, nil, a[mi], a[ti]))
		ok := o.Kind == "return" && known
		why := o.brief()
		marked := false
		n := 0
		for _, ev := range o.Evs {
			switch ev.Kind {
			case "mapset":
				ok = ok && ev.Raw[0] == a[mi] && ev.Args[1] == a[ti] && n == 0
				marked = true
			case "mapdel", "rec", "store":
				ok = false
			case "loop":
				n++
				d := fld(a[ti], "Children")
				ok = ok && marked && ev.Loop.Exhausted && strip(ev.Loop.Domain) == d
				for _, cs := range ev.Loop.All {
					r := allIn(cs.Evs, "rec")
					ok = ok && len(r) == 1 && r[0].Name == name && strip(r[0].Args[ti]) == elemOf(ev.Loop.L, d) && r[0].Raw[mi] == a[mi]
					for _, e := range cs.Evs {
						ok = ok && e.Kind != "mapset" && e.Kind != "mapdel"
					}
				}
			}
		}
		empty := is(o.St, mkEq(mkLen(fld(a[ti], "Children")), cInt(0)), true)
		if has {
			ok = ok && !marked && n == 0
		} else {
			ok = ok && marked && (n == 1 || empty)
		}
		c.req(ok, rule, name, c.fpos(g), "%s", why)
	}
	c.min(rule, 2)
	return ti, mi
}

// worklist: like marking, for a function that keeps a list of the trees it has
// still to enter. Each tree taken off the list is either in the set already,
// or is added to it and its children to the list, until the list is empty.
func (c *Check) worklist(g *ssa.Function, cfg Config) (int, int) {
	ti, mi := paramOf(g, relTree), -1
	for i, p := range g.Params {
		if strings.HasPrefix(typeStr(p.Type()), "map["+relTree+"]") {
			mi = i
		}
	}
	if mi < 0 || ti < 0 || g.Signature.Results().Len() != 0 {
		return -1, -1
	}
	a := symArgs(g)
	outs := c.run(g, cfg, a, nil)
	seen := map[bool]bool{}
	for _, o := range outs {
		has, known := o.St.decide(mk(OHas, "", 0, nil, nil, nil, nil, a[mi], a[ti]))
		if o.Kind != "return" || !known {
			return -1, -1
		}
		seen[has] = true
		var loop *Event
		marked := false
		for _, ev := range o.Evs {
			switch ev.Kind {
			case "mapset":
				if marked || ev.Raw[0] != a[mi] || ev.Args[1] != a[ti] || loop != nil {
					return -1, -1
				}
				marked = true
			case "loop":
				if ev.Loop.Domain != nil && strip(ev.Loop.Domain) == fld(a[ti], "Children") && ev.Loop.Exhausted {
					continue
				}
				if loop != nil || ev.Loop.Domain != nil {
					return -1, -1
				}
				loop = ev
			case "mapdel", "rec", "store", "call", "dyncall":
				return -1, -1
			}
		}
		if marked == has || has && loop != nil {
			return -1, -1
		}
		empty := is(o.St, mkEq(mkLen(fld(a[ti], "Children")), cInt(0)), true)
		if !has && loop == nil && !empty {
			return -1, -1
		}
		if loop == nil {
			continue
		}
		ok := false
		for k, v := range loop.Loop.L.init {
			v = strip(v)
			if !childrenOf(v, a[ti]) && !(empty && v.Op == OLit && len(v.A) == 0) {
				continue
			}
			list := mk(OLv, k, 0, loop.Loop.L, nil, nil, nil)
			factHas(o.St, func(t *Term, b bool) bool {
				if b && t.Op == OBin && t.S == "==" && t.A[0].Op == OLen && t.A[0].A[0].Op == OLv && t.A[0].A[0].S == k && t.A[0].A[0].L == loop.Loop.L && t.A[1] == cInt(0) {
					list, ok = t.A[0].A[0], true
				}
				return false
			})
			for _, cs := range loop.Loop.All {
				ok = ok && entered(cs, list, k, a[mi])
			}
		}
		if !ok {
			return -1, -1
		}
	}
	if !seen[true] || !seen[false] {
		return -1, -1
	}
	const rule = "reaching a tree reaches its descendants and ends"
	for range outs {
		c.req(true, rule, fname(g), c.fpos(g), "")
	}
	return ti, mi
}

// entered: one step of a worklist.
func entered(cs *Case, list *Term, k string, set *Term) bool {
	n := strip(cs.Next[k])
	parts := []*Term{n}
	if n.Op == OCat {
		parts = n.A
	}
	var head, rest *Term
	for _, p := range parts {
		p = strip(p)
		if p.Op == OSlice && strip(p.A[0]) == list {
			if rest != nil {
				return false
			}
			rest = p
			last := mkAdd(mkLen(list), cInt(-1))
			lo, hi := p.A[1], p.A[2]
			switch {
			case lo == cInt(1) && hi == tNil:
				head = cInt(0)
			case (lo == cInt(0) || lo == tNil) && hi == last:
				head = last
			default:
				return false
			}
		}
	}
	if rest == nil {
		return false
	}
	var hit *bool
	var tree *Term
	for t, v := range cs.Facts {
		if t.Op == OHas && rawOf(t.A[0], set) && t.A[1].Op == OIndex && strip(t.A[1].A[0]) == list && t.A[1].A[1] == head {
			b := v
			hit, tree = &b, t.A[1]
		}
	}
	if hit == nil {
		return false
	}
	sets := 0
	for _, ev := range cs.Evs {
		switch ev.Kind {
		case "mapset":
			if !(ev.Raw[0] == set && strip(ev.Args[1]) == tree) {
				return false
			}
			sets++
		case "loop":
			if ev.Loop.Domain == nil || strip(ev.Loop.Domain) != fld(tree, "Children") || !ev.Loop.Exhausted {
				return false
			}
		default:
			return false
		}
	}
	if *hit {
		return sets == 0 && len(parts) == 1
	}
	if sets != 1 || len(parts) != 2 {
		return is(cs.St, mkEq(mkLen(fld(tree, "Children")), cInt(0)), true) && sets == 1 && len(parts) == 1
	}
	other := parts[0]
	if strip(other) == rest {
		other = parts[1]
	}
	return childrenOf(other, tree)
}

// childrenOf: a list of exactly the children of a tree.
func childrenOf(t, tree *Term) bool {
	t = strip(t)
	d := fld(tree, "Children")
	if t == d {
		return true
	}
	if t.Op != OColl {
		return false
	}
	in := collInfo(t)
	if in == nil || strip(t.L.Domain) != d || !in.Exhausted {
		return false
	}
	for _, cs := range in.All {
		it := cs.Items[t.S]
		if len(it) != 1 || strip(it[0]) != elemOf(t.L, d) {
			return false
		}
	}
	return true
}

func rawOf(view, m *Term) bool {
	return view.has(func(t *Term) bool { return t == m })
}

func allIn(evs []*Event, kind string) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return out
}

// dumpDot: every tree becomes a node and an edge from each of its parents.
func (c *Check) dumpDot(f *ssa.Function, fresh bool) {
	head := c.recHead(f, relTree)
	if !c.req(head != nil, "anchor", fname(f), c.fpos(f), "no function recurses over relation trees") {
		return
	}
	hn := fname(head)
	ti, pi := -1, -1
	for i, p := range head.Params {
		if typeStr(p.Type()) == relTree {
			if ti >= 0 {
				pi = ti
			}
			ti = i
		}
	}
	sp := paramOf(head, "string")
	a := symArgs(head)
	// which of two trees is the node: the one whose children are visited
	for _, o := range c.run(head, c.dotCfg(hn), a, nil) {
		for _, ev := range o.Evs {
			if pi >= 0 && ev.Kind == "loop" && strip(ev.Loop.Domain) == fld(a[pi], "Children") {
				ti, pi = pi, ti
				goto found
			}
		}
	}
found:
	if !c.req(pi >= 0 || sp >= 0, "anchor", hn, c.fpos(head), "the parent is not passed down") {
		return
	}
	x := a[ti]
	isId := func(st *State, t, tree *Term) bool {
		in, ok := quoted(t)
		if !ok || len(in) != 1 {
			return false
		}
		n := fld(tree, "Node")
		if is(st, isNilT(n), true) {
			s, isS := in[0].strVal()
			return isS && s != "" && len(s) < 40
		}
		return in[0] == idTerm(n)
	}
	// entry
	var entries []*Event
	args := symArgs(f)
	si := paramOf(f, relTree)
	const whole = "the whole dump is serialized"
	for _, o := range c.run(f, c.dotCfg(hn), args, nil) {
		if o.Kind != "return" {
			c.req(false, whole, fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		if !o.ok() {
			c.req(dotFailed(o), "serializing fails only if a step does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		recs := allEvents(o, func(ev *Event) bool { return ev.Kind == "rec" && ev.Name == hn })
		g := c.freshGraph(o)
		ok := len(recs) == 1 && len(recs[0].in) == 0 && noErr(o.St, recs[0].ev) && strip(recs[0].ev.Args[ti]) == args[si] &&
			g != nil && strip(o.Rets[0]).Op == OCall && strip(o.Rets[0]).S == gvString && strip(o.Rets[0]).A[0] == g && c.passes(recs[0].ev, head, g)
		if ok && pi >= 0 {
			ok = recs[0].ev.Args[pi] == tNil
		}
		if c.req(ok, whole, fname(f), c.fpos(f), "%s", o.brief()) {
			entries = append(entries, recs[0].ev)
		}
	}
	c.min(whole, 1)
	// induction
	const rNode, rEdge, rChild, rEnd = "every node of a dump is shown", "every relationship of a dump is shown", "the children of every node are serialized", "a node is entered once"
	for _, k := range []bool{true, false} { // with and without a parent
		args := append([]*Term{}, a...)
		if pi >= 0 && !k {
			args[pi] = tNil
		}
		for _, o := range c.run(head, c.dotCfg(hn), args, nil) {
			pos := c.fpos(head)
			if o.Kind != "return" {
				c.req(false, rNode, hn, pos, "%s", o.brief())
				continue
			}
			if !o.ok() {
				c.req(dotFailed(o), "serializing fails only if a step does", hn, pos, "%s", o.brief())
				continue
			}
			adds := allEvents(o, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == gvAddNode })
			edges := allEvents(o, func(ev *Event) bool { return ev.Kind == "call" && ev.Name == gvAddEdge })
			ok := len(adds) == 1 && len(adds[0].in) == 0 && noErr(o.St, adds[0].ev) && isId(o.St, adds[0].ev.Args[2], x)
			if !c.req(ok, rNode, hn, pos, "%s", o.brief()) || !ok {
				continue
			}
			an := adds[0].ev
			id := an.Args[2]
			lab := attrOf(an.Args[3], "label")
			var in []*Term
			q := false
			if lab != nil {
				in, q = quoted(lab)
			}
			c.req(q && (is(o.St, isNilT(fld(x, "Node")), true) || len(in) > 0 && anyShows(in, mk(OCall, pretty, 0, nil, nil, nil, nil, fld(x, "Node")))), "labels are quoted and show the node", hn, c.posOf(an), "%v", lab)
			noParent := pi >= 0 && !k || sp >= 0 && pi < 0 && is(o.St, mkEq(args[sp], cStr("")), true)
			if !noParent {
				ok := len(edges) == 1 && len(edges[0].in) == 0 && noErr(o.St, edges[0].ev) && edges[0].ev.Args[0] == an.Args[0] && edges[0].ev.Args[2] == id && edges[0].ev.Args[3] == tTrue
				if ok && pi >= 0 {
					ok = isId(o.St, edges[0].ev.Args[1], a[pi])
				} else if ok {
					ok = edges[0].ev.Args[1] == a[sp]
				}
				c.req(ok, rEdge, hn, pos, "%s", o.brief())
			} else {
				c.req(len(edges) == 0, rEdge, hn, pos, "an edge from no parent: %s", o.brief())
			}
			// visited set
			var has, known bool
			var set *Term
			for fct, v := range o.St.facts {
				if fct.Op == OHas && (fct.A[1] == id || fct.A[1] == x || fct.A[1] == idTerm(fld(x, "Node"))) {
					has, known, set = v, true, fct
				}
			}
			if !c.req(known, rEnd, hn, pos, "no test whether the node was entered: %s", o.brief()) {
				continue
			}
			for _, e := range entries {
				at := set.A[0].subst(func(t *Term) *Term {
					for i := range a {
						if t == a[i] {
							return e.Args[i]
						}
					}
					return nil
				})
				ok := at == tEmptyMap || fresh && rooted(at, args[0]) && at != args[0]
				c.req(ok, "no node counts as entered at first", hn, pos, "%s", at)
			}
			if has {
				continue
			}
			ls := loopsOver(o.Evs, fld(x, "Children"))
			empty := is(o.St, mkEq(mkLen(fld(x, "Children")), cInt(0)), true)
			good := len(ls) == 1 && ls[0].Loop.Exhausted
			if good {
				el := elemOf(ls[0].Loop.L, fld(x, "Children"))
				for _, cs := range ls[0].Loop.All {
					r := recCalls(cs.Evs, &head0{name: hn})
					good = good && len(r) == 1 && strip(r[0].Args[ti]) == el && noErr(cs.St, r[0]) && c.passes(r[0], head, an.Args[0])
					if good && pi >= 0 {
						good = r[0].Args[pi] == x || r[0].Raw[pi] == x
					} else if good {
						good = r[0].Args[sp] == id
					}
				}
			}
			c.req(good || empty, rChild, hn, pos, "%s", o.brief())
			marked := false
			for _, ev := range o.Evs {
				if ev.Kind == "mapset" && ev.Args[1] == set.A[1] && (ev.Args[0] == set.A[0] || ev.Raw[0] == set.A[0]) {
					marked = true
				}
				if ev.Kind == "mapdel" && ev.Args[1] == set.A[1] {
					marked = false
				}
				if ev.Kind == "loop" || ev.Kind == "rec" {
					break
				}
			}
			walk(o, func(w where) {
				if w.ev.Kind == "mapdel" {
					marked = false
				}
				if w.ev.Kind == "rec" && w.ev.Name == hn {
					pass := false
					for i := range w.ev.Raw {
						pass = pass || w.ev.Raw[i] == set.A[0] || i == 0 && rooted(set.A[0], a[0]) && w.ev.Raw[0] == a[0]
					}
					marked = marked && pass
				}
			})
			c.req(marked, rEnd, hn, pos, "the node is not entered into the set before its children: %s", o.brief())
		}
		if pi < 0 {
			break
		}
	}
	for _, r := range []string{rNode, rEdge, rChild, rEnd} {
		c.min(r, 2)
	}
}
