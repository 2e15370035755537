package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The evaluation of the relation graph: the search over goal trees and their
// construction are recursive, so both are decided by an inductive contract per
// recursion head. A call of a head is a cut point; every head's body is then
// shown to satisfy the contract that its callers rely on.

const (
	rg       = "relation_graph."
	searchFn = "(*relation_graph.Searcher).Search"
	nodeID   = "(*domain.RelationNode).Id"
	getSucc  = "relation_graph.NodeRepository.GetSucessors"
	tOR      = "*relation_graph.ORNode"
	tAND     = "*relation_graph.ANDNode"
	tDIFF    = "*relation_graph.DifferenceNode"
	tPATH    = "*relation_graph.PathNode"
)

type head struct {
	f    *ssa.Function
	name string
	recv int // index of each role among the parameters, -1 when absent
	pol  int // *domain.Policy
	id   int // policy id
	tree int // goal tree or expression tree
	goal int
	node int // entity set (or relation) node
}

type evalModel struct {
	keyShapes map[string][]string // constant parts of the trail keys, by kind of node
	c         *Check
	search    *ssa.Function
	S, B      *head
	cfg       Config
	succ      int64
	fail      int64
	failed    bool // the code distinguishes failure from unknown
}

// in: the rule belongs to one of the properties.
func (c *Check) in(props string) bool { return strings.Contains(props, c.Prop) }

func (c *Check) reqp(props string, ok bool, rule, construct, pos, detail string, a ...any) bool {
	if !c.in(props) {
		return ok
	}
	return c.req(ok, rule, construct, pos, detail, a...)
}

func (c *Check) minp(props, rule string, n int) {
	if c.in(props) {
		c.min(rule, n)
	}
}

// sccs of the static call graph below f (closures included).
func (p *Program) sccs(root *ssa.Function) [][]*ssa.Function {
	succs := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && isRepo(g) && !p.generated(g) && len(g.Blocks) > 0 {
						out = append(out, g)
					}
				}
			}
		}
		return out
	}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range succs(f) {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				sort.Slice(comp, func(i, j int) bool { return fname(comp[i]) < fname(comp[j]) })
				out = append(out, comp)
			}
		}
	}
	visit(root)
	return out
}

func paramOf(f *ssa.Function, ty string) int {
	for i, p := range f.Params {
		if typeStr(p.Type()) == ty {
			return i
		}
	}
	return -1
}

func (c *Check) newHead(f *ssa.Function, treeTy string) *head {
	h := &head{f: f, name: fname(f), recv: -1}
	if f.Signature.Recv() != nil {
		h.recv = 0
	}
	h.tree = paramOf(f, treeTy)
	h.pol = paramOf(f, "*domain.Policy")
	h.goal = paramOf(f, "*relation_graph.Goal")
	h.node = paramOf(f, "*domain.EntitySetNode")
	h.id = paramOf(f, "string")
	return h
}

// evalHeads finds the functions that the evaluation recurses through.
func (c *Check) evalHeads() *evalModel {
	m := &evalModel{c: c, search: c.fn(searchFn)}
	if m.search == nil {
		return nil
	}
	m.succ, m.fail = c.enum(rg+"SearchResult_SUCCESS"), c.enum(rg+"SearchResult_FAILURE")
	pick := func(ty string) *ssa.Function {
		for _, comp := range c.P.sccs(m.search) {
			for _, f := range comp {
				res := f.Signature.Results()
				if paramOf(f, ty) >= 0 && res.Len() == 2 && typeStr(res.At(0).Type()) == rg+"GoalTree" && cuts(comp, f) {
					return f
				}
			}
		}
		return nil
	}
	s, b := pick(rg+"GoalTree"), pick("*domain.RelationExpressionTree")
	if !c.req(s != nil, "anchor", "recursive search over goal trees", c.fpos(m.search), "no function recurses over goal trees") ||
		!c.req(b != nil, "anchor", "recursive construction of goal trees", c.fpos(m.search), "no function recurses over expression trees") {
		return nil
	}
	m.S, m.B = c.newHead(s, rg+"GoalTree"), c.newHead(b, "*domain.RelationExpressionTree")
	ok := m.S.pol >= 0 && m.S.goal >= 0 && (m.B.pol >= 0 || m.B.id >= 0) && m.B.node >= 0
	if !c.req(ok, "anchor", "parameters of the recursion", c.fpos(s), "policy, goal, policy id or node is not passed down: %s, %s", s.Signature, b.Signature) {
		return nil
	}
	m.cfg = stdConfig(nodeID)
	m.cfg.Cut = map[string]bool{m.S.name: true, m.B.name: true}
	m.cfg.BalancedMaps = map[string]bool{}
	for _, n := range structNames(derefType(m.search.Params[0].Type())) {
		m.cfg.BalancedMaps[n] = true
	}
	return m
}

// cuts: without f the component has no cycle.
func cuts(comp []*ssa.Function, f *ssa.Function) bool {
	in := map[*ssa.Function]bool{}
	for _, g := range comp {
		in[g] = g != f
	}
	color := map[*ssa.Function]int{}
	var cyc func(g *ssa.Function) bool
	cyc = func(g *ssa.Function) bool {
		color[g] = 1
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && in[h] {
						if color[h] == 1 || color[h] == 0 && cyc(h) {
							return true
						}
					}
				}
			}
		}
		color[g] = 2
		return false
	}
	for _, g := range comp {
		if in[g] && color[g] == 0 && cyc(g) {
			return false
		}
	}
	return true
}

// ---- terms ----

func getResult(t *Term) *Term {
	return mk(OCall, rg+"GoalTree.GetResult", 0, nil, nil, nil, nil, t)
}

func (m *evalModel) isSucc(res *Term) *Term { return mkEq(res, cInt(m.succ)) }

// result of a returned tree
func (m *evalModel) resultOf(t *Term) *Term {
	s := strip(t)
	if s.Op == ONew || s.Op == OStruct {
		return fld(s, "Result")
	}
	return getResult(t)
}

// recCalls lists the recursive calls of a head among events (loops excluded).
func recCalls(evs []*Event, h *head) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind == "rec" && ev.Name == h.name {
			out = append(out, ev)
		}
	}
	return out
}

// child: the operand x was searched and granted.
func (m *evalModel) child(x *Term) Formula {
	return Formula{"operand " + x.String() + " grants", func(k Ctx) tri {
		for _, ev := range recCalls(k.evs, m.S) {
			if ev.Args[m.S.tree] == x || ev.Raw[m.S.tree] == x {
				return boolTri(k.st.decide(m.isSucc(getResult(resN(ev.Res, 0, nil)))))
			}
		}
		return tU
	}}
}

// denies: the operand x was searched and did not grant.
func (m *evalModel) denies(x *Term) Formula {
	ch := m.child(x)
	return Formula{"operand " + x.String() + " does not grant", func(k Ctx) tri {
		if v := ch.eval(k); v != tU {
			return -v
		}
		for _, ev := range recCalls(k.evs, m.S) {
			if ev.Args[m.S.tree] == x || ev.Raw[m.S.tree] == x {
				v := boolTri(k.st.decide(mkEq(getResult(resN(ev.Res, 0, nil)), cInt(m.fail))))
				if v != tU {
					m.failed = true
				}
				return v
			}
		}
		return tU
	}}
}

// agree: the condition t holds exactly when F does.
func agree(k Ctx, t *Term, F Formula) (bool, string) {
	if v, ok := k.st.decide(t); ok {
		w := F.eval(k)
		return w == boolTri(v, true), F.name + " is " + w.String()
	}
	for _, b := range []bool{true, false} {
		s := k.st.clone()
		if !s.assume(t, b) {
			continue
		}
		if w := F.eval(Ctx{s, k.evs}); w != boolTri(b, true) {
			return false, F.name + " is " + w.String()
		}
	}
	return true, ""
}

// ---- the contracts ----

const (
	evSet  = "C01"
	evRule = "C02"
	evMat  = "C03"
	evTerm = "C08"
	evAll  = "C24"
	evErr  = "C04 C05"
)

// evaluation decides the rules of the evaluation that belong to the property.
func (c *Check) evaluation() {
	m := c.evalHeads()
	if m == nil {
		return
	}
	m.goalTrees()
	m.checkSearch()
	m.checkBuild()
	m.checkEntry()
	c.contractSymbols()
	c.minp("C01", "a union grants exactly when an operand does", 2)
	c.minp("C01", "an intersection grants exactly when all operands do", 2)
	c.minp("C01", "a difference grants exactly when the left operand does and the right does not", 2)
	c.minp("C01", "a node grants exactly when its expansion does", 2)
	c.minp("C02", "a node is expanded by its relation's expression", 2)
	c.minp("C02", "the rule yields exactly its nodes", 3)
	c.minp("C02", "the operator combines exactly its operands", 3)
	c.minp("C03", "an exact match is found", 4)
	c.minp("C03", "only an exact match is found", 4)
	c.minp("C08", "a node on the trail is not expanded again", 2)
	c.minp("C08", "an expanded node is on the trail", 2)
	c.minp("C24", "every operand is explored", 3)
}

// goalTrees: what the accessors of goal tree nodes do.
func (m *evalModel) goalTrees() {
	c := m.c
	for _, n := range []string{tOR, tAND, tDIFF, tPATH} {
		t := c.ty(n)
		if t == nil {
			c.req(false, "anchor", n, "-", "type not found")
			continue
		}
		f := c.method(t, "GetResult")
		if f == nil {
			continue
		}
		a := symArgs(f)
		for _, o := range c.run(f, Config{}, a, nil) {
			c.req(o.Kind == "return" && o.Rets[0] == fld(a[0], "Result") && len(o.Evs) == 0, "the result of a node is the one recorded in it", fname(f), c.fpos(f), "%s", o.brief())
		}
		f = c.method(t, "SetParent")
		if f == nil {
			continue
		}
		a = symArgs(f)
		for _, o := range c.run(f, Config{}, a, nil) {
			ok := o.Kind == "return"
			for _, ev := range o.Evs {
				ok = ok && ev.Kind == "store" && strings.HasSuffix(ev.Name, "Parent")
			}
			c.req(ok, "linking to a parent changes nothing else", fname(f), c.fpos(f), "%s %v", o.brief(), len(o.Evs))
		}
	}
}

// frame: the rules that hold for every outcome of a head: what is passed down
// and what may be written.
func (m *evalModel) frame(f *ssa.Function, args []*Term, h *head, o *Outcome) {
	c := m.c
	walk(o, func(w where) {
		ev := w.ev
		pos := c.posOf(ev)
		switch ev.Kind {
		case "rec":
			var callee *head
			switch ev.Name {
			case m.S.name:
				callee = m.S
			case m.B.name:
				callee = m.B
			default:
				c.req(false, "the recursion is known", fname(f), pos, "%s recurses outside of the known heads", ev.Name)
				return
			}
			if h.pol >= 0 && callee.pol >= 0 {
				c.reqp(evRule+evSet, ev.Raw[callee.pol] == args[h.pol], "the same policy is used throughout", fname(f), pos, "%s", ev.Args)
			}
			if h.goal >= 0 && callee.goal >= 0 {
				c.reqp(evMat+evSet, ev.Raw[callee.goal] == args[h.goal], "the same goal is searched throughout", fname(f), pos, "%s", ev.Args)
			}
			if callee == m.S && h.recv >= 0 && callee.recv >= 0 {
				c.reqp(evTerm+evSet, ev.Raw[callee.recv] == args[h.recv], "the trail is shared by the whole evaluation", fname(f), pos, "%s", ev.Args)
			}
			if o.ok() {
				e := errResult(ev)
				c.reqp(evErr+evSet, e != nil && is(w.ctx.st, mkEq(e, tNil), true), "a failed step fails the evaluation", fname(f), pos, "the error of %s is ignored: %s", ev.Name, o.brief())
			}
		case "store":
			c.reqp("C01 C02 C07", false, "evaluation changes no shared memory", fname(f), pos, "%s", ev.Args)
		case "mapset", "mapdel":
			c.reqp("C01 C02 C07", !globalRooted(ev.Args[0]), "evaluation changes no shared memory", fname(f), pos, "%s %s", ev.Kind, ev.Args)
		case "go", "send", "dyncall":
			c.req(false, "evaluation is sequential", fname(f), pos, "%s %s", ev.Kind, ev.Name)
		case "loop":
			c.reqp(evTerm, ev.Loop.Domain != nil, "every loop ranges over a finite collection", fname(f), pos, "a loop without a known bound: %s", o.brief())
		}
		if ev.Kind == "call" && ev.Name == getSucc && o.ok() {
			c.reqp(evErr+evSet, noErr(w.ctx.st, ev), "a failed step fails the evaluation", fname(f), pos, "the error of %s is ignored: %s", ev.Name, o.brief())
		}
	})
	if o.Kind != "return" {
		c.req(false, "evaluation returns", fname(f), c.fpos(f), "%s", o.brief())
	}
}

// recFailed: a recursive call of the outcome failed.
func recFailed(o *Outcome) bool {
	hit := false
	walk(o, func(w where) {
		if w.ev.Kind == "rec" {
			if e := errResult(w.ev); e != nil && is(w.ctx.st, mkEq(e, tNil), false) {
				hit = true
			}
		}
	})
	return hit
}

func (m *evalModel) kind(st *State, t *Term) string {
	if t.Op == OIface {
		return t.S
	}
	for _, k := range []string{tOR, tAND, tDIFF, tPATH} {
		if is(st, isT(t, k), true) {
			return k
		}
	}
	return ""
}

func (m *evalModel) checkSearch() {
	c, h := m.c, m.S
	args := symArgs(h.f)
	tree := args[h.tree]
	for _, o := range c.run(h.f, m.cfg, args, nil) {
		m.frame(h.f, args, h, o)
		if o.Kind != "return" {
			continue
		}
		pos := c.fpos(h.f)
		k := m.kind(o.St, tree)
		if !o.ok() {
			if k == tPATH {
				m.pathError(h.f, o, args[h.pol], fld(c.as(tree, tPATH), "RelationNode"), args[h.goal])
			} else {
				why := recFailed(o) || k == ""
				c.reqp(evSet, why, "evaluation fails only if a step does", h.name, pos, "%s", o.brief())
			}
			c.reqp("C04", o.Rets[0] == tNil, "no tree is returned along with an error", h.name, pos, "%s", o.brief())
			continue
		}
		ret := strip(o.Rets[0])
		res := m.resultOf(o.Rets[0])
		n := c.as(tree, k)
		switch k {
		case tOR, tAND:
			paths := fld(n, "Paths")
			var F Formula
			rule := "a union grants exactly when an operand does"
			if k == tOR {
				F = exists("operand", paths, m.child)
			} else {
				F = forall("operand", paths, m.child)
				rule = "an intersection grants exactly when all operands do"
			}
			ok, why := agree(o.ctx(), m.isSucc(res), F)
			c.reqp(evSet, ok, rule, h.name, pos, "%s: %s", why, o.brief())
			m.explored(h, o, k, ret, paths, args[h.goal])
		case tDIFF:
			l, r := fld(n, "Left"), fld(n, "Right")
			ok, why := agree(o.ctx(), m.isSucc(res), fand(m.child(l), m.denies(r)))
			c.reqp(evSet, ok, "a difference grants exactly when the left operand does and the right does not", h.name, pos, "%s: %s", why, o.brief())
			full := is(o.St, isNilT(fld(args[h.goal], "Target")), false)
			if !full {
				full = m.holdsRec(o, ret, "Left", l) && m.holdsRec(o, ret, "Right", r)
			}
			c.reqp(evAll, full && m.kind(o.St, o.Rets[0]) == k, "every operand is explored", h.name, pos, "%s", o.brief())
		case tPATH:
			m.path(h.f, o, args[h.recv], args[h.pol], fld(n, "RelationNode"), args[h.goal])
		default:
			c.reqp(evSet, false, "every kind of node is evaluated as what it is", h.name, pos, "the kind of the tree is not known: %s", o.brief())
		}
		if m.failed && k != tPATH {
			v, ok := o.St.decide(m.isSucc(res))
			w, ok2 := o.St.decide(mkEq(res, cInt(m.fail)))
			c.reqp(evSet, ok && v || ok2 && w, "an operator's result is success or failure", h.name, pos, "%s", o.brief())
		}
	}
}

// holdsRec: the field of the returned node is the result of searching x.
func (m *evalModel) holdsRec(o *Outcome, ret *Term, field string, x *Term) bool {
	v := strip(fld(ret, field))
	for _, ev := range recCalls(o.Evs, m.S) {
		if ev.Args[m.S.tree] == x && v == resN(ev.Res, 0, nil) {
			return true
		}
	}
	return false
}

// explored: with no goal to reach, every operand is searched and is part of
// the returned node, in order.
func (m *evalModel) explored(h *head, o *Outcome, k string, ret, paths, goal *Term) {
	c := m.c
	pos := c.fpos(h.f)
	rule := "every operand is explored"
	var evs []*Event
	for _, ev := range loopsOver(o.Evs, paths) {
		if len(ev.Loop.All) > 0 && len(recCalls(ev.Loop.All[0].Evs, m.S)) > 0 || !ev.Loop.Exhausted {
			evs = append(evs, ev)
		}
	}
	if len(evs) != 1 {
		empty := is(o.St, mkEq(mkLen(paths), cInt(0)), true)
		c.reqp(evAll, empty, rule, h.name, pos, "%d loops over the operands: %s", len(evs), o.brief())
		return
	}
	l := evs[0]
	x := elemOf(l.Loop.L, paths)
	if !l.Loop.Exhausted {
		targeted := is(o.St, isNilT(fld(goal, "Target")), false)
		granted := k == tOR && exists("operand", paths, m.child).eval(o.ctx()) == tT
		c.reqp(evAll, targeted || granted, rule, h.name, pos, "operands may be left out: %s", o.brief())
		return
	}
	out := strip(fld(ret, "Paths"))
	ok := m.kind(o.St, o.Rets[0]) == k && out.Op == OColl && out.L == l.Loop.L
	for _, cs := range l.Loop.All {
		rs := recCalls(cs.Evs, m.S)
		ok = ok && len(rs) == 1 && rs[0].Args[m.S.tree] == x
		if ok {
			it := cs.Items[out.S]
			ok = len(it) == 1 && strip(it[0]) == resN(rs[0].Res, 0, nil)
		}
	}
	c.reqp(evAll, ok, rule, h.name, pos, "the returned operands are not the searched ones: %s", o.brief())
}

// ---- path nodes ----

func (m *evalModel) nodeKinds(n *Term) (en, wild, es *Term) {
	k := fld(n, "Node")
	return isT(k, "*domain.RelationNode_Entity"), isT(k, "*domain.RelationNode_Wildcard"), isT(k, "*domain.RelationNode_EntitySet")
}

func (m *evalModel) entitySet(n *Term) *Term {
	return m.c.pay(fld(n, "Node"), "*domain.RelationNode_EntitySet")
}

// match: node n is the target, or a wildcard that covers it.
func (m *evalModel) match(n, target *Term) Formula {
	c := m.c
	ten, _, _ := m.nodeKinds(target)
	en, wild, _ := m.nodeKinds(n)
	to := fld(c.pay(fld(target, "Node"), "*domain.RelationNode_Entity"), "Object")
	no := fld(c.pay(fld(n, "Node"), "*domain.RelationNode_Entity"), "Object")
	nw := c.pay(fld(n, "Node"), "*domain.RelationNode_Wildcard")
	eq := same(fand(atom(mkEq(fld(to, "Resource"), fld(no, "Resource"))), atom(mkEq(fld(to, "Id"), fld(no, "Id")))), protoEqual(to, no))
	// identities differ for different nodes (C14)
	ids := same(atom(mkEq(idTerm(target), idTerm(n))), atom(mkEq(idTerm(n), idTerm(target))))
	is := Formula{"same identity", func(k Ctx) tri {
		if ids.eval(k) == tT {
			return tT
		}
		return tU
	}}
	// an entity that is missing is no subject (the services refuse such requests)
	missing := Formula{"the subject is missing", func(k Ctx) tri {
		if v, ok := k.st.decide(mkEq(to, tNil)); ok && v {
			return tF
		}
		return tU
	}}
	return Formula{"the node is the subject or its wildcard", same(missing, is, fand(atom(neq(target, tNil)), atom(ten),
		for_(same(fand(atom(en), eq), ids), fand(atom(wild), atom(mkEq(fld(to, "Resource"), fld(nw, "Resource"))))))).f}
}

func protoEqual(a, b *Term) Formula {
	return Formula{"equal messages", func(k Ctx) tri {
		for f, v := range k.st.facts {
			if f.Op == OCall && f.S == "proto.Equal" && len(f.A) == 2 {
				x, y := strip(f.A[0]), strip(f.A[1])
				if x == a && y == b || x == b && y == a {
					return boolTri(v, true)
				}
			}
		}
		return tU
	}}
}

// onTrail: what is known about n being on the trail, and the trail.
func (m *evalModel) onTrail(o *Outcome, recv, n *Term) (seen, known bool, trail *Term) {
	for f, v := range o.St.facts {
		if f.Op == OHas && m.isNodeKey(o.St, f.A[1], n) && rooted(f.A[0], recv) {
			return v, true, f.A[0]
		}
	}
	return false, false, nil
}

// isNodeKey: the key identifies node n among all nodes. It is the node's identity (C14), or
// a struct of the parts of the node and constants that differ between the kinds of nodes.
func (m *evalModel) isNodeKey(st *State, k, n *Term) bool {
	if k == idTerm(n) {
		return true
	}
	fields := k.A
	if k.Op == OZero && k.T != nil {
		t, ok := k.T.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < t.NumFields(); i++ {
			fields = append(fields, zero(t.Field(i).Type()))
		}
	} else if k.Op != OStruct {
		return false
	}
	pay := func(t string) *Term { return m.c.pay(fld(n, "Node"), t) }
	en, wild, es := m.nodeKinds(n)
	var kind string
	var parts []*Term
	switch {
	case is(st, es, true):
		e := m.entitySet(n)
		kind, parts = "entity set", []*Term{fld(fld(e, "Object"), "Resource"), fld(fld(e, "Object"), "Id"), fld(e, "Relation")}
	case is(st, en, true):
		e := pay("*domain.RelationNode_Entity")
		kind, parts = "entity", []*Term{fld(fld(e, "Object"), "Resource"), fld(fld(e, "Object"), "Id")}
	case is(st, wild, true):
		kind, parts = "wildcard", []*Term{fld(pay("*domain.RelationNode_Wildcard"), "Resource")}
	case is(st, en, false) && is(st, wild, false) && is(st, es, false):
		kind = "none"
	default:
		return false
	}
	found := map[*Term]bool{}
	shape := make([]string, len(fields))
	for i, a := range fields {
		a = strip(a)
		part := false
		for _, p := range parts {
			part = part || a == p
		}
		if part {
			found[a] = true
			continue
		}
		if !isConst(a) {
			return false
		}
		shape[i] = a.String()
	}
	if len(found) != len(parts) {
		return false
	}
	if m.keyShapes == nil {
		m.keyShapes = map[string][]string{}
	}
	m.keyShapes[kind] = shape
	for other, s := range m.keyShapes {
		if other == kind {
			continue
		}
		differ := len(s) != len(shape)
		for i := range shape {
			if !differ && s[i] != "" && shape[i] != "" && s[i] != shape[i] {
				differ = true
			}
		}
		if !differ {
			return false
		}
	}
	return true
}

func (m *evalModel) path(f *ssa.Function, o *Outcome, recv, pol, n, goal *Term) {
	c := m.c
	pos := c.fpos(f)
	name := fname(f)
	target := fld(goal, "Target")
	var recs []where
	walk(o, func(w where) {
		if w.ev.Kind == "rec" && w.ev.Name == m.S.name {
			recs = append(recs, w)
		}
	})
	m.trail(f, o, recv, n, recs)
	ret := strip(o.Rets[0])
	succ := m.isSucc(m.resultOf(o.Rets[0]))
	kindOK := m.kind(o.St, o.Rets[0]) == tPATH && eqUnder(o.St, fld(ret, "RelationNode"), n)
	c.reqp(evAll, kindOK, "every node appears in the tree", name, pos, "%s", o.brief())
	if seen, known, _ := m.onTrail(o, recv, n); known && seen {
		c.reqp(evTerm, len(recs) == 0, "a node on the trail is not expanded again", name, pos, "%s", o.brief())
		c.reqp(evSet+evMat, is(o.St, succ, false), "a node on the trail grants nothing by itself", name, pos, "%s", o.brief())
		return
	}
	en, wild, es := m.nodeKinds(n)
	if len(recs) > 0 {
		isES := is(o.St, es, true)
		ok := len(recs) == 1 && len(recs[0].in) == 0 && isES
		if !c.reqp(evRule+evAll+evSet+evTerm+"C04", ok, "a node is expanded by its relation's expression", name, pos, "%d searches below one node (entity set: %v): %s", len(recs), isES, o.brief()) {
			return
		}
		ev := recs[0].ev
		e := m.entitySet(n)
		built := false
		for _, x := range m.expressions(o.St, pol, e) {
			built = built || m.isBuilt(o.ctx(), ev.Args[m.S.tree], x, fld(pol, "Id"), pol, e) == ""
		}
		c.reqp(evRule+evAll+"C04", built, "a node is expanded by its relation's expression", name, c.posOf(ev), "the searched tree is not the one of the node's relation: %s", o.brief())
		child := resN(ev.Res, 0, nil)
		ok, why := agree(o.ctx(), succ, Formula{"the expansion grants", func(k Ctx) tri { return boolTri(k.st.decide(m.isSucc(getResult(child)))) }})
		c.reqp(evSet, ok, "a node grants exactly when its expansion does", name, pos, "%s: %s", why, o.brief())
		c.reqp(evAll, strip(fld(ret, "Path")) == child, "every operand is explored", name, pos, "the expansion is not part of the tree: %s", o.brief())
		if _, _, tes := m.nodeKinds(target); !is(o.St, tes, true) {
			c.reqp(evMat, m.match(n, target).eval(o.ctx()) == tF, "an exact match is found", name, pos, "a node is expanded that may be the subject: %s", o.brief())
		}
		return
	}
	// a leaf
	if _, _, tes := m.nodeKinds(target); is(o.St, tes, true) {
		return
	}
	v, ok := o.St.decide(succ)
	mt := m.match(n, target).eval(o.ctx())
	if !c.reqp(evMat, ok && mt != tU, "a leaf is decided by comparing it with the subject", name, pos, "match is %s: %s", mt, o.brief()) {
		return
	}
	if v {
		c.reqp(evMat, mt == tT, "only an exact match is found", name, pos, "granted without a match: %s", o.brief())
	} else {
		c.reqp(evMat, mt == tF, "an exact match is found", name, pos, "a match is not granted: %s", o.brief())
		leaf := is(o.St, en, true) || is(o.St, wild, true) || is(o.St, es, false)
		c.reqp(evRule+evAll+evSet, leaf, "only a leaf ends a path", name, pos, "a node that may be an entity set is not expanded: %s", o.brief())
	}
}

// trail: a node is expanded only while it is recorded on the trail, on which
// it was not before, and the trail is left as it was found.
func (m *evalModel) trail(f *ssa.Function, o *Outcome, recv, n *Term, recs []where) {
	c := m.c
	name := fname(f)
	seen, known, trail := m.onTrail(o, recv, n)
	on := false
	visited := false
	for _, ev := range o.Evs {
		switch ev.Kind {
		case "mapset", "mapdel":
			if !ownedMap(ev.Raw[0], recv) {
				continue
			}
			ok := m.isNodeKey(o.St, ev.Args[1], n) && known && !seen && sameMap(ev, trail)
			c.reqp(evTerm+evSet+" C07", ok, "the trail only changes for the node at hand", name, c.posOf(ev), "%s %s", ev.Kind, ev.Args)
			on = ev.Kind == "mapset"
		case "rec":
			if ev.Name == m.S.name {
				visited = true
				c.reqp(evTerm, on && known && !seen, "an expanded node is on the trail", name, c.posOf(ev), "a node is expanded without having been put on the trail: %s", o.brief())
			}
		case "loop":
			bad := false
			for _, cs := range ev.Loop.All {
				walkEvs(cs.Evs, cs.ctx(), nil, cs, func(w where) {
					if (w.ev.Kind == "mapset" || w.ev.Kind == "mapdel") && ownedMap(w.ev.Raw[0], recv) {
						bad = true
					}
				})
			}
			c.reqp(evTerm+evSet+" C07", !bad, "the trail only changes for the node at hand", name, c.posOf(ev), "the trail is changed in a loop")
		}
	}
	_ = visited
	c.reqp(evSet+" C07", !on, "the trail is left as it was found", name, c.fpos(f), "a node stays on the trail after it was evaluated: %s", o.brief())
}

func ownedMap(t, recv *Term) bool {
	return t.contains(recv) || t.has(func(x *Term) bool { return x.Op == OGlob })
}

func sameMap(ev *Event, trail *Term) bool {
	return trail != nil && (ev.Raw[0] == trail || ev.Args[0].contains(trail))
}

func (m *evalModel) pathError(f *ssa.Function, o *Outcome, pol, n, goal *Term) {
	c := m.c
	if !c.in(evSet + evAll) {
		return
	}
	en, wild, es := m.nodeKinds(n)
	e := m.entitySet(n)
	why := recFailed(o) || storageFailed(o) || is(o.St, isNilT(n), true) || is(o.St, isNilT(fld(n, "Node")), true) ||
		is(o.St, en, false) && is(o.St, wild, false) && is(o.St, es, false) ||
		is(o.St, isNilT(fld(e, "Object")), true) || is(o.St, isNilT(e), true) ||
		relDefined(pol, fld(e, "Object", "Resource"), fld(e, "Relation")).eval(o.ctx()) == tF
	_, tw, _ := m.nodeKinds(fld(goal, "Target"))
	why = why || is(o.St, tw, true)
	for _, rt := range relTerms(o.St, pol, fld(e, "Object", "Resource"), fld(e, "Relation")) {
		why = why || m.noExpression(o.St, rt)
	}
	c.req(why, "evaluation fails only if a step does", fname(f), c.fpos(f), "%s", o.brief())
}

func (m *evalModel) noExpression(st *State, rel *Term) bool {
	c := m.c
	e := fld(rel, "RelationExpression", "Expression")
	parsed := mk(OCall, "relation_expression_parser.Parse", 0, nil, nil, nil, nil, c.pay(e, "*domain.RelationExpression_Expr"))
	a, b := isT(e, "*domain.RelationExpression_Expr"), isT(e, "*domain.RelationExpression_Tree")
	return is(st, a, true) && is(st, isNilT(resN(parsed, 1, nil)), false) || is(st, a, false) && is(st, b, false) ||
		is(st, isNilT(fld(rel, "RelationExpression")), true) || is(st, isNilT(e), true)
}

// expressions: the expression tree of the relation that entity set e names.
func (m *evalModel) expressions(st *State, pol, e *Term) []*Term {
	c := m.c
	var out []*Term
	for _, rt := range relTerms(st, pol, fld(e, "Object", "Resource"), fld(e, "Relation")) {
		x := fld(rt, "RelationExpression", "Expression")
		parsed := mk(OCall, "relation_expression_parser.Parse", 0, nil, nil, nil, nil, c.pay(x, "*domain.RelationExpression_Expr"))
		if is(st, isT(x, "*domain.RelationExpression_Expr"), true) && is(st, isNilT(resN(parsed, 1, nil)), true) {
			out = append(out, resN(parsed, 0, nil))
		}
		if is(st, isT(x, "*domain.RelationExpression_Tree"), true) {
			out = append(out, c.pay(x, "*domain.RelationExpression_Tree"))
		}
	}
	return out
}

func sameEntity(st *State, a, b *Term) bool {
	if eqUnder(st, a, b) {
		return true
	}
	return eqUnder(st, fld(a, "Resource"), fld(b, "Resource")) && eqUnder(st, fld(a, "Id"), fld(b, "Id"))
}

// isSet: a is the entity set (object of e, relation rel).
func isSet(st *State, a, obj, rel *Term) bool {
	return sameEntity(st, fld(a, "Object"), obj) && eqUnder(st, fld(a, "Relation"), rel)
}

// isBuilt: t is the goal tree of expression x at entity set e. The reason it is not is returned.
func (m *evalModel) isBuilt(k Ctx, t, x, polId, pol, e *Term) string {
	c := m.c
	st := k.st
	t = strip(t)
	if t.Op == ORes && t.S == "0" && t.A[0].Op == OCall && t.A[0].S == "rec:"+m.B.name {
		call := t.A[0]
		var args []*Term
		for _, ev := range k.evs {
			if ev.Kind == "rec" && ev.Res == call {
				args = ev.Args
			}
		}
		if args == nil {
			return "the tree is built elsewhere"
		}
		if args[m.B.tree] != x {
			return "built from another expression"
		}
		if m.B.pol >= 0 && args[m.B.pol] != pol || m.B.pol < 0 && args[m.B.id] != polId {
			return "built for another policy"
		}
		n := args[m.B.node]
		if n != e && !isSet(st, n, fld(e, "Object"), fld(e, "Relation")) {
			return "built for another node"
		}
		return ""
	}
	kind := m.kind(st, t)
	if t.Op == ONew {
		kind = "*" + typeStr(derefType(t.T))
	}
	node := fld(x, "Node")
	if is(st, isT(node, "*domain.RelationExpressionTree_OpNode"), true) {
		op := c.pay(node, "*domain.RelationExpressionTree_OpNode")
		want := ""
		for n, w := range map[string]string{"UNION": tOR, "INTERSECTION": tAND, "DIFFERENCE": tDIFF} {
			if is(st, mkEq(fld(op, "Operator"), cInt(c.enum("domain.Operator_"+n))), true) {
				want = w
			}
		}
		if want == "" {
			return "the operator is not known"
		}
		if kind != want {
			return "the operator becomes " + kind
		}
		var l, r *Term
		if want == tDIFF {
			l, r = fld(t, "Left"), fld(t, "Right")
		} else {
			p := strip(fld(t, "Paths"))
			if p.Op != OLit || len(p.A) != 2 {
				return "the operands are " + p.String()
			}
			l, r = p.A[0], p.A[1]
		}
		a, b := m.isBuilt(k, l, fld(op, "Left"), polId, pol, e), m.isBuilt(k, r, fld(op, "Right"), polId, pol, e)
		if want != tDIFF && (a != "" || b != "") { // commutes
			if m.isBuilt(k, r, fld(op, "Left"), polId, pol, e) == "" && m.isBuilt(k, l, fld(op, "Right"), polId, pol, e) == "" {
				return ""
			}
		}
		if a != "" {
			return "left operand: " + a
		}
		if b != "" {
			return "right operand: " + b
		}
		return ""
	}
	if !is(st, isT(node, "*domain.RelationExpressionTree_Rule"), true) {
		return "the expression is neither operator nor rule"
	}
	if kind != tOR {
		return "a rule becomes " + kind
	}
	rule := fld(c.pay(node, "*domain.RelationExpressionTree_Rule"), "Rule")
	paths := strip(fld(t, "Paths"))
	this, cu, ttu := isT(rule, "*domain.Rule_This"), isT(rule, "*domain.Rule_Cu"), isT(rule, "*domain.Rule_Ttu")
	obj := fld(e, "Object")
	path := func(p *Term) *Term {
		p = strip(p)
		if p.Op != ONew || "*"+typeStr(derefType(p.T)) != tPATH {
			return nil
		}
		return fld(p, "RelationNode")
	}
	switch {
	case is(st, cu, true):
		if paths.Op != OLit || len(paths.A) != 1 {
			return "a computed userset yields " + paths.String()
		}
		n := path(paths.A[0])
		tgt := fld(c.pay(rule, "*domain.Rule_Cu"), "TargetRelation")
		if n == nil || isT(fld(n, "Node"), "*domain.RelationNode_EntitySet") != tTrue || !isSet(st, m.entitySet(n), obj, tgt) {
			return "a computed userset yields " + paths.String()
		}
		return ""
	case is(st, this, true), is(st, ttu, true):
		rel := fld(e, "Relation")
		if is(st, ttu, true) {
			rel = fld(c.pay(rule, "*domain.Rule_Ttu"), "TuplesetRelation")
		}
		calls := calls(k.evs, getSucc)
		if len(calls) != 1 {
			return "the subjects are not read once"
		}
		g := calls[0]
		if g.Args[2] != polId || g.Args[3] != e && !isSet(st, g.Args[3], obj, rel) || is(st, ttu, true) && g.Args[3] == e {
			return "the subjects of another node are read"
		}
		subs := resN(g.Res, 0, nil)
		if paths == subs {
			return "not goal trees"
		}
		if paths.Op != OColl || paths.L.Domain != subs || paths.L.cases == nil {
			return "the nodes are not those of the subjects: " + paths.String()
		}
		el := elemOf(paths.L, subs)
		for _, cs := range paths.L.cases {
			it := cs.Items[paths.S]
			if len(it) != 1 {
				return "a subject yields other than one node"
			}
			n := path(it[0])
			if n == nil {
				return "a subject yields " + it[0].String()
			}
			if is(st, this, true) {
				fit := n == el
				for _, el := range elemsIn(n, subs) {
					fit = fit || n == el || sameRN(cs.St, n, el)
				}
				if !fit {
					return "a subject yields " + n.String()
				}
				continue
			}
			if isT(fld(n, "Node"), "*domain.RelationNode_EntitySet") != tTrue {
				return "a subject yields " + n.String()
			}
			s := m.entitySet(n)
			if !eqUnder(cs.St, fld(s, "Relation"), fld(c.pay(rule, "*domain.Rule_Ttu"), "ComputedUsersetRelation")) {
				return "another relation is computed"
			}
			fit := false
			for _, el := range elemsIn(n, subs) {
				en, _, es := m.nodeKinds(el)
				var o *Term
				switch {
				case is(cs.St, en, true):
					o = fld(c.pay(fld(el, "Node"), "*domain.RelationNode_Entity"), "Object")
				case is(cs.St, es, true):
					o = fld(m.entitySet(el), "Object")
				default:
					continue
				}
				fit = fit || sameEntity(cs.St, fld(s, "Object"), o)
			}
			if !fit {
				return "another object is used"
			}
		}
		if !exhaustedBy(k.evs, paths.L) {
			return "not every subject is used"
		}
		return ""
	}
	return "the rule is not known"
}

// elemsIn lists the generic elements of d that occur in t.
func elemsIn(t, d *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	t.has(func(x *Term) bool {
		if x.Op == OElem && x.A[0] == d && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return false
	})
	return out
}

func sameRN(st *State, a, b *Term) bool { return eqUnder(st, fld(a, "Node"), fld(b, "Node")) }

// exhaustedBy: the loop that collects ran to its end.
func exhaustedBy(evs []*Event, l *Loop) bool {
	for _, ev := range evs {
		if ev.Kind == "loop" && (ev.Loop.L == l || ev.Loop.L.Domain == l.Domain) && !ev.Loop.Exhausted {
			return false
		}
	}
	return true
}

func (m *evalModel) checkBuild() {
	c, h := m.c, m.B
	args := symArgs(h.f)
	x, e := args[h.tree], args[h.node]
	var pol, id *Term
	if h.pol >= 0 {
		pol = args[h.pol]
		id = fld(pol, "Id")
	} else {
		id = args[h.id]
	}
	for _, o := range c.run(h.f, m.cfg, args, nil) {
		m.frame(h.f, args, h, o)
		if o.Kind != "return" {
			continue
		}
		pos := c.fpos(h.f)
		node := fld(x, "Node")
		opn := isT(node, "*domain.RelationExpressionTree_OpNode")
		if !o.ok() {
			c.reqp(evSet+evAll, m.buildError(o, x), "evaluation fails only if a step does", h.name, pos, "%s", o.brief())
			continue
		}
		why := m.isBuilt(o.ctx(), o.Rets[0], x, id, pol, e)
		rule := "the rule yields exactly its nodes"
		if is(o.St, opn, true) {
			rule = "the operator combines exactly its operands"
			c.reqp(evRule+evSet+evAll+"C04", why == "", rule, h.name, pos, "%s: %s", why, o.brief())
			for _, ev := range recCalls(o.Evs, m.B) {
				c.reqp(evTerm, strictPart(ev.Args[h.tree], x), "construction recurses into smaller expressions", h.name, c.posOf(ev), "%s", ev.Args[h.tree])
			}
		} else {
			c.reqp(evRule+evAll+"C04", why == "", rule, h.name, pos, "%s: %s", why, o.brief())
		}
		for _, w := range allEvents(o, func(ev *Event) bool { return ev.Kind == "rec" && ev.Name == m.B.name }) {
			c.reqp(evTerm, strictPart(w.ev.Args[h.tree], x), "construction recurses into smaller expressions", h.name, c.posOf(w.ev), "%s", w.ev.Args[h.tree])
		}
	}
}

// strictPart: t is a proper part of x.
func strictPart(t, x *Term) bool { return t != x && t.contains(x) && t.Op != OCall }

func (m *evalModel) buildError(o *Outcome, x *Term) bool {
	c := m.c
	if recFailed(o) || storageFailed(o) {
		return true
	}
	node := fld(x, "Node")
	a, b := isT(node, "*domain.RelationExpressionTree_OpNode"), isT(node, "*domain.RelationExpressionTree_Rule")
	if is(o.St, isNilT(x), true) || is(o.St, isNilT(node), true) || is(o.St, a, false) && is(o.St, b, false) {
		return true
	}
	if is(o.St, a, true) {
		op := c.pay(node, "*domain.RelationExpressionTree_OpNode")
		if is(o.St, isNilT(op), true) {
			return true
		}
		for _, n := range []string{"UNION", "INTERSECTION", "DIFFERENCE"} {
			if !is(o.St, mkEq(fld(op, "Operator"), cInt(c.enum("domain.Operator_"+n))), false) {
				return false
			}
		}
		return true
	}
	p := c.pay(node, "*domain.RelationExpressionTree_Rule")
	rule := fld(p, "Rule")
	if is(o.St, isNilT(p), true) || is(o.St, isNilT(rule), true) {
		return true
	}
	known := false
	for _, k := range []string{"This", "Cu", "Ttu"} {
		if !is(o.St, isT(rule, "*domain.Rule_"+k), false) {
			known = true
		}
	}
	if !known {
		return true
	}
	// a subject of a tuple to userset that names no object
	if is(o.St, isT(rule, "*domain.Rule_Ttu"), true) {
		for _, g := range calls(o.Evs, getSucc) {
			subs := resN(g.Res, 0, nil)
			for _, l := range loopsOver(o.Evs, subs) {
				en, _, es := m.nodeKinds(elemOf(l.Loop.L, subs))
				if !l.Loop.Exhausted && is(o.St, en, false) && is(o.St, es, false) {
					return true
				}
				nilNode := isNilT(fld(elemOf(l.Loop.L, subs), "Node"))
				if !l.Loop.Exhausted && is(o.St, nilNode, true) {
					return true
				}
			}
		}
	}
	return false
}

func (m *evalModel) checkEntry() {
	c := m.c
	f := m.search
	h := c.newHead(f, "*domain.RelationNode")
	if !c.req(h.pol >= 0 && h.goal >= 0 && h.tree >= 0 && h.recv == 0, "anchor", searchFn, c.fpos(f), "unexpected parameters %s", f.Signature) {
		return
	}
	args := symArgs(f)
	for _, o := range c.run(f, m.cfg, args, nil) {
		m.frame(f, args, h, o)
		if o.Kind != "return" {
			continue
		}
		if !o.ok() {
			m.pathError(f, o, args[h.pol], args[h.tree], args[h.goal])
			c.reqp("C04", o.Rets[0] == tNil, "no tree is returned along with an error", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		m.path(f, o, args[0], args[h.pol], args[h.tree], args[h.goal])
	}
}

var _ = types.Typ
