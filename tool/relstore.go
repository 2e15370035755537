package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The model of how relationships are stored, taken from SetRelationship and
// then required of every other method of the repositories.

const (
	kEntity   = "entity"
	kSet      = "entity set"
	kWildcard = "wildcard"
)

var kinds = []string{kEntity, kSet, kWildcard}

var subjType = map[string]string{kEntity: "*domain.Subject_Entity", kSet: "*domain.Subject_EntitySet", kWildcard: "*domain.Subject_ResourceSet"}
var nodeType = map[string]string{kEntity: "*domain.RelationNode_Entity", kSet: "*domain.RelationNode_EntitySet", kWildcard: "*domain.RelationNode_Wildcard"}

// node is what identifies a node: kind, resource and, unless it is a wildcard, id and relation.
type node struct {
	kind         string
	res, id, rel *Term
}

func (n node) String() string { return fmt.Sprintf("%s %s:%s#%s", n.kind, n.res, n.id, n.rel) }

// subjectNode is the node a public subject of the given kind stands for.
func (c *Check) subjectNode(subj *Term, kind string) node {
	p := c.pay(fld(subj, "Subject"), subjType[kind])
	switch kind {
	case kEntity:
		return node{kind, fld(p, "Resource"), fld(p, "Id"), nil}
	case kSet:
		return node{kind, fld(p, "Entity", "Resource"), fld(p, "Entity", "Id"), fld(p, "Relation")}
	}
	return node{kind, fld(p, "ResourceName"), nil, nil}
}

// publicNode is the node a public relation node of the given kind stands for.
func (c *Check) publicNode(n *Term, kind string) node {
	p := c.pay(fld(n, "Node"), nodeType[kind])
	switch kind {
	case kEntity:
		return node{kind, fld(p, "Object", "Resource"), fld(p, "Object", "Id"), nil}
	case kSet:
		return node{kind, fld(p, "Object", "Resource"), fld(p, "Object", "Id"), fld(p, "Relation")}
	}
	return node{kind, fld(p, "Resource"), nil, nil}
}

// objectNode is the node of a relationship's object and relation.
func objectNode(rel *Term) node {
	return node{kSet, fld(rel, "Object", "Resource"), fld(rel, "Object", "Id"), fld(rel, "Relation")}
}

// storedNode is the node that an internal node of the given kind stands for.
func storedNode(n *Term, kind string) node {
	switch kind {
	case kEntity:
		return node{kind, fld(n, "Resource"), fld(n, "Id"), nil}
	case kSet:
		return node{kind, fld(n, "Resource"), fld(n, "Id"), fld(n, "Relation")}
	}
	return node{kind, fld(n, "Resource"), nil, nil}
}

func sameNode(st *State, a, b node) bool {
	eq := func(x, y *Term) bool {
		if x == nil || y == nil {
			return x == y
		}
		return eqUnder(st, x, y)
	}
	return a.kind == b.kind && eq(a.res, b.res) && eq(a.id, b.id) && eq(a.rel, b.rel)
}

type relModel struct {
	graph, data *access
	tag         map[string]*Term // the type constant of every kind
	fill        map[string]*Term // what is stored in the parts a kind does not have
}

var tPid = in("!policyId", nil)

// at: the access with its policy id abstracted.
func (a access) at(pid *Term) access {
	var p []*Term
	for _, x := range a.prefix {
		p = append(p, x.subst(sub1(pid, tPid)))
	}
	a.prefix = p
	return a
}

// kindOf is the kind of a public subject that is established in a state ("" if none).
func kindOf(st *State, subj *Term) string {
	for _, k := range kinds {
		if is(st, isT(fld(subj, "Subject"), subjType[k]), true) {
			return k
		}
	}
	return ""
}

// storedKind is the kind of an internal node that is established in a state.
func (m *relModel) storedKind(st *State, n *Term) string {
	t := fld(n, "Type")
	for _, k := range kinds {
		if m.tag[k] != nil && (t == m.tag[k] || is(st, mkEq(t, m.tag[k]), true)) {
			return k
		}
	}
	return ""
}

// encodes: the internal node is how n is stored.
func (m *relModel) encodes(st *State, t *Term, n node) bool {
	if m.tag[n.kind] == nil || !eqUnder(st, fld(t, "Type"), m.tag[n.kind]) {
		return false
	}
	if !sameNode(st, storedNode(t, n.kind), n) {
		return false
	}
	// parts a kind does not have are always stored the same, or else one node had several keys
	for _, p := range unused[n.kind] {
		if m.fill[n.kind+p] == nil || !eqUnder(st, fld(t, p), m.fill[n.kind+p]) {
			return false
		}
	}
	return true
}

var unused = map[string][]string{kEntity: {"Relation"}, kWildcard: {"Relation", "Id"}}

// edge: the internal relationship is how the public one is stored.
func (c *Check) edge(m *relModel, st *State, e, rel *Term, kind string) bool {
	return m.encodes(st, fld(e, "Source"), objectNode(rel)) && m.encodes(st, fld(e, "Dest"), c.subjectNode(fld(rel, "Subject"), kind))
}

// decodedSubject: subj is the subject that the stored node n of the given kind stands for.
func (c *Check) decodedSubject(st *State, subj, n *Term, kind string) bool {
	return isT(fld(subj, "Subject"), subjType[kind]) == tTrue && sameNode(st, c.subjectNode(subj, kind), storedNode(n, kind))
}

func (c *Check) decodedNode(st *State, t, n *Term, kind string) bool {
	return isT(fld(t, "Node"), nodeType[kind]) == tTrue && sameNode(st, c.publicNode(t, kind), storedNode(n, kind))
}

// decodedRel: rel is the public form of the stored relationship x.
func (c *Check) decodedRel(m *relModel, st *State, rel, x *Term, kind string) bool {
	return sameNode(st, objectNode(rel), storedNode(fld(x, "Source"), kSet)) && c.decodedSubject(st, fld(rel, "Subject"), fld(x, "Dest"), kind)
}

// idOf: the term is the identity of an edge for which same holds.
func idOf(t *Term, same func(e *Term) bool) bool {
	t = strip(t)
	if t.Op != OCall || !strings.HasSuffix(t.S, "rcdb.Ider.Id") && !strings.HasSuffix(t.S, ").Id") || len(t.A) != 2 {
		return false
	}
	return idKeyer(t) != nil && same(t.A[1])
}

// idKeyer is the keyer of the nodes that make up an identity.
func idKeyer(t *Term) *Term {
	t = strip(t)
	i := strip(t.A[0])
	if i.Op == OCall && strings.HasSuffix(i.S, "rcdb.IderFromNodeKeyer") {
		return i.A[0]
	}
	return nil
}

// relStore derives the model from SetRelationship and checks that method.
func (c *Check) relStore() *relModel {
	m, f, rec, outs := c.relForm()
	if m != nil {
		c.storedRecord(m, f, rec, outs)
	}
	return m
}

// relForm derives how relationships are represented in storage.
func (c *Check) relForm() (*relModel, *ssa.Function, *Term, []*Outcome) {
	f, args, outs := c.repoRun("SetRelationship", stdConfig())
	if f == nil {
		return nil, nil, nil, nil
	}
	m := &relModel{tag: map[string]*Term{}, fill: map[string]*Term{}}
	rec := args[2]
	rel, pid := fld(rec, "Relationship"), fld(rec, "PolicyId")
	// the representation
	for _, o := range outs {
		k := kindOf(o.St, fld(rel, "Subject"))
		if !o.ok() || k == "" {
			continue
		}
		for _, a := range accesses(o) {
			if !a.write {
				continue
			}
			b := a.at(pid)
			switch {
			case a.kind == "graph" && a.op == "Set":
				t := fld(strip(a.ev.Args[1]), "Dest", "Type")
				if _, ok := t.intVal(); ok && m.tag[k] == nil {
					m.tag[k] = t
				}
				for _, p := range unused[k] {
					if v := fld(strip(a.ev.Args[1]), "Dest", p); v.Op == OConst && m.fill[k+p] == nil {
						m.fill[k+p] = v
					}
				}
				if m.graph == nil {
					m.graph = &b
				}
			case a.kind == "object" && a.op == "SetObject":
				if m.data == nil {
					m.data = &b
				}
			}
		}
	}
	ok := m.graph != nil && m.data != nil && len(m.tag) == 3 && m.tag[kEntity] != m.tag[kSet] && m.tag[kSet] != m.tag[kWildcard] && m.tag[kEntity] != m.tag[kWildcard]
	if !c.req(ok, "kinds of subjects are stored as different constants", fname(f), c.fpos(f), "%v", m.tag) {
		return nil, nil, nil, nil
	}
	return m, f, rec, outs
}

// existence: b is true exactly if the relationship for which same holds exists, by a read before ev.
func (c *Check) existence(m *relModel, o *Outcome, pid, b *Term, until *Event, same func(src, dst *Term) bool) bool {
	for _, a := range accesses(o) {
		if a.write || len(a.w.in) > 0 || !noErr(o.St, a.ev) || until != nil && !before(o.Evs, a.ev, until) {
			continue
		}
		x := a.at(pid)
		r := resN(a.ev.Res, 0, nil)
		switch {
		case a.op == "Get" && x.sameSpace(*m.graph) && same(a.ev.Args[1], a.ev.Args[2]),
			a.op == "GetObject" && x.sameSpace(*m.data) && idOf(a.ev.Args[1], func(e *Term) bool { return same(fld(e, "Source"), fld(e, "Dest")) }):
			for f := range o.St.facts {
				if isEmptyCall(f, r) && agreeBool(o.St, f, b, false) {
					return true
				}
			}
			var e *Term
			b.has(func(t *Term) bool {
				if isEmptyCall(t, r) {
					e = t
				}
				return false
			})
			if e != nil && agreeBool(o.St, e, b, false) {
				return true
			}
		case a.op == "HasById" && x.sameSpace(*m.data) && idOf(a.ev.Args[1], func(e *Term) bool { return same(fld(e, "Source"), fld(e, "Dest")) }):
			if agreeBool(o.St, r, b, true) {
				return true
			}
		}
	}
	return false
}

func isEmptyCall(t, opt *Term) bool {
	return t.Op == OCall && strings.HasSuffix(t.S, "rcdb.Option).IsEmpty") && strip(t.A[0]) == opt
}

// agreeBool: b has the value of cond (or of its negation) in every state compatible with st.
func agreeBool(st *State, cond, b *Term, pos bool) bool {
	b = strip(b)
	n := 0
	for _, v := range []bool{true, false} {
		s := st.clone()
		if !s.assume(cond, v) {
			continue
		}
		n++
		if !is(s, b, v == pos) {
			return false
		}
	}
	return n > 0
}

func (c *Check) storedRecord(m *relModel, f *ssa.Function, rec *Term, outs []*Outcome) {
	rel, pid := fld(rec, "Relationship"), fld(rec, "PolicyId")
	for _, o := range outs {
		k := kindOf(o.St, fld(rel, "Subject"))
		if !o.ok() {
			if o.Kind == "return" {
				c.reqp("C15 C16", storageFailed(o) || k == "", "setting a complete relationship fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			}
			continue
		}
		if k == "" {
			continue
		}
		same := func(e *Term) bool { return c.edge(m, o.St, e, rel, k) }
		nodes := func(s, d *Term) bool {
			return m.encodes(o.St, s, objectNode(rel)) && m.encodes(o.St, d, c.subjectNode(fld(rel, "Subject"), k))
		}
		var set, obj *access
		only := true
		for _, a := range accesses(o) {
			a := a
			if !a.write {
				continue
			}
			x := a.at(pid)
			switch {
			case a.kind == "graph" && a.op == "Set" && set == nil && len(a.w.in) == 0:
				set = &a
				c.req(x.sameSpace(*m.graph) && same(strip(a.ev.Args[1])) && noErr(o.St, a.ev), "the edge that is stored is the relationship", fname(f), c.posOf(a.ev), "for an %s the edge %s", k, a.ev.Args[1])
			case a.kind == "object" && a.op == "SetObject" && obj == nil && len(a.w.in) == 0:
				obj = &a
				d := strip(a.ev.Args[1])
				key := c.iderKey(a, d)
				c.req(x.sameSpace(*m.data) && idOf(key, same) && noErr(o.St, a.ev), "the record is stored under the identity of the edge", fname(f), c.posOf(a.ev), "%s", key)
				c.reqp("C15", fld(d, "AppData") == fld(rec, "AppData") && fld(d, "CreatedAt") == fld(rec, "CreatedAt"), "the record holds the application data and creation time", fname(f), c.posOf(a.ev), "%s", d)
			default:
				only = false
				c.reqp("C16", false, "nothing else is written", fname(f), c.posOf(a.ev), "%s", a)
			}
		}
		c.req(set != nil && obj != nil && only, "setting writes the edge and the record", fname(f), c.fpos(f), "%s", o.brief())
		if set != nil {
			c.reqp("C16", c.existence(m, o, pid, o.Rets[0], set.ev, nodes), "an overwrite is reported exactly if the relationship existed", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("setting writes the edge and the record", 3)
	c.min("the record is stored under the identity of the edge", 3)
}

// removed: on outcome o the relationship was removed: both of its parts, and nothing else.
func (c *Check) deletions(m *relModel) {
	f, args, outs := c.repoRun("DeleteRelationship", stdConfig())
	if f == nil {
		return
	}
	pid, rel := args[2], args[3]
	for _, o := range outs {
		k := kindOf(o.St, fld(rel, "Subject"))
		if o.Kind == "return" && !o.ok() {
			c.req(storageFailed(o) || k == "", "deleting a complete relationship fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
		}
		if k == "" || o.Kind != "return" {
			continue
		}
		same := func(e *Term) bool { return c.edge(m, o.St, e, rel, k) }
		nodes := func(s, d *Term) bool {
			return m.encodes(o.St, s, objectNode(rel)) && m.encodes(o.St, d, c.subjectNode(fld(rel, "Subject"), k))
		}
		var first *Event
		edge, rec := false, false
		for _, a := range accesses(o) {
			if !a.write {
				continue
			}
			if first == nil {
				first = a.ev
			}
			w := c.deleteOf(m, a, pid, same)
			c.req(w != "" && len(a.w.in) == 0, "only that relationship is deleted", fname(f), c.posOf(a.ev), "%s %s", a, a.ev.Args)
			if noErr(o.St, a.ev) {
				edge, rec = edge || w == "edge", rec || w == "record"
			}
		}
		if !o.ok() {
			continue
		}
		absent := is(o.St, strip(o.Rets[0]), false) && c.existence(m, o, pid, o.Rets[0], nil, nodes)
		c.req(edge && rec || absent, "deleting removes the edge and the record", fname(f), c.fpos(f), "%s", o.brief())
		c.req(c.existence(m, o, pid, o.Rets[0], first, nodes), "found is reported exactly if the relationship existed", fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min("deleting removes the edge and the record", 3)
	c.min("found is reported exactly if the relationship existed", 3)
}

// deleteOf tells which part of the relationship an access deletes.
func (c *Check) deleteOf(m *relModel, a access, pid *Term, same func(e *Term) bool) string {
	x := a.at(pid)
	switch {
	case a.kind == "graph" && a.op == "Delete" && x.sameSpace(*m.graph) && same(strip(a.ev.Args[1])):
		return "edge"
	case a.kind == "object" && a.op == "DeleteById" && x.sameSpace(*m.data) && idOf(a.ev.Args[1], same):
		return "record"
	case a.kind == "object" && a.op == "Delete" && x.sameSpace(*m.data) && idOf(c.iderKey(a, strip(a.ev.Args[1])), same):
		return "record"
	}
	return ""
}

// ---- reading ----

// getRecord: GetRelationship returns what is stored for exactly that relationship.
func (c *Check) getRecord(m *relModel) {
	f, args, outs := c.repoRun("GetRelationship", stdConfig())
	if f == nil {
		return
	}
	pid, rel := args[2], args[3]
	for _, o := range outs {
		k := kindOf(o.St, fld(rel, "Subject"))
		if o.Kind != "return" || k == "" {
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "getting a relationship fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		ok := c.recordResult(m, o.Evs, o.St, pid, o.Rets[0], func(e *Term) bool { return c.edge(m, o.St, e, rel, k) }, func(r *Term) bool {
			return sameNode(o.St, objectNode(r), objectNode(rel)) && (r == rel || subjIs(o.St, fld(r, "Subject"), k) && sameNode(o.St, c.subjectNode(fld(r, "Subject"), k), c.subjectNode(fld(rel, "Subject"), k)))
		})
		c.req(ok, "a relationship is returned as it was stored", fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min("a relationship is returned as it was stored", 6)
}

func subjIs(st *State, subj *Term, k string) bool {
	return is(st, isT(fld(subj, "Subject"), subjType[k]), true)
}

// recordResult: r is the record stored for an edge, or nil if there is none.
func (c *Check) recordResult(m *relModel, evs []*Event, st *State, pid, r *Term, same func(e *Term) bool, isRel func(r *Term) bool) bool {
	for _, a := range accesses(&Outcome{Evs: evs, St: st}) {
		if a.op != "GetObject" || !a.at(pid).sameSpace(*m.data) || !noErr(st, a.ev) || !idOf(a.ev.Args[1], same) {
			continue
		}
		opt := resN(a.ev.Res, 0, nil)
		empty, known := optEmpty(st, opt)
		if !known {
			continue
		}
		if empty {
			if r == tNil {
				return true
			}
			continue
		}
		if r == tNil {
			continue
		}
		at, ad := fld(r, "CreatedAt"), fld(r, "AppData")
		if at.Op == OFld && at.S == "CreatedAt" && isOptValue(at.A[0], opt) && ad.Op == OFld && ad.S == "AppData" && isOptValue(ad.A[0], opt) &&
			eqUnder(st, fld(r, "PolicyId"), pid) && isRel(fld(r, "Relationship")) {
			return true
		}
	}
	return false
}

// stored elements of a sequence that storage returned
func elemsOf(t *Term, d *Term, out map[*Term]bool) {
	t.has(func(x *Term) bool {
		if x.Op == OElem && x.A[0] == d {
			out[x] = true
		}
		return false
	})
}

// caseElem is the element of d that an iteration is about.
func caseElem(cs *Case, l *Loop, d *Term) *Term {
	s := map[*Term]bool{}
	for f := range cs.Facts {
		elemsOf(f, d, s)
	}
	for _, is := range cs.Items {
		for _, i := range is {
			elemsOf(i, d, s)
		}
	}
	if len(s) == 1 {
		for x := range s {
			return x
		}
	}
	if len(s) == 0 && l.Domain == d {
		return elemOf(l, d)
	}
	return nil
}

// pipeline: coll holds, for every element x of d in order, exactly item(x)
// if keep(x) and nothing otherwise. Both are asked in the state of the
// iteration; skip tells which elements cannot be there.
type pipeline struct {
	d    *Term
	keep func(c Ctx, x *Term) tri
	item func(c Ctx, cs *Case, x, item *Term) bool
	skip func(c Ctx, x *Term) bool
	cnt  bool // only how many there are matters
	some bool // which ones there are does not matter
}

// check returns "" or what is wrong.
func (p pipeline) check(o *Outcome, coll *Term) string {
	coll = strip(coll)
	for p.some && coll.Op == OSlice {
		coll = strip(coll.A[0])
	}
	if p.some && (coll.Op == OLit && len(coll.A) == 0 || coll == tNil) {
		return ""
	}
	if coll.Op == OLit && len(coll.A) == 0 || coll == tNil {
		// empty: nothing is kept, or there is nothing
		if is(o.St, mkEq(mkLen(p.d), cInt(0)), true) {
			return ""
		}
		for _, ev := range loopsOver(o.Evs, p.d) {
			if ev.Loop.Exhausted {
				for _, cs := range ev.Loop.All {
					x := caseElem(cs, ev.Loop.L, p.d)
					if x == nil || !(p.skip != nil && p.skip(cs.ctx(), x)) && p.keep(cs.ctx(), x) != tF {
						return "elements are left out: " + cs.brief()
					}
				}
				return ""
			}
		}
		if p.keep(o.ctx(), mk(OElem, "", 0, &Loop{ID: 0}, nil, nil, nil, p.d)) == tF {
			return ""
		}
		return "nothing is returned"
	}
	if coll == p.d {
		x := mk(OElem, "", 0, &Loop{ID: 0}, nil, nil, nil, p.d)
		if p.keep(o.ctx(), x) == tT && (p.cnt || p.item(o.ctx(), nil, x, x)) {
			return ""
		}
		return "all elements are returned"
	}
	if coll.Op != OColl || coll.L == nil {
		return "not a sequence built from the stored elements: " + coll.String()
	}
	info := collInfo(coll)
	if info == nil || !info.Exhausted && !p.some {
		return "the loop may end before all elements were visited"
	}
	if d := coll.L.Domain; d != p.d {
		if d == nil {
			return "the loop does not visit the stored elements"
		}
		// what the earlier loop left out must not be kept
		q := p
		q.cnt = true
		if e := q.check(o, d); e != "" {
			return "an earlier loop: " + e
		}
	}
	if len(info.All) == 0 {
		return "no iteration"
	}
	for _, cs := range info.All {
		x := caseElem(cs, coll.L, p.d)
		if x == nil {
			return "an iteration is not about one element: " + cs.brief()
		}
		ctx := cs.ctx()
		if p.skip != nil && p.skip(ctx, x) {
			continue
		}
		items := cs.Items[coll.S]
		switch k := p.keep(ctx, x); {
		case len(items) == 0 && k != tF && !p.some:
			return "an element may be left out: " + cs.brief()
		case len(items) > 1:
			return "an element yields several: " + cs.brief()
		case len(items) == 1 && k != tT && !p.some:
			return "an element may be returned that should not be: " + cs.brief()
		case len(items) == 1 && !p.cnt && !p.item(ctx, cs, x, items[0]):
			return "an element is not returned as it is stored: " + items[0].String() + " " + cs.brief()
		}
	}
	return ""
}

func (cs *Case) brief() string {
	fs := sortedFacts(cs.Facts)
	s := strings.Join(fs, "; ")
	if len(s) > 900 {
		s = s[:900] + "…"
	}
	return "when " + s
}

// impossible: no stored relationship has a subject of another kind than the three, or an object that is no entity set.
func (m *relModel) impossible(c Ctx, x *Term) bool {
	known := func(n *Term) (any, none bool) {
		none = true
		for _, k := range kinds {
			v, ok := c.st.decide(mkEq(fld(n, "Type"), m.tag[k]))
			if ok && v {
				return true, false
			}
			none = none && ok
		}
		return false, none
	}
	_, none := known(fld(x, "Dest"))
	if none || is(c.st, mkEq(fld(x, "Source", "Type"), m.tag[kSet]), false) {
		return true
	}
	for _, t := range []*Term{x, fld(x, "Dest"), fld(x, "Source")} {
		if is(c.st, isNilT(t), true) {
			return true
		}
	}
	return false
}

// absent: x cannot be there: no such stored relationship exists, or it was looked up (before anything was
// written) and not found although it is listed.
func (c *Check) absent(m *relModel, pid *Term) func(cx Ctx, x *Term) bool {
	return func(cx Ctx, x *Term) bool {
		if m.impossible(cx, x) {
			return true
		}
		for _, a := range accesses(&Outcome{Evs: cx.evs, St: cx.st}) {
			if a.write {
				break
			}
			if len(a.w.in) > 0 || a.op != "Get" || !noErr(cx.st, a.ev) || !a.at(pid).sameSpace(*m.graph) {
				continue
			}
			e := a.ev
			if !c.sameEdge(m, cx.st, x, e.Args[1], e.Args[2]) {
				continue
			}
			r := resN(e.Res, 0, nil)
			for f := range cx.st.facts {
				if isEmptyCall(f, r) && is(cx.st, f, true) {
					return true
				}
			}
		}
		return false
	}
}

// successors: GetSucessors returns the subject of every stored relationship of that object and relation.
func (c *Check) successors(m *relModel) {
	f, args, outs := c.repoRun("GetSucessors", stdConfig())
	if f == nil {
		return
	}
	pid, n := args[2], args[3]
	want := node{kSet, fld(n, "Object", "Resource"), fld(n, "Object", "Id"), fld(n, "Relation")}
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "reading successors fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		var d *Term
		as := accesses(o)
		for _, a := range as {
			if a.op == "GetSucessors" && a.at(pid).sameSpace(*m.graph) && m.encodes(o.St, strip(a.ev.Args[1]), want) && noErr(o.St, a.ev) && len(a.w.in) == 0 {
				d = resN(a.ev.Res, 0, nil)
			}
		}
		if !c.req(d != nil && len(as) == 1, "successors are read for that node of that policy", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		d = typed(o, d)
		p := pipeline{d: d, skip: m.impossible,
			keep: func(Ctx, *Term) tri { return tT },
			item: func(cx Ctx, cs *Case, x, item *Term) bool {
				k := m.storedKind(cx.st, fld(x, "Dest"))
				return k != "" && c.decodedNode(cx.st, item, fld(x, "Dest"), k)
			}}
		e := p.check(o, o.Rets[0])
		c.req(e == "", "successors are the stored subjects", fname(f), c.fpos(f), "%s: %s", e, o.brief())
	}
	c.min("successors are the stored subjects", 1)
}

// typed finds the result term as it occurs in an outcome (result terms carry types).
func typed(o *Outcome, d *Term) *Term { return d }

// edges: ListEdges returns both ends of every stored relationship.
func (c *Check) edges(m *relModel) {
	f, args, outs := c.repoRun("ListEdges", stdConfig())
	if f == nil {
		return
	}
	pid := args[2]
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "listing edges fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		d := c.listed(m, o, pid)
		if !c.req(d != nil, "all relationships of that policy are listed", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		p := pipeline{d: d, skip: m.impossible,
			keep: func(Ctx, *Term) tri { return tT },
			item: func(cx Ctx, cs *Case, x, item *Term) bool {
				k := m.storedKind(cx.st, fld(x, "Dest"))
				return k != "" && c.decodedNode(cx.st, fld(item, "first"), fld(x, "Source"), kSet) && c.decodedNode(cx.st, fld(item, "second"), fld(x, "Dest"), k)
			}}
		e := p.check(o, o.Rets[0])
		c.req(e == "", "edges are the stored relationships", fname(f), c.fpos(f), "%s: %s", e, o.brief())
	}
	c.min("edges are the stored relationships", 1)
}

// listed is the list of all relationships of the policy that an outcome read.
func (c *Check) listed(m *relModel, o *Outcome, pid *Term) *Term {
	for _, a := range accesses(o) {
		if a.op == "List" && a.at(pid).sameSpace(*m.graph) && noErr(o.St, a.ev) && len(a.w.in) == 0 {
			return resN(a.ev.Res, 0, nil)
		}
	}
	return nil
}
