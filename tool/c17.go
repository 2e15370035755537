package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Selection analysis: in FindRelationships, FindRelationshipRecords and DeleteRelationships the sequence of results (or deletions) is followed back, through every loop, to the list of all relationships of the policy; for every variant of each of the three selector parts it is shown that an element is kept exactly if all three parts match it, that it is returned as stored (or that both of its parts are deleted, and nothing else), and that the count equals the number of kept elements. Selectors are accepted by the service exactly if the names they use are defined; missing parts are errors.", checkC17)
}

const (
	objSpecT  = "*domain.ObjectSelector_ObjectSpec"
	objResT   = "*domain.ObjectSelector_ResourceSpec"
	objAnyT   = "*domain.ObjectSelector_Wildcard"
	relNameT  = "*domain.RelationSelector_RelationName"
	relAnyT   = "*domain.RelationSelector_Wildcard"
	subjSpecT = "*domain.SubjectSelector_SubjectSpec"
	subjResT  = "*domain.SubjectSelector_ResourceSpec"
	subjAnyT  = "*domain.SubjectSelector_Wildcard"
)

func selParts(sel *Term) (obj, rel, subj *Term) {
	return fld(sel, "ObjectSelector", "Selector"), fld(sel, "RelationSelector", "Selector"), fld(sel, "SubjectSelector", "Selector")
}

func hasVariant(st *State, t *Term, tys ...string) bool {
	for _, ty := range tys {
		if is(st, isT(t, ty), true) {
			return true
		}
	}
	return false
}

// noPart: the part of the selector is known to be missing.
func noPart(st *State, sel *Term, part string, tys ...string) bool {
	p := fld(sel, part)
	s := fld(p, "Selector")
	for _, t := range []*Term{sel, p, s} {
		if is(st, isNilT(t), true) {
			return true
		}
	}
	for _, ty := range tys {
		if !is(st, isT(s, ty), false) {
			return false
		}
	}
	return true
}

func partMissing(st *State, sel *Term) bool {
	return noPart(st, sel, "ObjectSelector", objSpecT, objResT, objAnyT) || noPart(st, sel, "RelationSelector", relNameT, relAnyT) || noPart(st, sel, "SubjectSelector", subjSpecT, subjResT, subjAnyT)
}

func partsGiven(st *State, sel *Term) bool {
	o, r, s := selParts(sel)
	return hasVariant(st, o, objSpecT, objResT, objAnyT) && hasVariant(st, r, relNameT, relAnyT) && hasVariant(st, s, subjSpecT, subjResT, subjAnyT)
}

// deepEqual looks for a comparison of two whole messages among the facts.
func (c *Check) deepEqual(st *State, match func(a, b *Term) bool) tri {
	for f, v := range st.facts {
		if f.Op != OCall || len(f.A) != 2 || f.S != "reflect.DeepEqual" && !strings.HasSuffix(f.S, "proto.Equal") {
			continue
		}
		a, b := strip(f.A[0]), strip(f.A[1])
		if match(a, b) || match(b, a) {
			return boolTri(v, true)
		}
	}
	return tU
}

// matches: the selector selects the stored relationship x.
func (c *Check) matches(m *relModel, sel *Term) func(cx Ctx, x *Term) tri {
	o, r, s := selParts(sel)
	return func(cx Ctx, x *Term) tri {
		st := cx.st
		src, dst := fld(x, "Source"), fld(x, "Dest")
		objF := Formula{"object", func(cx Ctx) tri {
			switch {
			case hasVariant(st, o, objAnyT):
				return tT
			case hasVariant(st, o, objResT):
				return atom(mkEq(fld(src, "Resource"), c.pay(o, objResT))).eval(cx)
			case hasVariant(st, o, objSpecT):
				e := c.pay(o, objSpecT)
				if v := c.deepEqual(st, func(a, b *Term) bool {
					return a == e && eqUnder(st, fld(b, "Resource"), fld(src, "Resource")) && eqUnder(st, fld(b, "Id"), fld(src, "Id"))
				}); v != tU {
					return v
				}
				return fand(atom(mkEq(fld(src, "Resource"), fld(e, "Resource"))), atom(mkEq(fld(src, "Id"), fld(e, "Id")))).eval(cx)
			}
			return tU
		}}
		relF := Formula{"relation", func(cx Ctx) tri {
			switch {
			case hasVariant(st, r, relAnyT):
				return tT
			case hasVariant(st, r, relNameT):
				return atom(mkEq(fld(src, "Relation"), c.pay(r, relNameT))).eval(cx)
			}
			return tU
		}}
		subjF := Formula{"subject", func(cx Ctx) tri {
			switch {
			case hasVariant(st, s, subjAnyT):
				return tT
			case hasVariant(st, s, subjResT):
				return atom(mkEq(fld(dst, "Resource"), c.pay(s, subjResT))).eval(cx)
			case hasVariant(st, s, subjSpecT):
				k := m.storedKind(st, dst)
				if k == "" {
					return tU
				}
				e := c.pay(s, subjSpecT)
				if v := c.deepEqual(st, func(a, b *Term) bool { return a == e && c.decodedSubject(st, b, dst, k) }); v != tU {
					return v
				}
				fs := []Formula{atom(isT(fld(e, "Subject"), subjType[k]))}
				n, w := c.subjectNode(e, k), storedNode(dst, k)
				fs = append(fs, atom(mkEq(n.res, w.res)))
				if n.id != nil {
					fs = append(fs, atom(mkEq(n.id, w.id)))
				}
				if n.rel != nil {
					fs = append(fs, atom(mkEq(n.rel, w.rel)))
				}
				return fand(fs...).eval(cx)
			}
			return tU
		}}
		return fand(objF, relF, subjF).eval(Ctx{st, cx.evs})
	}
}

// finds: the two find methods return exactly the relationships that match.
func (c *Check) finds(m *relModel) {
	for _, name := range []string{"FindRelationships", "FindRelationshipRecords"} {
		f, args, outs := c.repoRun(name, stdConfig())
		if f == nil {
			continue
		}
		pid, sel := args[2], args[3]
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			if !o.ok() {
				c.reqp("C17", storageFailed(o) || partMissing(o.St, sel), "finding fails only for a missing part or if storage does", fname(f), c.fpos(f), "%s", o.brief())
				continue
			}
			c.reqp("C17", partsGiven(o.St, sel), "a missing part of the selector is an error", fname(f), c.fpos(f), "%s", o.brief())
			d := c.listed(m, o, pid)
			if !c.req(d != nil, "relationships are searched among all of the policy", fname(f), c.fpos(f), "%s", o.brief()) {
				continue
			}
			p := pipeline{d: d, skip: m.impossible, keep: c.matches(m, sel), some: c.Prop == "C15", item: func(cx Ctx, cs *Case, x, item *Term) bool {
				k := m.storedKind(cx.st, fld(x, "Dest"))
				if k == "" {
					return false
				}
				if name == "FindRelationships" {
					return c.decodedRel(m, cx.st, item, x, k)
				}
				if c.Prop != "C15" && item != tNil { // which ones, not what is in them
					return c.decodedRel(m, cx.st, fld(item, "Relationship"), x, k)
				}
				return c.recordResult(m, cx.evs, cx.st, pid, item, c.isEdge(m, cx.st, x, k), func(r *Term) bool { return c.decodedRel(m, cx.st, r, x, k) })
			}}
			e := p.check(o, o.Rets[0])
			c.req(e == "", map[bool]string{true: "relationships are found as they are stored", false: "exactly the matching relationships are found"}[p.some], fname(f), c.fpos(f), "%s: %s", e, o.brief())
		}
		c.minp("C17", "exactly the matching relationships are found", 4)
		c.minp("C15", "relationships are found as they are stored", 4)
		for _, o := range outs {
			for _, a := range accesses(o) {
				c.reqp("C17", !a.write, "finding changes nothing", fname(f), c.posOf(a.ev), "%s", a)
			}
		}
	}
}

// isEdge: e is the stored relationship x (read or rebuilt from its public form).
func (c *Check) isEdge(m *relModel, st *State, x *Term, k string) func(e *Term) bool {
	return func(e *Term) bool {
		return e == x || m.encodes(st, fld(e, "Source"), storedNode(fld(x, "Source"), kSet)) && m.encodes(st, fld(e, "Dest"), storedNode(fld(x, "Dest"), k))
	}
}

func (c *Check) sameEdge(m *relModel, st *State, x, src, dst *Term) bool {
	k := m.storedKind(st, fld(x, "Dest"))
	return (src == fld(x, "Source") || m.encodes(st, src, storedNode(fld(x, "Source"), kSet))) &&
		(dst == fld(x, "Dest") || k != "" && m.encodes(st, dst, storedNode(fld(x, "Dest"), k)))
}

// deletesBySelector: DeleteRelationships deletes exactly the relationships that match and counts them.
func (c *Check) deletesBySelector(m *relModel) {
	f, args, outs := c.repoRun("DeleteRelationships", stdConfig())
	if f == nil {
		return
	}
	pid, sel := args[2], args[3]
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		d := c.listed(m, o, pid)
		match := c.matches(m, sel)
		// whatever is deleted matches
		for _, a := range accesses(o) {
			if !a.write {
				continue
			}
			c.deletesMatch(m, f, o, a, d, pid, match)
		}
		if !o.ok() {
			c.req(storageFailed(o) || partMissing(o.St, sel), "deleting fails only for a missing part or if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		c.req(partsGiven(o.St, sel), "a missing part of the selector is an error", fname(f), c.fpos(f), "%s", o.brief())
		if !c.req(d != nil, "relationships are searched among all of the policy", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		e := c.allDeleted(m, o, d, pid, match)
		c.req(e == "", "every matching relationship is deleted", fname(f), c.fpos(f), "%s: %s", e, o.brief())
		n := strip(o.Rets[0])
		p := pipeline{d: d, skip: c.absent(m, pid), keep: match, cnt: true}
		switch {
		case n.Op == OLen:
			e = p.check(o, n.A[0])
		case n == cInt(0):
			e = p.check(o, mk(OLit, "", 0, nil, nil, nil, nil))
		case n.Op == OColl: // a sum
			e = p.check(o, n)
			if info := collInfo(n); info != nil {
				for _, cs := range info.All {
					for _, i := range cs.Items[n.S] {
						if i != cInt(1) {
							e = "the count changes by " + i.String()
						}
					}
				}
			}
		default:
			e = "not a count of what was deleted: " + n.String()
		}
		c.req(e == "", "the count is the number of relationships removed", fname(f), c.fpos(f), "%s: %s", e, o.brief())
	}
	c.min("every matching relationship is deleted", 4)
	c.min("the count is the number of relationships removed", 4)
}

func (c *Check) deletesMatch(m *relModel, f *ssa.Function, o *Outcome, a access, d, pid *Term, match func(Ctx, *Term) tri) {
	rule := "only matching relationships are deleted"
	if d == nil {
		c.req(false, rule, fname(f), c.posOf(a.ev), "%s", o.brief())
		return
	}
	xs := map[*Term]bool{}
	for _, t := range a.ev.Args[1:] {
		elemsOf(t, d, xs)
	}
	ok := false
	if len(xs) == 1 {
		for x := range xs {
			k := m.storedKind(a.w.ctx.st, fld(x, "Dest"))
			if c.absent(m, pid)(a.w.ctx, x) {
				return
			}
			ok = k != "" && match(a.w.ctx, x) == tT && c.deleteOf(m, a, pid, c.isEdge(m, a.w.ctx.st, x, k)) != ""
		}
	}
	c.req(ok, rule, fname(f), c.posOf(a.ev), "%s %s", a, a.ev.Args)
}

// allDeleted: some loop over the stored relationships deletes both parts of every one that matches.
func (c *Check) allDeleted(m *relModel, o *Outcome, d, pid *Term, match func(Ctx, *Term) tri) string {
	if is(o.St, mkEq(mkLen(d), cInt(0)), true) {
		return ""
	}
	why := "no loop deletes"
	for _, ev := range o.Evs {
		if ev.Kind != "loop" || ev.Loop.Domain == nil {
			continue
		}
		del := false
		walkEvs([]*Event{ev}, o.ctx(), nil, nil, func(w where) { del = del || w.ev.Kind == "call" && strings.HasSuffix(w.ev.Name, ".Delete") })
		if !del {
			continue
		}
		if !ev.Loop.Exhausted {
			why = "the loop may end early"
			continue
		}
		if ev.Loop.Domain != d { // what an earlier loop left out does not match
			p := pipeline{d: d, skip: c.absent(m, pid), keep: match, cnt: true}
			if e := p.check(o, ev.Loop.Domain); e != "" {
				why = e
				continue
			}
		}
		e := ""
		for _, cs := range ev.Loop.All {
			x := caseElem(cs, ev.Loop.L, d)
			if x == nil {
				e = "an iteration is not about one relationship: " + cs.brief()
				break
			}
			cx := cs.ctx()
			if c.absent(m, pid)(cx, x) || match(cx, x) == tF {
				continue
			}
			k := m.storedKind(cx.st, fld(x, "Dest"))
			edge, rec := false, false
			for _, a := range accesses(&Outcome{Evs: cs.Evs, St: cs.St}) {
				if len(a.w.in) > 0 || !noErr(cs.St, a.ev) {
					continue
				}
				w := c.deleteOf(m, a, pid, c.isEdge(m, cs.St, x, k))
				edge, rec = edge || w == "edge", rec || w == "record"
			}
			if !edge || !rec {
				e = "a matching relationship is not deleted: " + cs.brief()
				break
			}
		}
		if e == "" {
			return ""
		}
		why = e
	}
	// nothing matches
	p := pipeline{d: d, skip: c.absent(m, pid), keep: match, cnt: true}
	if why == "no loop deletes" && p.check(o, mk(OLit, "", 0, nil, nil, nil, nil)) == "" {
		return ""
	}
	return why
}

func checkC17(c *Check) {
	m := c.relStore()
	if m == nil {
		return
	}
	c.finds(m)
	c.deletesBySelector(m)
	c.findService()
	c.deletesService()
	c.validSelector()
	c.contractSymbols()
	c.keyRange(m)
	c.wholeMessages()
}

// deletesService: the service deletes what the request selects and reports how many.
func (c *Check) deletesService() {
	f, args, outs := c.svcRun(polSvc, "DeleteRelationships", c.svcCfg())
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		req := args[2]
		c.onlyWrite(f, o, "DeleteRelationships")
		ev := svcCall(o, "DeleteRelationships")
		if ev != nil {
			c.req(eqUnder(o.St, ev.Args[2], fld(req, "PolicyId")) && ev.Args[3] == fld(req, "Selector"), "what the request selects is deleted", fname(f), c.posOf(ev), "%s", ev.Args)
		}
		if o.ok() {
			ok := ev != nil && noErr(o.St, ev) && eqUnder(o.St, strip(fld(o.Rets[0], "RecordsAffected")), resN(ev.Res, 0, nil))
			c.req(ok, "the count is reported as storage reported it", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("the count is reported as storage reported it", 1)
}

// validSelector: the service accepts a selector only if the names it uses are defined.
func (c *Check) validSelector() {
	f := c.fn("(*policy.ValidSelectorSpec).Satisfies")
	if f == nil {
		return
	}
	cfg := stdConfig("-(*policy.ValidSelectorSpec).Satisfies")
	args := symArgs(f)
	sel, pol := args[1], args[2]
	so, sr, ss := selParts(sel)
	for _, o := range c.run(f, cfg, args, nil) {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		obj := Formula{"object", func(cx Ctx) tri {
			switch {
			case hasVariant(st, so, objAnyT):
				return tT
			case hasVariant(st, so, objResT):
				return resDefined(pol, c.pay(so, objResT)).eval(cx)
			case hasVariant(st, so, objSpecT):
				return resDefined(pol, fld(c.pay(so, objSpecT), "Resource")).eval(cx)
			case noPart(st, sel, "ObjectSelector", objSpecT, objResT, objAnyT):
				return tF
			}
			return tU
		}}
		rel := Formula{"relation", func(cx Ctx) tri {
			name := c.pay(sr, relNameT)
			switch {
			case hasVariant(st, sr, relAnyT):
				return tT
			case noPart(st, sel, "RelationSelector", relNameT, relAnyT):
				if o.ok() {
					return tT // storage rejects it
				}
				return tF
			case !hasVariant(st, sr, relNameT):
				return tU
			case hasVariant(st, so, objAnyT):
				return exists("resource", fld(pol, "Resources"), func(x *Term) Formula {
					return found("relation of a resource", func(st *State, t *Term) bool {
						return t.Op == OCall && t.S == relName && t.A[0] == x && eqUnder(st, t.A[1], name)
					})
				}).eval(cx)
			case hasVariant(st, so, objResT):
				return relDefined(pol, c.pay(so, objResT), name).eval(cx)
			case hasVariant(st, so, objSpecT):
				return relDefined(pol, fld(c.pay(so, objSpecT), "Resource"), name).eval(cx)
			}
			return tU
		}}
		subj := Formula{"subject", func(cx Ctx) tri {
			switch {
			case hasVariant(st, ss, subjAnyT):
				return tT
			case hasVariant(st, ss, subjResT):
				return resDefined(pol, c.pay(ss, subjResT)).eval(cx)
			case hasVariant(st, ss, subjSpecT):
				e := c.pay(ss, subjSpecT)
				if k := kindOf(st, e); k != "" {
					return resDefined(pol, c.subjectNode(e, k).res).eval(cx)
				}
				if o.ok() {
					return resDefined(pol, cStr("")).eval(cx)
				}
				return tF
			case noPart(st, sel, "SubjectSelector", subjSpecT, subjResT, subjAnyT):
				return tF
			}
			return tU
		}}
		v := fand(obj, rel, subj).eval(o.ctx())
		if o.ok() {
			c.req(v == tT, "only selectors whose names are defined are accepted", fname(f), c.fpos(f), "%v %v %v: %s", obj.eval(o.ctx()), rel.eval(o.ctx()), subj.eval(o.ctx()), o.brief())
		} else {
			c.req(v == tF, "selectors whose names are defined are accepted", fname(f), c.fpos(f), "%v %v %v: %s", obj.eval(o.ctx()), rel.eval(o.ctx()), subj.eval(o.ctx()), o.brief())
		}
	}
	c.min("only selectors whose names are defined are accepted", 12)
	c.min("selectors whose names are defined are accepted", 4)
	// and the service asks
	g, gargs, outs := c.svcRun(polSvc, "FindRelationshipRecords", c.svcCfg())
	for _, o := range outs {
		if !o.ok() {
			continue
		}
		req := gargs[2]
		rec, get := policyRead(o, fld(req, "PolicyId"))
		ok := rec != nil && noErr(o.St, get) && is(o.St, isNilT(rec), false) && factHas(o.St, func(t *Term, v bool) bool {
			if !v || t.Op != OBin || t.S != "==" || t.A[1] != tNil || t.A[0].Op != OCall || t.A[0].S != fname(f) {
				return false
			}
			a := t.A[0].A
			return a[1] == fld(req, "Selector") && a[2] == fld(rec, "Policy")
		})
		c.req(ok, "finding is answered only for a selector that is valid for the stored policy", fname(g), c.fpos(g), "%s", o.brief())
	}
	c.min("finding is answered only for a selector that is valid for the stored policy", 1)
}

// keyRange: scans between the smallest and the largest key see every key.
func (c *Check) keyRange(m *relModel) {
	k := m.graph.keyer
	if k == nil || k.Op != OIface {
		c.req(false, "anchor", "keyer", "-", "the keyer of the graph store is not known: %v", k)
		return
	}
	t := c.P.typeByName[k.S]
	for _, n := range []string{"MinKey", "MaxKey"} {
		f := c.method(t, n)
		if f == nil {
			continue
		}
		for _, o := range c.run(f, Config{}, symArgs(f), nil) {
			if o.Kind != "return" {
				continue
			}
			r := strip(o.Rets[0])
			if b, isRep := repeated(r); isRep {
				r = b
			}
			ok := r.Op == OLit
			want := map[string]int64{"MinKey": 0, "MaxKey": 255}[n]
			for _, x := range r.A {
				v, isInt := x.intVal()
				ok = ok && isInt && v == want
			}
			if n == "MaxKey" { // keys are sha256 sums
				ok = ok && len(r.A) >= 32
			} else {
				ok = ok && len(r.A) <= 32
			}
			c.req(ok, "scans see every key", fname(f), c.fpos(f), "%s is %s", n, r)
		}
	}
	c.min("scans see every key", 2)
}

// repeated: bytes.Repeat of known bytes a known number of times.
func repeated(t *Term) (*Term, bool) {
	if t.Op != OCall || t.S != "bytes.Repeat" || len(t.A) != 2 {
		return nil, false
	}
	n, ok := t.A[1].intVal()
	b := strip(t.A[0])
	if !ok || b.Op != OLit || n < 0 || n > 1024 {
		return nil, false
	}
	var all []*Term
	for i := int64(0); i < n; i++ {
		all = append(all, b.A...)
	}
	return mk(OLit, b.S, 0, nil, nil, nil, b.T, all...), true
}

const findingRule = "selectors are compared with stored data field by field"

// outermost names the declared function a closure belongs to, as pkg.(*T).f.
func outermost(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	n := fname(fn)
	if strings.HasPrefix(n, "(*") {
		if i := strings.Index(n, "."); i > 0 {
			return n[2:i] + ".(*" + n[i+1:]
		}
	}
	return n
}

// isMessage: a type of the generated protobuf code.
func (p *Program) isMessage(t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	return ok && p.genFiles[p.fset.Position(n.Obj().Pos()).Filename]
}

// wholeMessages: messages are compared by what they say, not by their memory:
// reflect.DeepEqual also sees the bookkeeping of the protobuf runtime, which
// differs between a decoded and a built message.
func (c *Check) wholeMessages() {
	const rule = findingRule
	for fn := range c.P.allFns {
		if !c.fns[fname(fn)] || !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || fname(call.Call.StaticCallee()) != "reflect.DeepEqual" {
					continue
				}
				msg := false
				for _, a := range call.Call.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok && c.P.isMessage(mi.X.Type()) {
						msg = true
					}
				}
				c.req(!msg, rule, outermost(fn), c.P.Pos(in.Pos()), "reflect.DeepEqual of protobuf messages")
			}
		}
	}
	c.req(true, rule, "all functions of the selection", "-", "")
}
