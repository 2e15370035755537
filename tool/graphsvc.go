package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The relation graph service: which evaluation it asks for and what it answers.

const (
	serFactory = "relation_graph.SerializerFactory"
	serialize  = "relation_graph.GoalTreeSerializer.Serialize"
)

func globalRooted(t *Term) bool {
	for {
		switch t.Op {
		case OGlob:
			return true
		case OFld, ODeref, OAddr, OIndex, OElem, OKey, OVal, OTa, OLookup, OIface:
			t = t.A[0]
		default:
			return false
		}
	}
}

// sharedRooted: the term lies in memory that outlives the call: the receiver's or a package variable's.
func sharedRooted(t, recv *Term) bool {
	for {
		if t == recv || t.Op == OGlob {
			return true
		}
		switch t.Op {
		case OFld, ODeref, OAddr, OIndex, OElem, OKey, OVal, OTa, OLookup, OIface:
			t = t.A[0]
		default:
			return false
		}
	}
}

func (c *Check) graphCfg() Config {
	cfg := stdConfig()
	cfg.Opaque[searchFn] = Opaque{}
	cfg.Opaque[serFactory] = Opaque{Pure: true}
	return cfg
}

// graphService decides what Check, ExplainCheck and Expand do around the search.
func (c *Check) graphService() {
	m := &evalModel{c: c, succ: c.enum(rg + "SearchResult_SUCCESS")}
	for _, name := range []string{"Check", "ExplainCheck", "Expand"} {
		f, args, outs := c.svcRun(relSvc, name, c.graphCfg())
		if f == nil {
			continue
		}
		for _, o := range outs {
			c.graphOutcome(m, name, f, args, o)
		}
		c.min("a "+name+" is answered from one evaluation", 1)
	}
}

const (
	svAsk  = "C01 C02 C03 C04 C06 C08 C24 C07"
	svChk  = "C01 C02 C03 C04 C06"
	svTree = "C06 C24 C25"
)

func (c *Check) graphOutcome(m *evalModel, name string, f *ssa.Function, args []*Term, o *Outcome) {
	recv, req := args[0], args[2]
	pos := c.fpos(f)
	fn := fname(f)
	searches := allEvents(o, func(ev *Event) bool { return ev.Name == searchFn && (ev.Kind == "call" || ev.Kind == "rec") })
	if o.Kind != "return" {
		c.req(false, "a request is answered", fn, pos, "%s", o.brief())
		return
	}
	pr := "C01 C02 C03 C04 C06"
	if name == "Expand" {
		pr = "C24 C02 C04"
	}
	if !o.ok() {
		c.reqp(pr, o.Rets[0] == tNil, "no answer is given along with an error", fn, pos, "%s", o.brief())
		c.reqp(pr, c.refusable(o, req), "a request is refused only if it is incomplete or a step failed", fn, pos, "%s", o.brief())
		return
	}
	if !c.req(len(searches) == 1 && len(searches[0].in) == 0, "a "+name+" is answered from one evaluation", fn, pos, "%d searches: %s", len(searches), o.brief()) {
		return
	}
	ev := searches[0].ev
	spos := c.posOf(ev)
	h := c.newHead(ev.Fn0(c), "*domain.RelationNode")
	if h.pol < 0 || h.goal < 0 || h.tree < 0 {
		c.req(false, "anchor", searchFn, spos, "unexpected parameters of %s", searchFn)
		return
	}
	c.reqp(pr+" C05", noErr(o.St, ev), "an answer needs an evaluation that did not fail", fn, spos, "%s", o.brief())
	rec, get := policyRead(o, fld(req, "PolicyId"))
	if c.reqp(pr+" C05", rec != nil && noErr(o.St, get) && before(o.Evs, get, ev), "the policy of the request is read", fn, spos, "%s", o.brief()) && rec != nil {
		c.reqp(pr, is(o.St, isNilT(rec), false), "an unknown policy is refused", fn, spos, "%s", o.brief())
		c.reqp(pr, ev.Args[h.pol] == fld(rec, "Policy"), "the policy of the request is evaluated", fn, spos, "%s", ev.Args[h.pol])
	}
	c.searcher(m, fn, recv, o, ev)
	origin, goal := ev.Args[h.tree], ev.Args[h.goal]
	tree := resN(ev.Res, 0, nil)
	ret := o.Rets[0]
	if name == "Expand" {
		c.reqp("C24 C02", origin == fld(req, "Root") || eqUnder(o.St, fld(origin, "Node"), fld(req, "Root", "Node")), "the requested node is expanded", fn, spos, "%s", origin)
		c.reqp("C24", fld(goal, "Target") == tNil, "an expansion searches for nothing in particular", fn, spos, "%s", goal)
	} else {
		a := fld(req, "AccessRequest")
		node := fld(origin, "Node")
		isES := isT(node, "*domain.RelationNode_EntitySet") == tTrue
		var set *Term
		if isES {
			set = c.pay(node, "*domain.RelationNode_EntitySet")
		}
		c.reqp(svChk, isES && sameEntity(o.St, fld(set, "Object"), fld(a, "Object")) && eqUnder(o.St, fld(set, "Relation"), fld(a, "Relation")), "the search starts at the requested object and relation", fn, spos, "%s", origin)
		tn := fld(goal, "Target", "Node")
		isE := isT(tn, "*domain.RelationNode_Entity") == tTrue
		c.reqp(svChk, isE && sameEntity(o.St, fld(c.pay(tn, "*domain.RelationNode_Entity"), "Object"), fld(a, "Subject")), "the requested subject is searched for", fn, spos, "%s", goal)
		auth := fld(ret, "Authorized")
		if name == "Check" {
			auth = fld(ret, "Result", "Authorized")
		}
		ok, why := agree(o.ctx(), auth, atom(m.isSucc(getResult(tree))))
		c.reqp(svChk, ok, "authorized means that the evaluation succeeded", fn, pos, "%s: %s", why, o.brief())
	}
	if name != "Check" {
		c.reqp("C25", fld(ret, "Format") == fld(req, "Format"), "the answer names the format it is in", fn, pos, "%s", fld(ret, "Format"))
		sers := allEvents(o, func(ev *Event) bool { return ev.Name == serialize })
		if !c.reqp(svTree, len(sers) == 1 && len(sers[0].in) == 0, "the evaluation is serialized", fn, pos, "%d serializations: %s", len(sers), o.brief()) || len(sers) != 1 {
			return
		}
		s := sers[0].ev
		c.reqp(svTree, s.Args[1] == tree, "the serialized tree is the one of this evaluation", fn, c.posOf(s), "%s", s.Args[1])
		want := s.Args[0]
		c.reqp("C25", want.Op == ORes && want.A[0].Op == OCall && want.A[0].S == serFactory && want.A[0].A[0] == fld(req, "Format"), "the requested format is used", fn, c.posOf(s), "%s", want)
		made := want.Op == OIface || want.Op == ORes && want.A[0].Op == OCall && want.A[0].S == serFactory
		c.reqp("C07", made && !globalRooted(want), "the serializer is made for this request", fn, c.posOf(s), "%s", want)
		c.reqp("C25 C05", noErr(o.St, s), "a failure to serialize is reported", fn, c.posOf(s), "%s", o.brief())
		c.reqp("C25", factHas(o.St, func(t *Term, v bool) bool {
			return v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && t.A[0].Op == ORes && t.A[0].S == "1" && t.A[0].A[0].Op == OCall && t.A[0].A[0].S == serFactory
		}), "an unknown format is refused", fn, pos, "%s", o.brief())
		c.reqp(svTree, fld(ret, "GoalTree") == resN(s.Res, 0, nil), "the serialization is what is returned", fn, pos, "%s", fld(ret, "GoalTree"))
	}
}

// Fn0 is the function a call event of the search refers to.
func (ev *Event) Fn0(c *Check) *ssa.Function { return c.P.Fn(ev.Name) }

// searcher: the search runs on its own trail and on the service's repository.
func (c *Check) searcher(m *evalModel, fn string, recv *Term, o *Outcome, ev *Event) {
	pos := c.posOf(ev)
	sr := ev.Args[0]
	st, ok := derefType(ev.Fn0(c).Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		return
	}
	fresh := !sharedRooted(ev.Raw[0], recv)
	n := 0
	var visit func(t *Term, st *types.Struct)
	visit = func(t *Term, st *types.Struct) {
		for i := 0; i < st.NumFields(); i++ {
			fv := fld(t, st.Field(i).Name())
			switch u := st.Field(i).Type().Underlying().(type) {
			case *types.Map:
				n++
				ok := fv == tNil || fv.Op == OObj || !sharedRooted(fv, recv) && fv.String() == "{}"
				for _, w := range allEvents(o, func(e *Event) bool { return e.Kind == "mapset" && (e.Raw[0] == fv || e.Args[0] == fv) }) {
					ok = ok && before(o.Evs, ev, w.ev)
				}
				fresh = fresh && ok
			case *types.Struct:
				visit(fv, u)
			case *types.Interface:
				if typeStr(st.Field(i).Type()) == "relation_graph.NodeRepository" {
					c.reqp("C01 C02 C07", sharedRooted(fv, recv), "the search uses the service's repository", fn, pos, "%s", fv)
				}
			}
		}
	}
	visit(sr, st)
	c.reqp(svAsk, fresh && n > 0, "every request evaluates on a trail of its own", fn, pos, "%s", sr)
}

// refusable: the outcome has a reason to be an error.
func (c *Check) refusable(o *Outcome, req *Term) bool {
	return factHas(o.St, func(t *Term, v bool) bool {
		if t.Op != OBin || t.S != "==" {
			return false
		}
		x, y := t.A[0], t.A[1]
		if y == tNil && !v && isErrTerm(x) {
			return true // some step reported an error
		}
		if y == tNil && v && (isReqPart(x, req) || x.Op == ORes && x.S == "0" && strings.HasSuffix(x.A[0].S, ".GetPolicy")) {
			return true // a part is missing, or there is no such policy
		}
		return v && y.Op == OConst && y.S == `""` && isReqPart(x, req)
	}) || factHas(o.St, func(t *Term, v bool) bool {
		return !v && t.Op == OIs && isReqPart(t.A[0], req) && c.noVariant(o.St, t.A[0])
	})
}

// noVariant: the oneof x holds none of its variants.
func (c *Check) noVariant(st *State, x *Term) bool {
	if x.T == nil {
		return false
	}
	it, ok := x.T.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for name, t := range c.P.typeByName {
		if _, isP := t.(*types.Pointer); !isP || !types.Implements(t, it) {
			continue
		}
		n++
		if !is(st, isT(x, name), false) {
			return false
		}
	}
	return n > 0
}

func isErrTerm(x *Term) bool { return x.T != nil && isErrorType(x.T) }

func isReqPart(x, req *Term) bool {
	for {
		if x == req {
			return true
		}
		switch x.Op {
		case OFld, ODeref, OTa:
			x = x.A[0]
		default:
			return false
		}
	}
}
