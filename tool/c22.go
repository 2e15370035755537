package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Nullness analysis: for every RPC and, below it, every validator, repository method and the evaluation, each dereference on each path of a message field that the caller controls is preceded by a test that it is set; what a callee dereferences without testing becomes its precondition, which is checked at every call in the RPCs. Records that may be missing are tested before they are used, and no path of an RPC ends in a panic.", checkC22)
}

// argRoot is the parameter that a message field belongs to.
func argRoot(t *Term, args []*Term) int {
	for {
		for i, a := range args {
			if t == a {
				return i
			}
		}
		switch t.Op {
		case OFld, ODeref, OAddr, OIndex, OElem, OKey, OVal, OTa, OLookup, OIface:
			t = t.A[0]
		default:
			return -1
		}
	}
}

type needed struct {
	t   *Term
	pos string
}

// needs: what f dereferences of its arguments without a test.
func (c *Check) needs(f *ssa.Function, cfg Config) (args []*Term, out []needed, oks []*Outcome) {
	var names []string
	for i := range f.Params {
		n := "arg" + string(rune('0'+i))
		if i == 0 && f.Signature.Recv() != nil {
			n = "!" + n
		}
		names = append(names, n)
	}
	args = symArgs(f, names...)
	seen := map[*Term]bool{}
	for _, o := range c.run(f, cfg, args, nil) {
		c.req(o.Kind == "return", "no request ends in a panic", fname(f), c.fpos(f), "%s", o.brief())
		if o.ok() {
			oks = append(oks, o)
		}
		walk(o, func(w where) {
			if w.ev.Kind != "nilderef" {
				return
			}
			t := w.ev.Raw[0]
			if t == tNil {
				c.req(false, "nothing that is known to be nil is used", fname(w.ev.Fn), c.posOf(w.ev), "%s reaches this: %s", fname(f), o.brief())
				return
			}
			if argRoot(t, args[1:]) < 0 {
				t = w.ev.Args[0]
			}
			if argRoot(t, args[1:]) >= 0 && !seen[t] && t.Op != OElem {
				seen[t] = true
				out = append(out, needed{t, c.posOf(w.ev)})
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.String() < out[j].t.String() })
	return
}

type nullCallee struct {
	args []*Term
	ns   []needed
	oks  []*Outcome
}

// ensures: a call that reported no error has established that t is set.
func (k nullCallee) ensures(ev *Event, t *Term) bool {
	if len(k.oks) == 0 || len(k.args) > len(ev.Args) {
		return false
	}
	back := t.subst(func(y *Term) *Term {
		for i, a := range ev.Args {
			if i > 0 && a == y && i < len(k.args) {
				return k.args[i]
			}
		}
		return nil
	})
	if argRoot(back, k.args[1:]) < 0 {
		return false
	}
	for _, o := range k.oks {
		if !is(o.St, isNilT(back), false) && !otherVariant(o.St, back) {
			return false
		}
	}
	return true
}

// otherVariant: t belongs to a variant that a message is known not to have.
func otherVariant(st *State, t *Term) bool {
	for ; t.Op == OFld || t.Op == OTa; t = t.A[0] {
		if t.Op == OTa {
			q := isT(t.A[0], typeStr(t.T))
			if is(st, q, false) || q == tFalse {
				return true
			}
		}
	}
	return false
}

func checkC22(c *Check) {
	const rule = "a message that may be missing is tested before it is used"
	const pre = "what a callee relies on is set"
	callees := map[string]nullCallee{}
	add := func(name string, f *ssa.Function, cfg Config) {
		a, n, oks := c.needs(f, cfg)
		callees[name] = nullCallee{a, n, oks}
	}
	for _, r := range c.repoMethods() {
		add(r.iface+"."+r.name, r.f, stdConfig())
	}
	specs := []string{"(*policy.ValidPolicySpec).Verify", "(*policy.ValidSelectorSpec).Satisfies", "(*policy.AllowedRelationshipSpec).Satisfies"}
	for _, n := range specs {
		if f := c.fn(n); f != nil {
			add(n, f, stdConfig())
		}
	}
	for n := range stdOpaque {
		if f := c.P.funcs[n]; f != nil && n != "policy_definition.PolicyFromYaml" && n != "relation_expression_parser.Parse" {
			add(n, f, stdConfig("-"+n))
		}
	}
	m := c.evalHeads()
	if m == nil {
		return
	}
	add(searchFn, m.search, m.cfg)
	visit := func(f *ssa.Function, args []*Term, o *Outcome) {
		c.req(o.Kind == "return", "no request ends in a panic", fname(f), c.fpos(f), "%s", o.brief())
		var done []*Event
		known := func(st *State, t *Term) bool {
			for _, ev := range done {
				if noErr(st, ev) && callees[ev.Name].ensures(ev, t) {
					return true
				}
			}
			return false
		}
		walk(o, func(w where) {
			ev := w.ev
			switch {
			case ev.Kind == "panic":
				c.req(false, "no request ends in a panic", fname(f), c.posOf(ev), "%s", o.brief())
			case ev.Kind == "nilderef" && ev.Name == "certain" && f.Name() != "DumpRelationships": // whose walk keeps its trees in a map
				c.req(false, rule, fname(ev.Fn), c.posOf(ev), "%s reaches this with %s, which is nil here: %s", fname(f), ev.Raw[0], o.brief())
			case ev.Kind == "nilderef":
				for _, t := range []*Term{ev.Raw[0], ev.Args[0]} {
					if argRoot(t, args[1:]) >= 0 && t.Op != OElem {
						if known(w.ctx.st, t) {
							return
						}
						c.req(false, rule, fname(ev.Fn), c.posOf(ev), "%s reaches this with %s possibly unset", fname(f), t)
						return
					}
					if t.Op == OFld && t.S == "SubjectRestriction" && t.A[0].T != nil && typeStr(t.A[0].T) == "*domain.Relation" {
						c.req(false, rule, fname(ev.Fn), c.posOf(ev), "%s reaches this with %s possibly unset: a relation may have no restriction", fname(f), t)
						return
					}
					if t.Op == ORes && t.A[0].Op == OCall && strings.Contains(t.A[0].S, "Repository.") {
						c.req(false, rule, fname(ev.Fn), c.posOf(ev), "%s uses %s without testing that the record exists", fname(f), t)
						return
					}
					if t.Op == ORes && t.A[0].Op == OCall && callees[t.A[0].S].args == nil && !strings.Contains(t.A[0].S, "PolicyFromYaml") && !isStorage(t.A[0].S) && t.A[0].S != searchFn {
						if p := c.P.funcs[t.A[0].S]; p != nil && isRepo(p) {
							c.req(false, rule, fname(ev.Fn), c.posOf(ev), "%s uses %s, which may be nil", fname(f), t)
						}
					}
				}
			case ev.Kind == "call" || ev.Kind == "rec":
				k, ok := callees[ev.Name]
				if !ok || len(k.args) > len(ev.Args) {
					return
				}
				done = append(done, ev)
				for _, x := range k.ns {
					c.nonNilAt(pre, f, args, w, k, x, known)
				}
			}
		})
		c.req(true, rule, fname(f), c.fpos(f), "")
	}
	for _, r := range c.rpcs() {
		args := symArgs(r.f)
		for _, o := range c.run(r.f, c.svcCfg(), args, nil) {
			visit(r.f, args, o)
		}
	}
	// below the RPCs: calls among the callees themselves
	for _, n := range specs {
		if f := c.fn(n); f != nil {
			args := symArgs(f)
			for _, o := range c.run(f, stdConfig(), args, nil) {
				visit(f, args, o)
			}
		}
	}
	for _, h := range []*ssa.Function{m.search, m.S.f, m.B.f} {
		for _, o := range c.run(h, m.cfg, symArgs(h), nil) {
			c.req(o.Kind == "return", "no request ends in a panic", fname(h), c.fpos(h), "%s", o.brief())
			walk(o, func(w where) {
				if k, ok := callees[w.ev.Name]; ok && w.ev.Kind == "call" && len(k.args) <= len(w.ev.Args) {
					for _, x := range k.ns {
						c.nonNilAt(pre, h, nil, w, k, x, nil)
					}
				}
			})
		}
	}
	if f := c.fn("policy_definition.PolicyFromYaml"); f != nil {
		for _, o := range c.run(f, stdConfig("-policy_definition.PolicyFromYaml"), symArgs(f), nil) {
			if o.ok() {
				c.req(nonNilTerm(o.Rets[0]) || is(o.St, isNilT(o.Rets[0]), false) || o.Rets[0].Op == ONew || o.Rets[0].Op == OObj, "a translated policy is there", fname(f), c.fpos(f), "%s", o.brief())
			}
		}
	}
	c.min(rule, 30)
	c.min(pre, 10)
}

// nonNilAt: the precondition x of callee k holds at the call w, as far as it
// concerns what the caller was given.
func (c *Check) nonNilAt(rule string, f *ssa.Function, args []*Term, w where, k nullCallee, x needed, known func(*State, *Term) bool) {
	t := x.t.subst(func(y *Term) *Term {
		for i, a := range k.args {
			if a == y {
				return w.ev.Args[i]
			}
		}
		return nil
	})
	st := w.ctx.st
	switch {
	case t == tNil:
		c.req(false, rule, fname(f), c.posOf(w.ev), "%s dereferences %s at %s: it is nil here", w.ev.Name, x.t, x.pos)
	case otherVariant(st, t) || args == nil || argRoot(t, args[1:]) < 0:
	default:
		c.req(nonNilTerm(t) || is(st, isNilT(t), false) || known(st, t), rule, fname(f), c.posOf(w.ev), "%s dereferences it at %s: %s may be unset", w.ev.Name, x.pos, t)
	}
}
