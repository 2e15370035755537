package main

import (
	"go/types"
	"strings"
)

// ---- building terms ----

func fld(t *Term, path ...string) *Term {
	for _, f := range path {
		t = mkFld(t, f, nil)
	}
	return t
}

func (c *Check) ty(name string) types.Type { return c.P.typeByName[name] }

// is: the oneof / interface value t holds the (pointer) type named ty.
func isT(t *Term, ty string) *Term {
	if t.Op == OIface {
		return cBool(t.S == ty)
	}
	if t.isNil() {
		return tFalse
	}
	return mk(OIs, ty, 0, nil, nil, nil, types.Typ[types.Bool], t)
}

// as: t as a value of type ty.
func (c *Check) as(t *Term, ty string) *Term {
	if t.Op == OIface {
		return t.A[0]
	}
	return mk(OTa, ty, 0, nil, nil, nil, c.P.typeByName[ty], t)
}

// variant of a oneof: the payload of wrapper type ty.
func (c *Check) pay(t *Term, ty string) *Term {
	return mkFld(c.as(t, ty), payField(c.P.typeByName[ty]), nil)
}

func payField(t types.Type) string {
	if t == nil {
		return "?"
	}
	n := structNames(derefType(t))
	if len(n) != 1 {
		return "?"
	}
	return n[0]
}

func neq(a, b *Term) *Term   { return mkNot(mkEq(a, b)) }
func nonEmpty(t *Term) *Term { return neq(t, cStr("")) }
func isNilT(t *Term) *Term   { return mkEq(t, tNil) }

func fTrue() Formula  { return Formula{"true", func(Ctx) tri { return tT }} }
func fFalse() Formula { return Formula{"false", func(Ctx) tri { return tF }} }

// eqUnder: the two terms are known to be equal in the state.
func eqUnder(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	v, ok := st.decide(mkEq(a, b))
	return ok && v
}

// strip removes reference and interface wrappers.
func strip(t *Term) *Term {
	for {
		switch {
		case t.Op == OIface:
			t = t.A[0]
		case t.Op == OBin && t.S == "ref":
			t = t.A[0]
		case t.Op == OConv && len(t.A) == 1 && lossless(t):
			t = t.A[0]
		default:
			return t
		}
	}
}

// ---- policy symbols ----

const (
	lutNew  = "policy.NewPolicyLookUpTable"
	lutRel  = "(*policy.PolicyLookUpTable).GetRelation"
	lutRes  = "(*policy.PolicyLookUpTable).GetResource"
	byName  = "(*domain.Policy).GetResourceByName"
	relName = "(*domain.Resource).GetRelationByName"
)

func isLut(t, pol *Term) bool {
	t = strip(t)
	return t.Op == OCall && t.S == lutNew && len(t.A) == 1 && t.A[0] == pol
}

func isResLookup(st *State, x, pol, res *Term) bool {
	if x.Op != OCall {
		return false
	}
	switch x.S {
	case lutRes:
		return isLut(x.A[0], pol) && eqUnder(st, x.A[1], res)
	case byName:
		return x.A[0] == pol && eqUnder(st, x.A[1], res)
	}
	return false
}

func isRelLookup(st *State, x, pol, res, rel *Term) bool {
	if x.Op != OCall {
		return false
	}
	switch x.S {
	case lutRel:
		return isLut(x.A[0], pol) && eqUnder(st, x.A[1], res) && eqUnder(st, x.A[2], rel)
	case relName:
		return isResLookup(st, x.A[0], pol, res) && eqUnder(st, x.A[1], rel)
	}
	return false
}

// found evaluates "a lookup that satisfies match is not nil" from what is known.
func found(name string, match func(st *State, x *Term) bool) Formula {
	return Formula{name, func(c Ctx) tri {
		for f, v := range c.st.facts {
			if f.Op == OBin && f.S == "==" && f.A[1] == tNil && match(c.st, f.A[0]) {
				return boolTri(!v, true)
			}
		}
		return tU
	}}
}

func relDefined(pol, res, rel *Term) Formula {
	n := "relation " + rel.String() + " is defined on " + res.String()
	f := found(n, func(st *State, x *Term) bool { return isRelLookup(st, x, pol, res, rel) })
	// without its resource there is no relation
	g := found(n, func(st *State, x *Term) bool { return isResLookup(st, x, pol, res) })
	return Formula{n, func(c Ctx) tri {
		if v := f.eval(c); v != tU {
			return v
		}
		if g.eval(c) == tF {
			return tF
		}
		return tU
	}}
}

func resDefined(pol, res *Term) Formula {
	n := "resource " + res.String() + " is defined"
	f := found(n, func(st *State, x *Term) bool { return isResLookup(st, x, pol, res) })
	return Formula{n, func(c Ctx) tri {
		if v := f.eval(c); v != tU {
			return v
		}
		// a relation of the resource is defined
		for t, v := range c.st.facts {
			if !v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && t.A[0].Op == OCall && t.A[0].S == lutRel &&
				isLut(t.A[0].A[0], pol) && eqUnder(c.st, t.A[0].A[1], res) {
				return tT
			}
		}
		return tU
	}}
}

// relTerms lists the terms that stand for the looked up relation in a state.
func relTerms(st *State, pol, res, rel *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for f := range st.facts {
		f.has(func(x *Term) bool {
			if !seen[x] && isRelLookup(st, x, pol, res, rel) {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	sortTerms(out)
	return out
}

// ---- common outcome questions ----

// storageFailed: some storage call of this outcome reported an error.
func storageFailed(o *Outcome) bool {
	hit := false
	walk(o, func(w where) {
		if w.ev.Kind != "call" || w.ev.Res == nil || !isStorage(w.ev.Name) {
			return
		}
		if e := errResult(w.ev); e != nil {
			if v, ok := w.ctx.st.decide(mkEq(e, tNil)); ok && !v {
				hit = true
			}
		}
	})
	return hit
}

func isStorage(name string) bool {
	return strings.HasPrefix(name, "policy.Repository.") || strings.HasPrefix(name, "relation_graph.NodeRepository.") ||
		strings.HasPrefix(name, "rcdb.") || strings.HasPrefix(name, "(*rcdb.") || strings.HasPrefix(name, "(rcdb.")
}

// errResult is the error a call returns, if it returns one.
func errResult(ev *Event) *Term {
	if ev.Res == nil || ev.Res.T == nil {
		return nil
	}
	if t, ok := ev.Res.T.(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			if isErrorType(t.At(i).Type()) {
				return resN(ev.Res, i, t.At(i).Type())
			}
		}
		return nil
	}
	if isErrorType(ev.Res.T) {
		return ev.Res
	}
	return nil
}

// factHas: a fact of the state satisfies f.
func factHas(st *State, f func(t *Term, v bool) bool) bool {
	for t, v := range st.facts {
		if f(t, v) {
			return true
		}
	}
	return false
}

// validatorFailed: a generated validator of the schema rejected the message.
func validatorFailed(o *Outcome) bool {
	return factHas(o.St, func(t *Term, v bool) bool {
		return !v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && t.A[0].Op == OCall && strings.HasSuffix(t.A[0].S, ").Validate")
	})
}

func (c *Check) posOf(ev *Event) string { return c.P.Pos(ev.Pos) }
