package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "Policy admission: every path of CreatePolicy and UpdatePolicy that writes a policy is shown to have established, for every resource and relation of that very policy, the well-formedness predicate (id and names set, names unique, restrictions and rules resolved in the policy, complete expression trees); every refusal is shown to have refuted it or to have another stated reason. Loops are summarised by their iteration cases; recursive validation is decided by an inductive contract; the look-up table, GetRules and Parse are cut points with contracts of their own.", checkC10)
}

const getRules = "(*domain.RelationExpressionTree).GetRules"

type ruleFn struct {
	name string
	arg  int
}

// unique: the name of element x was not seen before among the elements of its list.
func unique(x *Term) Formula {
	key := fld(x, "Name")
	return Formula{"the name " + key.String() + " is unique", func(c Ctx) tri {
		for f, v := range c.st.facts {
			if f.Op == OHas && f.A[1] == key && seenNames(f.A[0], x) {
				if v && contradicts(c.st, f.A[0], key, x) {
					return tT // cannot happen
				}
				return boolTri(!v, true)
			}
		}
		return tU
	}}
}

// contradicts: the state claims that the entry of a set of names is false
// although every entry is true.
func contradicts(st *State, m, key, x *Term) bool {
	v, ok := st.decide(mk(OLookup, "", 0, nil, nil, nil, nil, m, key))
	if !ok || v {
		return false
	}
	for _, cs := range x.L.cases {
		for _, it := range cs.Items[m.A[1].S] {
			if it != tTrue {
				return false
			}
		}
	}
	return true
}

// seenNames: m holds exactly the names of the elements before x.
func seenNames(m, x *Term) bool {
	if m.Op != OMix || m.A[0] != tEmptyMap || m.A[1].Op != OColl || x.Op != OElem || m.A[1].L != x.L {
		return false
	}
	cases := x.L.cases
	if cases == nil {
		return true // still inside of the loop; the cases are judged when it is done
	}
	for _, cs := range cases {
		ks := cs.Keys[m.A[1].S]
		if len(ks) != 1 || ks[0] != fld(x, "Name") || len(cs.Dels[m.A[1].S]) > 0 {
			return false
		}
	}
	return true
}

// completeTree: every node of t is set and every operator known. Recursive
// calls that vouch for a child are collected in rec.
func (c *Check) completeTree(t *Term, rec map[ruleFn]bool) Formula {
	node := fld(t, "Node")
	op := c.pay(node, "*domain.RelationExpressionTree_OpNode")
	known := []Formula{}
	for _, v := range []int64{c.enum("domain.Operator_UNION"), c.enum("domain.Operator_INTERSECTION"), c.enum("domain.Operator_DIFFERENCE")} {
		known = append(known, atom(mkEq(fld(op, "Operator"), cInt(v))))
	}
	child := func(x *Term) Formula {
		return Formula{"complete " + x.String(), func(k Ctx) tri {
			for f, v := range k.st.facts {
				q, want := vouch(f)
				if q == nil || !strings.HasPrefix(q.S, "rec:") {
					continue
				}
				for i, a := range q.A {
					if a == x {
						rec[ruleFn{q.S[4:], i}] = true
						return boolTri(v == want, true)
					}
				}
			}
			return tU
		}}
	}
	return for_(atom(isT(node, "*domain.RelationExpressionTree_Rule")),
		fand(atom(isT(node, "*domain.RelationExpressionTree_OpNode")), for_(known...), child(fld(op, "Left")), child(fld(op, "Right"))))
}

// vouch: a fact about the result of a recursive call: no error, or true.
func vouch(f *Term) (*Term, bool) {
	if f.Op == OBin && f.S == "==" && f.A[1] == tNil && f.A[0].Op == OCall {
		return f.A[0], true
	}
	if f.Op == OCall && isBool(f.T) {
		return f, true
	}
	return nil, false
}

func (c *Check) enum(name string) int64 {
	v, ok := c.P.constInt(name)
	if !ok {
		c.req(false, "anchor", name, "-", "constant %s was not found", name)
	}
	return v
}

func (c *Check) ruleDefined(pol, resName, rule *Term) Formula {
	r := fld(rule, "Rule")
	cu := c.pay(r, "*domain.Rule_Cu")
	ttu := c.pay(r, "*domain.Rule_Ttu")
	return for_(
		atom(isT(r, "*domain.Rule_This")),
		fand(atom(isT(r, "*domain.Rule_Cu")), relDefined(pol, resName, fld(cu, "TargetRelation"))),
		fand(atom(isT(r, "*domain.Rule_Ttu")), relDefined(pol, resName, fld(ttu, "TuplesetRelation"))))
}

// wellFormed lists what a storable policy satisfies.
func (c *Check) wellFormed(pol *Term, rec map[ruleFn]bool) []Formula {
	res := fld(pol, "Resources")
	eachRel := func(body func(r, rel *Term) Formula) Formula {
		return forall("resource", res, func(r *Term) Formula {
			return forall("relation", fld(r, "Relations"), func(rel *Term) Formula { return body(r, rel) })
		})
	}
	restriction := func(r, rel *Term) Formula {
		sr := fld(rel, "SubjectRestriction")
		oneof := fld(sr, "SubjectRestriction")
		set := fld(c.pay(oneof, "*domain.SubjectRestriction_RestrictionSet"), "Restrictions")
		return for_(atom(isNilT(sr)), atom(isT(oneof, "*domain.SubjectRestriction_UniversalSet")),
			fand(atom(isT(oneof, "*domain.SubjectRestriction_RestrictionSet")), forall("restriction", set, func(e *Term) Formula {
				en := fld(e, "Entry")
				p := c.pay(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet")
				q := c.pay(en, "*domain.SubjectRestrictionSet_Restriction_Entity")
				return for_(
					fand(atom(isT(en, "*domain.SubjectRestrictionSet_Restriction_Entity")), resDefined(pol, fld(q, "ResourceName"))),
					fand(atom(isT(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet")), relDefined(pol, fld(p, "ResourceName"), fld(p, "RelationName"))))
			})))
	}
	expr := func(each func(r, t *Term) Formula) func(r, rel *Term) Formula {
		return func(r, rel *Term) Formula {
			e := fld(rel, "RelationExpression", "Expression")
			parsed := mk(OCall, "relation_expression_parser.Parse", 0, nil, nil, nil, nil, c.pay(e, "*domain.RelationExpression_Expr"))
			return for_(
				fand(atom(isT(e, "*domain.RelationExpression_Expr")), atom(isNilT(resN(parsed, 1, nil))), each(r, resN(parsed, 0, nil))),
				fand(atom(isT(e, "*domain.RelationExpression_Tree")), each(r, c.pay(e, "*domain.RelationExpression_Tree"))))
		}
	}
	return []Formula{
		{"the policy has an id", atom(nonEmpty(fld(pol, "Id"))).f},
		{"resource names are set", forall("resource", res, func(r *Term) Formula { return atom(nonEmpty(fld(r, "Name"))) }).f},
		{"resource names are unique", forall("resource", res, unique).f},
		{"relation names are set", eachRel(func(r, rel *Term) Formula { return atom(nonEmpty(fld(rel, "Name"))) }).f},
		{"relation names are unique within a resource", eachRel(func(r, rel *Term) Formula { return unique(rel) }).f},
		{"subject restrictions refer to what the policy defines", eachRel(restriction).f},
		{"expressions parse to complete trees", eachRel(expr(func(r, t *Term) Formula { return c.completeTree(t, rec) })).f},
		{"rules refer to relations of the same resource", eachRel(expr(func(r, t *Term) Formula {
			rules := mk(OCall, getRules, 0, nil, nil, nil, c.ty("[]*domain.Rule"), t)
			return forall("rule", rules, func(x *Term) Formula { return c.ruleDefined(pol, fld(r, "Name"), x) })
		})).f},
	}
}

// submitted lists the policies a definition may denote, with the condition under which it does.
func (c *Check) submitted(o *Outcome, def *Term) (pol *Term, broken bool) {
	one := fld(def, "Definition")
	yaml := mk(OCall, "policy_definition.PolicyFromYaml", 0, nil, nil, nil, nil, c.pay(one, "*api.PolicyDefinition_PolicyYaml"))
	if v, ok := o.St.decide(isT(one, "*api.PolicyDefinition_Policy")); ok && v {
		return c.pay(one, "*api.PolicyDefinition_Policy"), false
	}
	if v, ok := o.St.decide(isT(one, "*api.PolicyDefinition_PolicyYaml")); ok && v {
		if v, ok := o.St.decide(isNilT(resN(yaml, 1, nil))); ok && !v {
			return nil, true
		}
		return resN(yaml, 0, nil), false
	}
	a, ok1 := o.St.decide(isT(one, "*api.PolicyDefinition_Policy"))
	b, ok2 := o.St.decide(isT(one, "*api.PolicyDefinition_PolicyYaml"))
	return nil, ok1 && ok2 && !a && !b
}

func checkC10(c *Check) {
	svc := c.implOf("api.PolicyServiceServer")
	rec := map[ruleFn]bool{}
	for _, name := range []string{"CreatePolicy", "UpdatePolicy"} {
		f := c.method(svc, name)
		if f == nil {
			continue
		}
		args := symArgs(f)
		req := args[2]
		for _, o := range c.run(f, stdConfig(), args, nil) {
			if o.Kind != "return" {
				continue
			}
			writes := calls(o.Evs, "policy.Repository.SetPolicy")
			sub, broken := c.submitted(o, fld(req, "PolicyDefinition"))
			if len(writes) > 0 || o.ok() {
				if !c.req(len(writes) > 0, "success stores the policy", fname(f), c.fpos(f), "%s", o.brief()) {
					continue
				}
				for _, w := range writes {
					pol := fld(w.Args[2], "Policy")
					c.req(pol == sub, "the stored policy is the submitted one", fname(f), c.posOf(w), "stored %s", pol)
					for _, q := range c.wellFormed(pol, rec) {
						v := q.eval(o.ctx())
						c.req(v == tT, name+" writes only if "+q.name, fname(f), c.posOf(w), "%s is %s on a path that stores the policy: %s", q.name, v, o.brief())
					}
				}
				continue
			}
			why := broken || storageFailed(o) || validatorFailed(o)
			if sub != nil {
				if r, _ := policyRead(o, fld(sub, "Id")); r != nil {
					if v, ok := o.St.decide(isNilT(r)); ok && v == (name == "UpdatePolicy") {
						why = true
					}
				}
				for _, q := range c.wellFormed(sub, rec) {
					if q.eval(o.ctx()) == tF {
						why = true
					}
				}
			}
			c.req(why, name+" refuses only if not well-formed", fname(f), c.fpos(f), "a policy may be refused although it is well-formed: %s", o.brief())
		}
		c.min(name+" refuses only if not well-formed", 10)
		c.min(name+" writes only if the policy has an id", 1)
	}
	c.inductiveTrees(rec)
	c.contractSymbols()
	c.contractGetRules()
}

// inductiveTrees: a function that vouches for a tree accepts it exactly when it is complete.
func (c *Check) inductiveTrees(rec map[ruleFn]bool) {
	done := map[ruleFn]bool{}
	for {
		var next *ruleFn
		for r := range rec {
			if !done[r] {
				r := r
				next = &r
			}
		}
		if next == nil {
			return
		}
		done[*next] = true
		f := c.fn(next.name)
		if f == nil {
			continue
		}
		args := symArgs(f)
		for _, o := range c.run(f, stdConfig(), args, nil) {
			if o.Kind != "return" {
				continue
			}
			acc, known := accepts(f, o)
			v := c.completeTree(args[next.arg], rec).eval(o.ctx())
			ok := known && (acc && v == tT || !acc && v == tF)
			c.req(ok, "a tree is accepted exactly when complete", next.name, c.fpos(f), "accepted %v (known %v), complete is %s: %s", acc, known, v, o.brief())
		}
	}
}

// accepts: the outcome of a validating function is positive.
func accepts(f *ssa.Function, o *Outcome) (acc, known bool) {
	if len(o.Rets) != 1 {
		return o.ok(), true
	}
	if o.err != nil {
		return !o.isErr, true
	}
	return o.St.decide(o.Rets[0])
}

// contractGetRules: GetRules yields exactly the rules of the leaves of a tree.
func (c *Check) contractGetRules() {
	done := map[string]bool{}
	work := []string{getRules}
	for len(work) > 0 {
		name := work[0]
		work = work[1:]
		if done[name] {
			continue
		}
		done[name] = true
		f := c.fn(name)
		if f == nil {
			continue
		}
		args := symArgs(f)
		node := fld(args[0], "Node")
		op := c.pay(node, "*domain.RelationExpressionTree_OpNode")
		var acc []*Term
		for _, a := range args[1:] {
			acc = append(acc, a)
		}
		var content func(t *Term, out map[*Term]int) bool
		content = func(t *Term, out map[*Term]int) bool {
			switch {
			case t == tNil:
				return true
			case t.Op == OLit || t.Op == OCat:
				for _, a := range t.A {
					if t.Op == OLit {
						out[a]++
					} else if !content(a, out) {
						return false
					}
				}
				return true
			case t.Op == OCall && strings.HasPrefix(t.S, "rec:"):
				work = append(work, t.S[4:])
				out[t.A[0]]++
				for _, a := range t.A[1:] {
					if !content(a, out) {
						return false
					}
				}
				return true
			}
			for _, a := range acc {
				if t == a {
					out[a]++
					return true
				}
			}
			return false
		}
		for _, o := range c.run(f, Config{}, args, nil) {
			if o.Kind != "return" {
				continue
			}
			got := map[*Term]int{}
			ok := content(o.Rets[0], got)
			want := map[*Term]int{}
			for _, a := range acc {
				want[a] = 1
			}
			if v, k := o.St.decide(isT(node, "*domain.RelationExpressionTree_Rule")); k && v {
				want[c.pay(node, "*domain.RelationExpressionTree_Rule")] = 1
			} else if v, k := o.St.decide(isT(node, "*domain.RelationExpressionTree_OpNode")); k && v {
				want[fld(op, "Left")] = 1
				want[fld(op, "Right")] = 1
			}
			ok = ok && len(got) == len(want)
			for k, n := range want {
				ok = ok && got[k] == n
			}
			c.req(ok, "exactly the rules of the tree are listed", name, c.fpos(f), "%s", o.brief())
		}
	}
	c.min("exactly the rules of the tree are listed", 3)
}
