package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "Constructors: the value returned on every path of every public constructor of relationships, entities, records, selectors and expression nodes is compared, part by part, with the value its name and arguments denote (each argument in its own part, the right kind of subject, rule or selector). The selector builder is decided by composition: each setter is followed by Build, from an arbitrary builder; the part it names is the one asked for, every other part is what it was, and nothing but the builder itself is written, so that selectors built before stay as they are. Look-ups by name return an element of that name, or nothing only after every element was found to have another name; accessors return the part of the variant present.", checkC28)
}

type shape func(c *Check, st *State, v *Term) string

// leafIs: the value is exactly t.
func leafIs(t *Term) shape {
	return func(c *Check, st *State, v *Term) string {
		if eqUnder(st, strip(v), t) || v == t {
			return ""
		}
		return v.String() + " instead of " + t.String()
	}
}

// msg: a new message with these parts and nothing else.
func msg(ty string, parts map[string]shape) shape {
	return func(c *Check, st *State, v *Term) string {
		v = strip(v)
		t := c.ty("*" + ty)
		if t == nil {
			return "there is no type " + ty
		}
		if !(v.Op == ONew || v.Op == OStruct) || v.T == nil || typeStr(derefType(v.T)) != ty {
			return "not a new " + ty + " but " + v.String()
		}
		s, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			return ty + " is no struct"
		}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if !s.Field(i).Exported() {
				continue
			}
			g := fld(v, n)
			if p := parts[n]; p != nil {
				if w := p(c, st, g); w != "" {
					return n + ": " + w
				}
			} else if !isZeroVal(g) {
				return n + " is set to " + g.String()
			}
		}
		return ""
	}
}

func isZeroVal(t *Term) bool {
	if t.isNil() || t.Op == OZero {
		return true
	}
	s, ok := t.strVal()
	return ok && s == ""
}

// variantOf: the oneof holds this wrapper with this payload.
func variantOf(ty string, p shape) shape {
	return func(c *Check, st *State, v *Term) string {
		if !is(st, isT(v, ty), true) {
			return "not a " + ty + " but " + v.String()
		}
		return p(c, st, c.pay(v, ty))
	}
}

func anyNew(ty string) shape {
	return func(c *Check, st *State, v *Term) string {
		if v = strip(v); v.Op != ONew && v.Op != OStruct || typeStr(derefType(v.T)) != ty {
			if b := strings.Contains(v.String(), "timestamppb.Now"); !(ty == "now" && b) {
				return "not a " + ty + " but " + v.String()
			}
		}
		return ""
	}
}

func entityShape(res, id *Term) shape {
	return msg("domain.Entity", map[string]shape{"Resource": leafIs(res), "Id": leafIs(id)})
}

func relationshipShape(obj shape, rel *Term, sub shape) shape {
	return msg("domain.Relationship", map[string]shape{"Object": obj, "Relation": leafIs(rel), "Subject": msg("domain.Subject", map[string]shape{"Subject": sub})})
}

func ruleShape(ty string, p shape) shape {
	return msg("domain.RelationExpressionTree", map[string]shape{"Node": variantOf("*domain.RelationExpressionTree_Rule", msg("domain.Rule", map[string]shape{"Rule": variantOf(ty, p)}))})
}

func (c *Check) opShape(l, r *Term, op string) shape {
	want := cInt(c.enum("domain." + op))
	return msg("domain.RelationExpressionTree", map[string]shape{"Node": variantOf("*domain.RelationExpressionTree_OpNode", msg("domain.OpNode", map[string]shape{
		"Left": leafIs(l), "Right": leafIs(r), "Operator": func(c *Check, st *State, v *Term) string {
			if eqUnder(st, v, want) || isZeroVal(v) && want.String() == "0" {
				return ""
			}
			return v.String() + " instead of " + op
		}}))})
}

func checkC28(c *Check) {
	const rule = "a constructor builds what its arguments denote"
	data := func(ps map[string]shape) map[string]shape { ps["CreatedAt"] = anyNew("now"); return ps }
	ctor := func(name string, n int, want func(a []*Term) shape) {
		f := c.fn(name)
		if f == nil {
			return
		}
		a := symArgs(f)
		if f.Signature.Recv() != nil {
			a = a[1:]
		}
		if !c.req(len(a) == n, "anchor", name, c.fpos(f), "%d arguments", len(a)) {
			return
		}
		for _, o := range c.run(f, stdConfig(), symArgs(f), nil) {
			w := "panic"
			if o.Kind == "return" {
				w = want(a)(c, o.St, o.Rets[0])
			}
			c.req(w == "", rule, name, c.fpos(f), "%s: %s", w, o.brief())
			c.freshWrites(f, o, nil)
		}
	}
	ctor("domain.NewEntity", 2, func(a []*Term) shape { return entityShape(a[0], a[1]) })
	ctor("domain.NewPolicyRecord", 2, func(a []*Term) shape {
		return msg("domain.PolicyRecord", data(map[string]shape{"Policy": leafIs(a[0]), "AppData": leafIs(a[1])}))
	})
	ctor("domain.NewRelationshipRecord", 3, func(a []*Term) shape {
		return msg("domain.RelationshipRecord", data(map[string]shape{"PolicyId": leafIs(a[0]), "Relationship": leafIs(a[1]), "AppData": leafIs(a[2])}))
	})
	const rb = "(*domain.RelationshipBuilder)."
	ctor(rb+"Relationship", 5, func(a []*Term) shape {
		return relationshipShape(entityShape(a[0], a[1]), a[2], variantOf("*domain.Subject_Entity", entityShape(a[3], a[4])))
	})
	ctor(rb+"EntitySet", 6, func(a []*Term) shape {
		return relationshipShape(entityShape(a[0], a[1]), a[2], variantOf("*domain.Subject_EntitySet", msg("domain.EntitySet", map[string]shape{"Entity": entityShape(a[3], a[4]), "Relation": leafIs(a[5])})))
	})
	ctor(rb+"Wildcard", 4, func(a []*Term) shape {
		return relationshipShape(entityShape(a[0], a[1]), a[2], variantOf("*domain.Subject_ResourceSet", msg("domain.ResourceSet", map[string]shape{"ResourceName": leafIs(a[3])})))
	})
	ctor("domain.CUNode", 1, func(a []*Term) shape {
		return ruleShape("*domain.Rule_Cu", msg("domain.ComputedUserset", map[string]shape{"TargetRelation": leafIs(a[0])}))
	})
	ctor("domain.TTUNode", 2, func(a []*Term) shape {
		return ruleShape("*domain.Rule_Ttu", msg("domain.TupleToUserset", map[string]shape{"TuplesetRelation": leafIs(a[0]), "ComputedUsersetRelation": leafIs(a[1])}))
	})
	ctor("domain.ThisNode", 0, func(a []*Term) shape { return ruleShape("*domain.Rule_This", msg("domain.This", nil)) })
	for n, op := range map[string]string{"UnionNode": "Operator_UNION", "IntersectionNode": "Operator_INTERSECTION", "DifferenceNode": "Operator_DIFFERENCE"} {
		ctor("domain."+n, 2, func(a []*Term) shape { return c.opShape(a[0], a[1], op) })
	}
	c.min(rule, 12)
	c.selectorBuilder()
	c.lookups()
}

// freshWrites: nothing but memory made on the way (or the builder itself) is written.
func (c *Check) freshWrites(f *ssa.Function, o *Outcome, self *Term) {
	const rule = "nothing else is changed"
	for _, w := range allEvents(o, func(ev *Event) bool { return ev.Kind == "store" || ev.Kind == "mapset" || ev.Kind == "mapdel" }) {
		b := w.ev.Raw[0]
		c.req(b == self, rule, fname(f), c.posOf(w.ev), "writes %s of %s", w.ev.Name, b)
	}
	c.req(true, rule, fname(f), c.fpos(f), "")
}

func (c *Check) selectorBuilder() {
	const sb, rule = "(*domain.SelectorBuilder).", "a setter of the selector builder sets its part and no other"
	build := c.fn(sb + "Build")
	if build == nil {
		return
	}
	z := in("!builder", build.Params[0].Type())
	parts := []string{"ObjectSelector", "RelationSelector", "SubjectSelector"}
	built := func(f *ssa.Function, st *State) (map[string]*Term, *State) {
		outs := c.run(build, stdConfig(), []*Term{z}, st)
		if !c.req(len(outs) == 1 && outs[0].Kind == "return", "a selector can always be built", fname(f), c.fpos(build), "%d outcomes of Build", len(outs)) {
			return nil, nil
		}
		c.freshWrites(build, outs[0], z)
		m := map[string]*Term{}
		for _, p := range parts {
			m[p] = fld(outs[0].Rets[0], p)
		}
		return m, outs[0].St
	}
	base, _ := built(build, nil)
	if base == nil {
		return
	}
	// the parts of an arbitrary builder are three different fields of it
	seen := map[*Term]bool{}
	for _, p := range parts {
		t := base[p]
		r := t
		for r.Op == OFld {
			r = r.A[0]
		}
		c.req(t.Op == OFld && r == z && !seen[t], "Build returns the three parts of the builder", fname(build), c.fpos(build), "%s is %s", p, t)
		seen[t] = true
	}
	wild := msg("domain.WildcardSelector", nil)
	one := func(part, sel string, s func(a []*Term) shape) func(a []*Term) (string, shape) {
		return func(a []*Term) (string, shape) {
			return part, msg("domain."+part, map[string]shape{"Selector": variantOf("*domain."+part+"_"+sel, s(a))})
		}
	}
	arg := func(a []*Term) shape { return leafIs(a[0]) }
	setters := map[string]func(a []*Term) (string, shape){
		"AnyObject": one(parts[0], "Wildcard", func([]*Term) shape { return wild }), "WithObject": one(parts[0], "ObjectSpec", arg),
		"AnyRelation": one(parts[1], "Wildcard", func([]*Term) shape { return wild }), "WithRelation": one(parts[1], "RelationName", arg),
		"AnySubject": one(parts[2], "Wildcard", func([]*Term) shape { return wild }), "WithSubject": one(parts[2], "SubjectSpec", arg),
	}
	var names []string
	for n := range setters {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.fn(sb + n)
		if f == nil {
			continue
		}
		a := symArgs(f)
		a[0] = z
		for _, o := range c.run(f, stdConfig(), a, nil) {
			if !c.req(o.Kind == "return" && o.Raw[0] == z, rule, fname(f), c.fpos(f), "does not return the builder: %s", o.brief()) {
				continue
			}
			c.freshWrites(f, o, z)
			m, st := built(f, o.St)
			if m == nil {
				continue
			}
			part, want := setters[n](a[1:])
			for _, p := range parts {
				w := ""
				if p == part {
					w = want(c, st, m[p])
				} else if m[p] != base[p] {
					w = "is " + m[p].String()
				}
				c.req(w == "", rule, fname(f), c.fpos(f), "%s %s", p, w)
			}
		}
	}
	c.min(rule, 18)
	if f := c.fn(sb + "Reset"); f != nil {
		for _, o := range c.run(f, stdConfig(), []*Term{z}, nil) {
			if !c.req(o.Kind == "return", "resetting the builder clears every part", fname(f), c.fpos(f), "%s", o.brief()) {
				continue
			}
			c.freshWrites(f, o, z)
			if m, _ := built(f, o.St); m != nil {
				for _, p := range parts {
					c.req(isZeroVal(m[p]), "resetting the builder clears every part", fname(f), c.fpos(f), "%s is %s", p, m[p])
				}
			}
		}
	}
}

func (c *Check) lookups() {
	const rule = "a look-up by name returns the element of that name, or nothing if there is none"
	for name, list := range map[string]string{"(*domain.Policy).GetResourceByName": "Resources", "(*domain.Resource).GetRelationByName": "Relations"} {
		f := c.fn(name)
		if f == nil {
			continue
		}
		a := symArgs(f)
		d := fld(a[0], list)
		for _, o := range c.run(f, stdConfig(), a, nil) {
			if !c.req(o.Kind == "return", rule, name, c.fpos(f), "%s", o.brief()) {
				continue
			}
			r := o.Raw[0]
			if r.isNil() {
				none := forall("x", d, func(x *Term) Formula { return atom(neq(fld(x, "Name"), a[1])) })
				c.req(none.eval(o.ctx()) == tT, rule, name, c.fpos(f), "nothing is returned though an element may have the name: %s", o.brief())
			} else {
				c.req(r.Op == OElem && r.A[0] == d && is(o.St, mkEq(fld(r, "Name"), a[1]), true), rule, name, c.fpos(f), "%s", o.brief())
			}
		}
	}
	c.min(rule, 4)

	const acc = "an accessor returns the part of the variant present"
	kinds := func(fn, of, pre string, want map[string]func(p *Term) *Term) {
		f := c.fn(fn)
		if f == nil {
			return
		}
		a := symArgs(f)
		v := fld(a[0], of)
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			st := newState()
			ty := pre + k
			p := c.pay(v, ty)
			exp := want[k](p)
			st.assume(isNilT(a[0]), false)
			st.assume(isT(v, ty), true)
			st.assume(isNilT(p), false)
			for _, s := range []string{"Object", "Entity"} {
				st.assume(isNilT(fld(p, s)), false)
			}
			for _, o := range c.run(f, stdConfig(), a, st) {
				got := tNil
				if o.Kind == "return" {
					got = o.Rets[0]
				}
				ok := o.Kind == "return" && (eqUnder(o.St, got, exp) || got == exp || isZeroVal(got) && isZeroVal(exp))
				if b, isB := o.St.decide(got); !ok && isB && o.Kind == "return" {
					ok = exp == cBool(b)
				}
				c.req(ok, acc, fn, c.fpos(f), "of %s: %s instead of %s", k, o.brief(), exp)
			}
		}
	}
	kinds("(*domain.Subject).GetResourceName", "Subject", "*domain.Subject_", map[string]func(p *Term) *Term{
		"Entity":      func(p *Term) *Term { return fld(p, "Resource") },
		"EntitySet":   func(p *Term) *Term { return fld(p, "Entity", "Resource") },
		"ResourceSet": func(p *Term) *Term { return fld(p, "ResourceName") },
	})
	obj := func(p *Term) *Term { return fld(p, "Object") }
	yes := func(b bool) func(*Term) *Term { return func(*Term) *Term { return cBool(b) } }
	kinds("(*domain.RelationNode).GetObject", "Node", "*domain.RelationNode_", map[string]func(p *Term) *Term{"Entity": obj, "EntitySet": obj, "Wildcard": func(*Term) *Term { return tNil }})
	kinds("(*domain.RelationNode).IsEntity", "Node", "*domain.RelationNode_", map[string]func(p *Term) *Term{"Entity": yes(true), "EntitySet": yes(false), "Wildcard": yes(false)})
	kinds("(*domain.RelationNode).IsTerminalNode", "Node", "*domain.RelationNode_", map[string]func(p *Term) *Term{"Entity": yes(true), "EntitySet": yes(false), "Wildcard": yes(true)})
	c.min(acc, 12)
}
