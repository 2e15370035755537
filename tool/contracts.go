package main

import "golang.org/x/tools/go/ssa"

// Contracts of the functions that other rules treat as given.

// contractSymbols: the look-up functions of policies return exactly the
// resource or relation of that name.
func (c *Check) contractSymbols() {
	c.contractByName("(*domain.Policy).GetResourceByName", "Resources")
	c.contractByName("(*domain.Resource).GetRelationByName", "Relations")
	c.contractLut()
}

func (c *Check) contractByName(name, list string) {
	f := c.fn(name)
	if f == nil {
		return
	}
	args := symArgs(f)
	d := fld(args[0], list)
	body := func(x *Term) Formula { return atom(mkEq(fld(x, "Name"), args[1])) }
	for _, o := range c.run(f, Config{}, args, nil) {
		if o.Kind != "return" {
			continue
		}
		r := o.Rets[0]
		if r == tNil {
			c.req(exists("x", d, body).eval(o.ctx()) == tF, "nothing found only if there is none", name, c.fpos(f), "%s", o.brief())
		} else {
			ok := r.Op == OElem && r.A[0] == d && body(r).eval(o.ctx()) == tT
			c.req(ok, "what is found has the name", name, c.fpos(f), "%s", o.brief())
		}
	}
}

func (c *Check) contractLut() {
	g := c.fn(lutNew)
	getRel, getRes := c.fn(lutRel), c.fn(lutRes)
	if g == nil || getRel == nil || getRes == nil {
		return
	}
	args := symArgs(g)
	pol := args[0]
	type read struct {
		field string
		key   *Term
	}
	if field, ok := c.lutScans(getRel, getRes); ok {
		for _, o := range c.run(g, Config{}, args, nil) {
			if o.Kind == "return" {
				v := mkFld(o.Raw[0], field, nil)
				c.req(strip(v) == pol, "look-up searches the policy the table is made for", lutNew, c.fpos(g), "%s", o.brief())
			}
		}
		return
	}
	reader := func(name string, nargs int) (rd read) {
		f := c.fn(name)
		a := symArgs(f)
		for _, o := range c.run(f, Config{}, a, nil) {
			if o.Kind != "return" {
				continue
			}
			r := o.Rets[0]
			if r == tNil {
				continue
			}
			ok := r.Op == OLookup && r.A[0].Op == OFld && r.A[0].A[0] == a[0]
			c.req(ok, "look-up reads the table", name, c.fpos(f), "%s", o.brief())
			if ok {
				rd = read{r.A[0].S, r.A[1]}
				for i := 1; i <= nargs; i++ {
					c.req(r.A[1].contains(a[i]), "look-up uses the whole name", name, c.fpos(f), "%s", o.brief())
				}
			}
		}
		for _, o := range c.run(f, Config{}, a, nil) {
			if o.Kind == "return" && o.Rets[0] == tNil && rd.key != nil {
				v, ok := o.St.decide(mkHas(mkFld(a[0], rd.field, nil), rd.key))
				c.req(ok && !v, "nothing found only if the table has none", name, c.fpos(f), "%s", o.brief())
			}
		}
		return
	}
	rr, rs := reader(lutRel, 2), reader(lutRes, 1)
	if rr.key == nil || rs.key == nil {
		c.req(false, "look-up reads the table", lutRel, c.fpos(getRel), "no look-up found")
		return
	}
	ra, sa := symArgs(getRel), symArgs(getRes)
	c.req(injective(rr.key, ra[1], ra[2]), "relation keys are unambiguous", lutRel, c.fpos(getRel), "different relations may share the key %s", rr.key)
	for _, o := range c.run(g, Config{}, args, nil) {
		if o.Kind != "return" {
			continue
		}
		relM, resM := mkFld(o.Raw[0], rr.field, nil), mkFld(o.Raw[0], rs.field, nil)
		okRel, okRes := false, false
		resources := fld(pol, "Resources")
		for _, ev := range loopsOver(o.Evs, resources) {
			if !ev.Loop.Exhausted {
				continue
			}
			res := elemOf(ev.Loop.L, resources)
			allRes, allRel := len(ev.Loop.All) > 0, len(ev.Loop.All) > 0
			for _, cs := range ev.Loop.All {
				hasRes, hasRel := false, false
				for _, e := range cs.Evs {
					if e.Kind == "mapset" && e.Raw[0] == resM && e.Args[1] == rs.key.subst(sub1(sa[1], fld(res, "Name"))) && e.Args[2] == res {
						hasRes = true
					}
				}
				rels := fld(res, "Relations")
				for _, in := range loopsOver(cs.Evs, rels) {
					if !in.Loop.Exhausted {
						continue
					}
					rel := elemOf(in.Loop.L, rels)
					all := len(in.Loop.All) > 0
					for _, k := range in.Loop.All {
						one := false
						for _, e := range k.Evs {
							if e.Kind == "mapset" && e.Raw[0] == relM && e.Args[1] == rr.key.subst(sub2(ra[1], fld(res, "Name"), ra[2], fld(rel, "Name"))) && e.Args[2] == rel {
								one = true
							}
						}
						all = all && one
					}
					hasRel = hasRel || all
				}
				allRes, allRel = allRes && hasRes, allRel && hasRel
			}
			okRes, okRel = okRes || allRes, okRel || allRel
		}
		c.req(okRes, "every resource is in the table under its name", lutNew, c.fpos(g), "%s", o.brief())
		c.req(okRel, "every relation is in the table under its names", lutNew, c.fpos(g), "%s", o.brief())
		n := 0
		walk(o, func(w where) {
			if w.ev.Kind == "mapset" || w.ev.Kind == "mapdel" {
				n++
			}
		})
		c.req(n == 2, "nothing else is in the table", lutNew, c.fpos(g), "%d writes to the table, 2 expected", n)
	}
}

// lutScans: a table without maps. It holds the policy, and the look-ups search its
// resources and relations by name.
func (c *Check) lutScans(getRel, getRes *ssa.Function) (field string, scans bool) {
	type ret struct {
		o    *Outcome
		f    *ssa.Function
		a    []*Term
		kind string
	}
	var rets []ret
	for _, f := range []*ssa.Function{getRel, getRes} {
		a := symArgs(f)
		for _, o := range c.run(f, Config{}, a, nil) {
			if o.Kind != "return" {
				continue
			}
			kind := "relation"
			if f == getRes {
				kind = "resource"
			}
			rets = append(rets, ret{o, f, a, kind})
			r := o.Rets[0]
			if kind == "resource" && r.Op == OElem && r.A[0].Op == OFld && r.A[0].S == "Resources" && r.A[0].A[0].Op == OFld && r.A[0].A[0].A[0] == a[0] {
				field = r.A[0].A[0].S
			}
		}
	}
	if field == "" {
		return "", false
	}
	for _, q := range rets {
		res := fld(fld(q.a[0], field), "Resources")
		named := func(n *Term) func(*Term) Formula {
			return func(x *Term) Formula { return atom(mkEq(fld(x, "Name"), n)) }
		}
		has := func(x, n *Term) bool { return named(n)(x).eval(q.o.ctx()) == tT }
		none := func(d, n *Term) bool { return exists("x", d, named(n)).eval(q.o.ctx()) == tF }
		r := q.o.Rets[0]
		ok := false
		switch {
		case q.kind == "resource" && r == tNil:
			ok = none(res, q.a[1])
		case q.kind == "resource":
			ok = r.Op == OElem && r.A[0] == res && has(r, q.a[1])
		case r == tNil:
			ok = none(res, q.a[1])
			for t := range q.o.St.facts {
				t.has(func(x *Term) bool {
					if x.Op == OElem && x.A[0] == res && has(x, q.a[1]) && none(fld(x, "Relations"), q.a[2]) {
						ok = true
					}
					return false
				})
			}
		default:
			if r.Op == OElem && r.A[0].Op == OFld && r.A[0].S == "Relations" {
				x := r.A[0].A[0]
				ok = x.Op == OElem && x.A[0] == res && has(x, q.a[1]) && has(r, q.a[2])
			}
		}
		c.req(ok, "look-up finds exactly the named "+q.kind, fname(q.f), c.fpos(q.f), "%s", q.o.brief())
	}
	return field, true
}

func sub1(a, b *Term) func(*Term) *Term {
	return func(x *Term) *Term {
		if x == a {
			return b
		}
		return nil
	}
}

func sub2(a, b, c, d *Term) func(*Term) *Term {
	return func(x *Term) *Term {
		switch x {
		case a:
			return b
		case c:
			return d
		}
		return nil
	}
}

// injective: the key determines each of the given strings. Accepted are
// structs and protobuf messages that hold them in fields of their own, and
// literal sequences with every part but one of fixed length or quoted.
func injective(key *Term, parts ...*Term) bool {
	key = strip(key)
	if key.Op == OCall && len(key.A) == 1 && (len(key.S) > 7 && key.S[len(key.S)-7:] == ".String") {
		return injective(key.A[0], parts...)
	}
	if len(parts) == 1 && key == parts[0] {
		return true
	}
	if key.Op == OStruct || key.Op == ONew || key.Op == OLit {
		for _, p := range parts {
			ok := false
			for _, a := range key.A {
				if strip(a) == p {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}
