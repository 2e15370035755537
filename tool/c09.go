package main

func init() {
	register("C09", "Relationship admission: every path of SetRelationship that writes is shown to have established the admission predicate (policy found; relationship complete; object, relation and subject symbols resolved in that policy; subject admitted by the relation's restriction), and every path that refuses is shown to have refuted it or to report a storage failure. Facts come from a path-sensitive interprocedural dataflow over the SSA form, with loops summarised by their iteration cases. The look-up table's own contract is discharged separately.", checkC09)
}

// subjectKinds: the variants of a subject and the strings that make it up.
type subjKind struct {
	is       *Term
	resource *Term
	relation *Term // entity sets only
	fields   []*Term
}

func (c *Check) subjKinds(sub *Term) []subjKind {
	oneof := fld(sub, "Subject")
	en := c.pay(oneof, "*domain.Subject_Entity")
	es := c.pay(oneof, "*domain.Subject_EntitySet")
	rs := c.pay(oneof, "*domain.Subject_ResourceSet")
	return []subjKind{
		{isT(oneof, "*domain.Subject_Entity"), fld(en, "Resource"), nil, []*Term{fld(en, "Resource"), fld(en, "Id")}},
		{isT(oneof, "*domain.Subject_EntitySet"), fld(es, "Entity", "Resource"), fld(es, "Relation"), []*Term{fld(es, "Entity", "Resource"), fld(es, "Entity", "Id"), fld(es, "Relation")}},
		{isT(oneof, "*domain.Subject_ResourceSet"), fld(rs, "ResourceName"), nil, []*Term{fld(rs, "ResourceName")}},
	}
}

// admitted: relationship r may be stored under policy pol.
func (c *Check) admitted(pol, r *Term) []Formula {
	obj, rel := fld(r, "Object", "Resource"), fld(r, "Relation")
	kinds := c.subjKinds(fld(r, "Subject"))
	var complete, known []Formula
	for _, k := range kinds {
		fs := []Formula{atom(k.is)}
		for _, f := range k.fields {
			fs = append(fs, atom(nonEmpty(f)))
		}
		complete = append(complete, fand(fs...))
		if k.relation != nil {
			known = append(known, fand(atom(k.is), relDefined(pol, k.resource, k.relation)))
		} else {
			known = append(known, fand(atom(k.is), resDefined(pol, k.resource)))
		}
	}
	restricted := Formula{"the subject restriction of the relation admits the subject", func(x Ctx) tri {
		for _, rt := range relTerms(x.st, pol, obj, rel) {
			sr := fld(rt, "SubjectRestriction", "SubjectRestriction")
			set := fld(c.pay(sr, "*domain.SubjectRestriction_RestrictionSet"), "Restrictions")
			var adm []Formula
			for _, k := range kinds {
				k := k
				adm = append(adm, fand(atom(k.is), exists("restriction", set, func(e *Term) Formula {
					en := fld(e, "Entry")
					if k.relation != nil {
						p := c.pay(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet")
						return fand(atom(isT(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet")), atom(mkEq(fld(p, "ResourceName"), k.resource)), atom(mkEq(fld(p, "RelationName"), k.relation)))
					}
					p := c.pay(en, "*domain.SubjectRestrictionSet_Restriction_Entity")
					return fand(atom(isT(en, "*domain.SubjectRestrictionSet_Restriction_Entity")), atom(mkEq(fld(p, "ResourceName"), k.resource)))
				})))
			}
			v := for_(atom(isT(sr, "*domain.SubjectRestriction_UniversalSet")), fand(atom(isT(sr, "*domain.SubjectRestriction_RestrictionSet")), for_(adm...))).eval(x)
			if v != tU {
				return v
			}
		}
		return tU
	}}
	obl := []Formula{
		{"object resource is set", atom(nonEmpty(obj)).f},
		{"object id is set", atom(nonEmpty(fld(r, "Object", "Id"))).f},
		{"relation is set", atom(nonEmpty(rel)).f},
		{"subject is one of the known kinds with all of its fields set", for_(complete...).f},
		{"object resource is defined by the policy", resDefined(pol, obj).f},
		{"relation is defined on the object's resource", relDefined(pol, obj, rel).f},
		{"subject resource and relation are defined by the policy", for_(known...).f},
		restricted,
	}
	return obl
}

// policyRead finds the policy record read for a request, and whether it is there.
func policyRead(o *Outcome, id *Term) (rec *Term, call *Event) {
	for _, ev := range calls(o.Evs, "policy.Repository.GetPolicy") {
		if ev.Args[2] == id {
			return resN(ev.Res, 0, nil), ev
		}
	}
	return nil, nil
}

func checkC09(c *Check) {
	svc := c.implOf("api.PolicyServiceServer")
	f := c.method(svc, "SetRelationship")
	if f == nil {
		return
	}
	args := symArgs(f)
	req := args[2]
	r := fld(req, "Relationship")
	for _, o := range c.run(f, stdConfig(), args, nil) {
		if o.Kind != "return" {
			continue
		}
		writes := calls(o.Evs, "policy.Repository.SetRelationship")
		rec, get := policyRead(o, fld(req, "PolicyId"))
		if len(writes) > 0 || o.ok() {
			if !c.req(rec != nil, "policy looked up before the write", fname(f), c.fpos(f), "a path stores a relationship without reading its policy: %s", o.brief()) {
				continue
			}
			for _, w := range writes {
				c.req(w.Args[2] == r || fld(w.Args[2], "Relationship") == r, "the admitted relationship is the stored one", fname(f), c.posOf(w), "stored %s", w.Args[2])
				c.req(fld(w.Args[2], "PolicyId") == fld(req, "PolicyId"), "stored under the policy it was admitted by", fname(f), c.posOf(w), "stored %s", w.Args[2])
			}
			there, ok := o.St.decide(isNilT(rec))
			c.req(ok && !there, "policy exists", fname(f), c.posOf(get), "a relationship is stored although the policy may be missing: %s", o.brief())
			for _, q := range c.admitted(fld(rec, "Policy"), r) {
				v := q.eval(o.ctx())
				c.req(v == tT, "write only if "+q.name, fname(f), c.fpos(f), "%s is %s on a path that stores the relationship: %s", q.name, v, o.brief())
			}
			continue
		}
		// refused
		why := storageFailed(o) || validatorFailed(o)
		if rec != nil {
			if v, ok := o.St.decide(isNilT(rec)); ok && v {
				why = true
			}
			for _, q := range c.admitted(fld(rec, "Policy"), r) {
				if q.eval(o.ctx()) == tF {
					why = true
				}
			}
		}
		c.req(why, "refused only if not admissible", fname(f), c.fpos(f), "a relationship may be refused although it is admissible: %s", o.brief())
	}
	c.min("refused only if not admissible", 10)
	c.min("policy exists", 4)
	c.contractSymbols()
}
