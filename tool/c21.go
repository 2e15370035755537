package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	yamlFrom   = "policy_definition.PolicyFromYaml"
	yamlRead   = "policy_definition.UnmarshalPolicyDefinition"
	yamlMap    = "policy_definition.MapPolicyDefinition"
	yamlDecode = "(*gopkg.in/yaml.v3.Decoder).Decode"
	yamlStrict = "(*gopkg.in/yaml.v3.Decoder).KnownFields"
	yamlNew    = "gopkg.in/yaml.v3.NewDecoder"
)

func init() {
	register("C21", "Translation of YAML policies: the document's keys and their types are read off the struct tags of the definition types; decoding is shown to be strict, of the given text, and to fail exactly if the decoder fails; after it every entry of the two nested maps is present and carries its own key as its name; the mapping is compared, field by field and element by element over exhausted loops, with the policy the definition describes, including the restriction every listed type denotes; intermediate lists may only be reordered. The service uses the result for the text of the request.", checkC21)
}

// keysOf lists the document keys of a definition type and the fields they fill.
func (c *Check) keysOf(t types.Type) map[string]*types.Var {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]*types.Var{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("yaml")
		if tag == "" && !strings.Contains(st.Tag(i), ":") {
			tag = st.Tag(i)
		}
		p := strings.Split(tag, ",")
		for _, o := range p[1:] {
			if o == "inline" {
				return nil
			}
		}
		k := p[0]
		switch k {
		case "-":
			continue
		case "":
			k = strings.ToLower(f.Name())
		}
		if out[k] != nil {
			return nil
		}
		out[k] = f
	}
	return out
}

type yamlDef struct {
	pol, res, rel map[string]*types.Var
}

func (c *Check) yamlTypes(t types.Type) *yamlDef {
	const rule = "the document's keys"
	d := &yamlDef{}
	keys := func(t types.Type, what string, want map[string]string) map[string]*types.Var {
		got := c.keysOf(t)
		okay := got != nil
		for k, ty := range want {
			f := got[k]
			okay = c.req(f != nil && (ty == "" || typeStr(f.Type().Underlying()) == ty), rule, what+"."+k, "-", "the definition has no key %q of type %s", k, ty) && okay
		}
		for k, f := range got {
			if _, ok := want[k]; !ok {
				okay = c.req(false, rule, what+"."+k, c.P.Pos(f.Pos()), "a key %q that is not part of a definition is accepted", k) && okay
			}
		}
		ms := types.NewMethodSet(types.NewPointer(derefType(t)))
		for i := 0; i < ms.Len(); i++ {
			switch n := ms.At(i).Obj().Name(); n {
			case "UnmarshalYAML", "UnmarshalText", "IsZero":
				okay = c.req(n == "IsZero", rule, what, c.P.Pos(ms.At(i).Obj().Pos()), "the definition decodes itself") && okay
			}
		}
		if !okay {
			return nil
		}
		return got
	}
	if d.pol = keys(t, "policy", map[string]string{"id": "string", "name": "string", "doc": "string", "resources": "", "attributes": "map[string]string"}); d.pol == nil {
		return nil
	}
	elem := func(f *types.Var) types.Type {
		m, ok := f.Type().Underlying().(*types.Map)
		if !ok || typeStr(m.Key()) != "string" {
			return nil
		}
		if _, ok := m.Elem().(*types.Pointer); !ok {
			return nil
		}
		return m.Elem()
	}
	e := elem(d.pol["resources"])
	if !c.req(e != nil, rule, "policy.resources", c.P.Pos(d.pol["resources"].Pos()), "not a map of definitions") {
		return nil
	}
	if d.res = keys(e, "resource", map[string]string{"doc": "string", "relations": ""}); d.res == nil {
		return nil
	}
	e = elem(d.res["relations"])
	if !c.req(e != nil, rule, "resource.relations", c.P.Pos(d.res["relations"].Pos()), "not a map of definitions") {
		return nil
	}
	if d.rel = keys(e, "relation", map[string]string{"doc": "string", "expr": "string", "types": "[]string"}); d.rel == nil {
		return nil
	}
	return d
}

func checkC21(c *Check) {
	read, mp := c.fn(yamlRead), c.fn(yamlMap)
	if read == nil || mp == nil {
		return
	}
	if !c.req(len(mp.Params) == 1 && len(read.Params) == 1, "anchor", fname(mp), c.fpos(mp), "signature") {
		return
	}
	d := c.yamlTypes(mp.Params[0].Type())
	if d == nil {
		return
	}
	nres, nrel := c.yamlNames(read, d)
	c.yamlMapping(mp, d, nres, nrel)
	c.yamlFlow()
	c.min("every entry is there under its own name", 2)
	c.min("a type denotes its restriction", 2)
	c.min("the policy of a definition", 1)
}

// yamlNames: the text is decoded strictly, and every entry gets its name.
func (c *Check) yamlNames(f *ssa.Function, d *yamlDef) (nres, nrel string) {
	const rDec, rStrict, rErr, rName = "the given text is decoded", "unknown keys are refused", "a document is refused exactly if it cannot be decoded", "every entry is there under its own name"
	args := symArgs(f)
	oks := 0
	for _, o := range c.run(f, stdConfig(), args, nil) {
		if !c.req(o.Kind == "return", rErr, fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		var dec, strict *Event
		decs := 0
		for _, ev := range o.Evs {
			if ev.Kind == "call" && ev.Name == yamlDecode {
				dec = ev
				decs++
			}
			if ev.Kind == "call" && ev.Name == yamlStrict && dec == nil {
				strict = ev
			}
		}
		if !c.req(decs == 1, rDec, fname(f), c.fpos(f), "%d calls of Decode: %s", decs, o.brief()) {
			continue
		}
		src := strip(dec.Args[0])
		c.req(src.Op == OCall && src.S == yamlNew && readerOf(src.A[0], args[0]), rDec, fname(f), c.posOf(dec), "decodes %s", src)
		c.req(strict != nil && strict.Raw[0] == dec.Raw[0] && strict.Args[1] == tTrue, rStrict, fname(f), c.posOf(dec), "decoding is not strict")
		fresh := strip(dec.Args[1])
		c.req(fresh.Op == ONew && len(fresh.A) == 0, rDec, fname(f), c.posOf(dec), "decodes into %s", fresh)
		if !o.ok() {
			c.req(is(o.St, isNilT(dec.Res), false), rErr, fname(f), c.fpos(f), "refused although it was decoded: %s", o.brief())
			continue
		}
		oks++
		c.req(is(o.St, isNilT(dec.Res), true), rErr, fname(f), c.fpos(f), "accepted although it was not decoded: %s", o.brief())
		def := strip(o.Rets[0])
		if !c.req(def.Op == OMut && def.A[0] == dec.Res, rDec, fname(f), c.fpos(f), "returns %s", def) {
			continue
		}
		ev, e := namedLoop(o.ctx(), fld(def, d.pol["resources"].Name()), &nres)
		if c.req(e == "", rName, fname(f), c.fpos(f), "resources: %s", e) {
			for _, cs := range ev.Loop.All {
				x := mk(OVal, "", 0, ev.Loop.L, nil, nil, nil, ev.Loop.Domain)
				if is(cs.St, isNilT(x), true) {
					continue
				}
				_, e := namedLoop(cs.ctx(), fld(x, d.res["relations"].Name()), &nrel)
				c.req(e == "", rName, fname(f), c.fpos(f), "relations: %s", e)
			}
		}
		// nothing else is changed
		for _, w := range allEvents(o, func(ev *Event) bool { return ev.Kind == "mapdel" || ev.Kind == "store" }) {
			c.req(w.ev.Kind == "store" && (w.ev.Name == "."+nres || w.ev.Name == "."+nrel), "nothing decoded is changed", fname(f), c.posOf(w.ev), "%s %s", w.ev.Kind, w.ev.Name)
		}
	}
	c.req(oks > 0, rErr, fname(f), c.fpos(f), "never succeeds")
	return
}

// readerOf: r reads the text t.
func readerOf(r, t *Term) bool {
	r = strip(r)
	if r.Op != OCall || len(r.A) != 1 {
		return false
	}
	switch r.S {
	case "strings.NewReader", "bytes.NewBufferString":
		return strip(r.A[0]) == t
	case "bytes.NewReader", "bytes.NewBuffer":
		return strip(r.A[0]) == t
	}
	return false
}

// namedLoop: a loop visits every entry of the map d, replaces missing ones and
// stores the key of each in its definition (in the field that is returned).
func namedLoop(cx Ctx, d *Term, name *string) (*Event, string) {
	var found *Event
	for _, ev := range cx.evs {
		if ev.Kind == "loop" && ev.Loop.L.Kind == "map" && ev.Loop.Domain == d {
			found = ev
		}
	}
	if found == nil {
		return nil, "no loop visits " + d.String()
	}
	if !found.Loop.Exhausted {
		return nil, "the loop may end before all entries of " + d.String() + " were visited"
	}
	L := found.Loop.L
	ofL := func(t *Term, op Op) bool { return t.Op == op && t.L == L }
	if len(found.Loop.All) == 0 {
		return nil, "no iteration"
	}
	for _, cs := range found.Loop.All {
		x := mk(OVal, "", 0, L, nil, nil, nil, d)
		nilV, known := cs.St.decide(isNilT(x))
		if !known {
			return nil, "an entry that may be missing: " + cs.brief()
		}
		set := 0
		for k, items := range cs.Items {
			for i, it := range items {
				ks := cs.Keys[k]
				if i >= len(ks) || !ofL(ks[i], OKey) {
					return nil, "another entry is set: " + cs.brief()
				}
				if !nilV && !ofL(strip(it), OVal) {
					return nil, "an entry is replaced: " + cs.brief()
				}
				if nilV {
					if it.Op != ONew && strip(it).Op != OStruct && !strings.HasPrefix(it.String(), "&") {
						return nil, "a missing entry becomes " + it.String()
					}
					n := nameField(it, L)
					if n == "" || *name != "" && n != *name {
						return nil, "a missing entry does not get its name: " + it.String()
					}
					*name = n
					set++
				}
			}
		}
		if nilV {
			if set != 1 {
				return nil, "a missing entry is not set: " + cs.brief()
			}
			continue
		}
		last := ""
		var val *Term
		for _, ev := range cs.Evs {
			if ev.Kind == "store" && baseVal(ev.Raw[0], L) {
				last, val = strings.TrimPrefix(ev.Name, "."), ev.Args[1]
			}
		}
		if last == "" || !ofL(strip(val), OKey) {
			return nil, "an entry does not get its name: " + cs.brief()
		}
		if *name != "" && last != *name {
			return nil, "the name is stored in " + last + " and in " + *name
		}
		*name = last
	}
	return found, ""
}

// nameField is the field of a new definition that holds the key of the loop; the others are unset.
func nameField(it *Term, L *Loop) string {
	n := ""
	for _, f := range structNames(derefType(it.T)) {
		v := fld(strip(it), f)
		if v.Op == OKey && v.L == L {
			n = f
		} else if s, ok := v.strVal(); !(v.isNil() || ok && s == "") {
			return ""
		}
	}
	return n
}

func baseVal(t *Term, L *Loop) bool {
	for {
		t = strip(t)
		switch {
		case t.Op == OVal && t.L == L:
			return true
		case t.Op == OWith || t.Op == OAddr || t.Op == ODeref:
			t = t.A[0]
		default:
			return false
		}
	}
}

// ---- mapping ----

// each: t has exactly one item for every element of d; what is wrong, or "".
func eachOf(cx Ctx, t, d *Term, item func(cx Ctx, x, key, item *Term) string) string {
	t = strip(t)
	if t.Op == OLit && len(t.A) == 0 || t.isNil() {
		if is(cx.st, mkEq(mkLen(d), cInt(0)), true) {
			return ""
		}
		return "nothing is listed"
	}
	if t.Op != OColl || t.L == nil {
		return "not a list made of the elements: " + t.String()
	}
	for p := t; ; {
		info := collInfo(p)
		if info == nil || !info.Exhausted {
			return "the loop may end before all elements were visited"
		}
		if len(info.All) == 0 {
			return "no iteration"
		}
		for _, cs := range info.All {
			if n := len(cs.Items[p.S]); n != 1 {
				return "an element is listed more than once or left out: " + cs.brief()
			}
		}
		if p.L.Domain == d {
			break
		}
		if p.L.Domain == nil || p.L.Domain.Op != OColl {
			return "the list is made of " + p.L.name()
		}
		p = p.L.Domain
	}
	for _, cs := range collInfo(t).All {
		it := cs.Items[t.S][0]
		var x, key *Term
		var L *Loop
		bad := false
		look := func(r *Term) {
			r.each(func(y *Term) {
				if (y.Op == OVal || y.Op == OElem || y.Op == OKey) && y.A[0] == d {
					bad = bad || L != nil && L != y.L
					L = y.L
				}
				if y.Op == OLookup && y.A[0] == d {
					x = y
				}
			})
		}
		look(it)
		if L == nil || bad {
			return "an item is not made of one element: " + it.String()
		}
		if L.Kind == "map" {
			key = mk(OKey, "", 0, L, nil, nil, nil, d)
			if x == nil {
				x = mk(OVal, "", 0, L, nil, nil, nil, d)
			} else if x.A[1] != key {
				return "an item is made of another entry: " + it.String()
			}
		} else {
			x = mk(OElem, "", 0, L, nil, nil, nil, d)
		}
		if e := item(cs.ctx(), x, key, it); e != "" {
			return e + ": " + cs.brief()
		}
	}
	return ""
}

func (c *Check) yamlMapping(f *ssa.Function, d *yamlDef, nres, nrel string) {
	const rPol, rRes, rRel, rType = "the policy of a definition", "the resource of a definition", "the relation of a definition", "a type denotes its restriction"
	args := symArgs(f)
	def := args[0]
	diff := func(cx Ctx, t *Term, want map[string]*Term, alt map[string]*Term) string {
		v := strip(t)
		for _, n := range structNames(derefType(t.T)) {
			w, ok := want[n]
			if !ok {
				if _, listed := alt[n]; listed {
					continue
				}
				if n == "state" || n == "sizeCache" || n == "unknownFields" {
					continue
				}
				return "the field " + n + " is not one of a definition"
			}
			g := fld(v, n)
			if !eqUnder(cx.st, g, w) && !(alt[n] != nil && eqUnder(cx.st, g, alt[n])) {
				return n + " is " + g.String()
			}
			delete(want, n)
		}
		for n := range want {
			return "there is no " + n
		}
		return ""
	}
	skip := tTrue
	restriction := func(cx Ctx, t, ts *Term) string {
		any := exists("*", ts, func(x *Term) Formula { return atom(mkEq(x, cStr("*"))) })
		uni := Formula{"*", func(k Ctx) tri {
			for f, v := range k.st.facts {
				if f.Op == OCall && strings.HasSuffix(f.S, "slices.Contains") && len(f.A) == 2 && f.A[0] == ts {
					if s, ok := f.A[1].strVal(); ok && s == "*" {
						return boolTri(v, true)
					}
				}
			}
			return any.eval(k)
		}}
		v := fld(strip(t), "SubjectRestriction")
		switch uni.eval(cx) {
		case tT:
			if is(cx.st, isT(v, "*domain.SubjectRestriction_UniversalSet"), true) {
				u := c.pay(v, "*domain.SubjectRestriction_UniversalSet")
				if is(cx.st, isNilT(u), false) || strings.HasPrefix(u.String(), "&") {
					return ""
				}
			}
			return "any subject is listed, the restriction is " + t.String()
		case tF:
			if !is(cx.st, isT(v, "*domain.SubjectRestriction_RestrictionSet"), true) {
				return "the listed types become " + t.String()
			}
			set := c.pay(v, "*domain.SubjectRestriction_RestrictionSet")
			return eachOf(cx, fld(strip(set), "Restrictions"), ts, func(cx Ctx, x, _, it *Term) string {
				e := c.typeRestriction(cx, x, it)
				c.req(e == "", rType, fname(f), c.fpos(f), "%s", e)
				return e
			})
		}
		return "the restriction does not depend on whether any subject is listed: " + t.String()
	}
	relation := func(cx Ctx, x, key, it *Term) string {
		e := diff(cx, it, map[string]*Term{"Name": fld(x, nrel), "Description": fld(x, d.rel["doc"].Name())}, map[string]*Term{"Name": key, "RelationExpression": skip, "SubjectRestriction": skip})
		if e != "" {
			return e
		}
		ex := fld(strip(fld(strip(it), "RelationExpression")), "Expression")
		if !is(cx.st, isT(ex, "*domain.RelationExpression_Expr"), true) || !eqUnder(cx.st, c.pay(ex, "*domain.RelationExpression_Expr"), fld(x, d.rel["expr"].Name())) {
			return "the expression is " + ex.String()
		}
		return restriction(cx, fld(strip(it), "SubjectRestriction"), fld(x, d.rel["types"].Name()))
	}
	resource := func(cx Ctx, x, key, it *Term) string {
		e := diff(cx, it, map[string]*Term{"Name": fld(x, nres), "Description": fld(x, d.res["doc"].Name())}, map[string]*Term{"Name": key, "Relations": skip})
		if e != "" {
			return e
		}
		e = eachOf(cx, fld(strip(it), "Relations"), fld(x, d.res["relations"].Name()), relation)
		c.req(e == "", rRel, fname(f), c.fpos(f), "%s", e)
		return ""
	}
	for _, o := range c.run(f, stdConfig(), args, nil) {
		if !c.req(o.Kind == "return" && len(o.Rets) == 1, rPol, fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		p := o.Rets[0]
		e := diff(o.ctx(), p, map[string]*Term{"Id": fld(def, d.pol["id"].Name()), "Name": fld(def, d.pol["name"].Name()), "Description": fld(def, d.pol["doc"].Name()), "Attributes": fld(def, d.pol["attributes"].Name())}, map[string]*Term{"Resources": skip})
		c.req(e == "", rPol, fname(f), c.fpos(f), "%s: %s", e, o.brief())
		e = eachOf(o.ctx(), fld(strip(p), "Resources"), fld(def, d.pol["resources"].Name()), resource)
		c.req(e == "", rRes, fname(f), c.fpos(f), "%s", e)
		walk(o, func(w where) {
			switch w.ev.Kind {
			case "store", "mapset", "mapdel", "dyncall", "go", "send":
				c.req(false, "the definition is only read", fname(f), c.posOf(w.ev), "%s %s", w.ev.Kind, w.ev.Name)
			case "call":
				c.reorders(f, w.ev)
			}
		})
	}
}

// typeRestriction: it is the restriction that the listed type x denotes.
func (c *Check) typeRestriction(cx Ctx, x, it *Term) string {
	sep := cStr(":")
	cut := mk(OCall, "strings.Cut", 0, nil, nil, nil, nil, x, sep)
	isCut := func(t *Term, n int) bool {
		return t.Op == ORes && t.S == fmt.Sprint(n) && t.A[0].Op == OCall && t.A[0].S == cut.S && t.A[0].A[0] == x && t.A[0].A[1] == sep
	}
	idx := func(t *Term) bool { return t.Op == OCall && t.S == "strings.Index" && t.A[0] == x && t.A[1] == sep }
	has := tU
	for f, v := range cx.st.facts {
		switch {
		case isCut(f, 2), f.Op == OCall && f.S == "strings.Contains" && f.A[0] == x && f.A[1] == sep:
			has = boolTri(v, true)
		case f.Op == OBin && (f.S == "<" || f.S == ">=") && idx(f.A[0]) && f.A[1] == cInt(0):
			has = boolTri(v == (f.S == ">="), true)
		case f.Op == OBin && f.S == "==" && idx(f.A[0]) && f.A[1] == cInt(-1):
			has = boolTri(!v, true)
		}
	}
	before := func(t *Term) bool {
		t = strip(t)
		if has == tF && t == x {
			return true
		}
		if isCut(t, 0) || t.Op == OIndex && splitN(t.A[0], x, sep) && t.A[1] == cInt(0) {
			return true
		}
		return t.Op == OSlice && t.A[0] == x && (t.A[1].isNil() || t.A[1] == cInt(0)) && len(t.A) > 2 && idx(t.A[2])
	}
	after := func(t *Term) bool {
		t = strip(t)
		if isCut(t, 1) || t.Op == OIndex && splitN(t.A[0], x, sep) && t.A[1] == cInt(1) {
			return true
		}
		return t.Op == OSlice && t.A[0] == x && len(t.A) > 2 && t.A[2].isNil() && t.A[1].Op == OBin && t.A[1].S == "+" && idx(t.A[1].A[0]) && t.A[1].A[1] == cInt(1)
	}
	en := fld(strip(it), "Entry")
	switch has {
	case tT:
		if !is(cx.st, isT(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet"), true) {
			return "a type with a relation becomes " + it.String()
		}
		p := strip(c.pay(en, "*domain.SubjectRestrictionSet_Restriction_EntitySet"))
		if !before(fld(p, "ResourceName")) || !after(fld(p, "RelationName")) {
			return "a type with a relation becomes " + it.String()
		}
	case tF:
		if !is(cx.st, isT(en, "*domain.SubjectRestrictionSet_Restriction_Entity"), true) {
			return "a type without a relation becomes " + it.String()
		}
		p := strip(c.pay(en, "*domain.SubjectRestrictionSet_Restriction_Entity"))
		if !before(fld(p, "ResourceName")) {
			return "a type without a relation becomes " + it.String()
		}
	default:
		return "the restriction does not depend on whether the type has a relation: " + it.String()
	}
	return ""
}

func splitN(t, x, sep *Term) bool {
	return t.Op == OCall && t.S == "strings.SplitN" && t.A[0] == x && t.A[1] == sep && t.A[2] == cInt(2)
}

// reorders: a call that is given a list does no more than reorder it.
func (c *Check) reorders(f *ssa.Function, ev *Event) {
	const rule = "lists are only reordered"
	given := false
	for _, a := range ev.Args {
		a.each(func(x *Term) { given = given || x.Op == OColl })
	}
	if !given {
		return
	}
	switch n := ev.Name; {
	case n == "sort.Sort" || n == "sort.Stable":
		t := ev.Args[0]
		if t.Op == OIface {
			t = t.A[0]
		}
		if !c.req(t.T != nil, rule, fname(f), c.posOf(ev), "sorts %s", t) {
			return
		}
		for _, m := range []string{"Swap", "Less"} {
			g := c.method(t.T, m)
			if g == nil {
				continue
			}
			e := c.swaps(g, m == "Swap")
			c.req(e == "", rule, fname(g), c.fpos(g), "%s", e)
		}
	case n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Strings":
		c.req(true, rule, fname(f), c.posOf(ev), "")
	case strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "golang.org/x/exp/slices.Sort"):
		c.req(true, rule, fname(f), c.posOf(ev), "")
	default:
		c.req(false, rule, fname(f), c.posOf(ev), "the list is handed to %s", n)
	}
}

// swaps: the method exchanges two elements of its list (or changes nothing).
func (c *Check) swaps(g *ssa.Function, exchange bool) string {
	args := symArgs(g)
	stored := false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				_, el := x.Addr.(*ssa.IndexAddr)
				stored = stored || el
			case *ssa.UnOp:
				if _, el := x.X.(*ssa.IndexAddr); el && x.Op == token.MUL && stored {
					return "an element is read after one was replaced"
				}
			case *ssa.Call:
				if stored {
					return "a call after an element was replaced"
				}
			}
		}
	}
	for _, o := range c.run(g, stdConfig(), args, nil) {
		if o.Kind != "return" {
			return o.brief()
		}
		var sts []*Event
		for _, ev := range o.Evs {
			switch ev.Kind {
			case "store":
				sts = append(sts, ev)
			case "mapset", "mapdel":
				return ev.Kind
			}
		}
		if !exchange {
			if len(sts) > 0 {
				return "comparing changes the list"
			}
			continue
		}
		if len(sts) != 2 || len(args) != 3 {
			return "two elements are not exchanged: " + o.brief()
		}
		for n, ev := range sts {
			if ev.Name != "[]" || len(ev.Raw) != 3 || ev.Raw[0] != sts[0].Raw[0] || !ev.Raw[0].has(func(x *Term) bool { return x == args[0] }) {
				return "two elements of the list are not exchanged: " + o.brief()
			}
			other := sts[1-n].Raw[1]
			v := ev.Raw[2]
			if ev.Raw[1] == other || ev.Raw[1] != args[1] && ev.Raw[1] != args[2] || v.Op != OIndex || v.A[0] != ev.Raw[0] || v.A[1] != other {
				return "the element " + ev.Raw[1].String() + " becomes " + v.String()
			}
		}
	}
	return ""
}

// yamlFlow: the service uses the policy of the given text.
func (c *Check) yamlFlow() {
	const rule = "the policy of the given definition is used"
	call := func(name string, arg *Term) func(n int) *Term {
		return func(n int) *Term {
			return resN(mk(OCall, name, 0, nil, nil, nil, nil, arg), n, nil)
		}
	}
	if f := c.fn(yamlFrom); f != nil {
		args := symArgs(f)
		read := call(yamlRead, args[0])
		for _, o := range c.run(f, stdConfig(yamlRead, yamlMap), args, nil) {
			if !c.req(o.Kind == "return", rule, fname(f), c.fpos(f), "%s", o.brief()) {
				continue
			}
			if !o.ok() {
				c.req(is(o.St, isNilT(read(1)), false), rule, fname(f), c.fpos(f), "refused although it was read: %s", o.brief())
				continue
			}
			r := strip(o.Rets[0])
			c.req(is(o.St, isNilT(read(1)), true) && r.Op == OCall && r.S == yamlMap && r.A[0] == read(0), rule, fname(f), c.fpos(f), "returns %s: %s", r, o.brief())
		}
	}
	if f := c.fn("policy.GetPolicyFromDefinition"); f != nil {
		args := symArgs(f)
		v := fld(args[0], "Definition")
		const py, pp = "*api.PolicyDefinition_PolicyYaml", "*api.PolicyDefinition_Policy"
		seen := map[string]bool{}
		text := call(yamlFrom, c.pay(v, py))
		for _, o := range c.run(f, stdConfig(yamlFrom), args, nil) {
			if !c.req(o.Kind == "return", rule, fname(f), c.fpos(f), "%s", o.brief()) {
				continue
			}
			switch {
			case is(o.St, isT(v, py), true) && o.ok():
				seen[py] = true
				c.req(is(o.St, isNilT(text(1)), true) && o.Rets[0] == text(0), rule, fname(f), c.fpos(f), "returns %s", o.Rets[0])
			case is(o.St, isT(v, py), true):
				c.req(is(o.St, isNilT(text(1)), false), rule, fname(f), c.fpos(f), "refused although it was read: %s", o.brief())
			case is(o.St, isT(v, pp), true):
				seen[pp] = true
				c.req(o.ok() && o.Rets[0] == c.pay(v, pp), rule, fname(f), c.fpos(f), "%s", o.brief())
			default:
				c.req(!o.ok(), rule, fname(f), c.fpos(f), "a request without a definition succeeds: %s", o.brief())
			}
		}
		c.req(seen[py] && seen[pp], rule, fname(f), c.fpos(f), "a form of definition is never accepted")
	}
}
