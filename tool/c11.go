package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Create/update discipline: on every path of CreatePolicy and UpdatePolicy the only write is one SetPolicy, dominated by a GetPolicy of the same id that reported no error and found nothing (create) or something (update); the provenance of every field of the stored and returned record is the request, and on update the creation time of the record read. The storage layer is followed down to the object store: same key space and same key for write and read.", checkC11)
	register("C12", "Lockset and typestate analysis of the policy service: every method that reaches a repository write performs all of its repository calls between one Lock and one Unlock of one mutex that belongs to the service and is the same for all of them, releases it on every returning path, and starts no goroutine.", checkC12)
	register("C18", "Ordering analysis of DeletePolicy: on every path DeletePolicy of the repository is preceded by a DeleteRelationships of the same policy with a selector whose parts are all wildcards and that reported no error; the response's fields are traced to the results; a missing policy leads to no write. Down in storage the record of exactly that id is deleted.", checkC18)
}

var repoWrites = map[string]bool{"SetPolicy": true, "DeletePolicy": true, "SetRelationship": true, "DeleteRelationship": true, "DeleteRelationships": true}

const polRepo = "policy.Repository."

func repoOp(ev *Event) string {
	if ev.Kind == "call" && strings.HasPrefix(ev.Name, polRepo) {
		return ev.Name[len(polRepo):]
	}
	return ""
}

// allEvents lists the events of an outcome, loops included.
func allEvents(o *Outcome, f func(ev *Event) bool) []where {
	var out []where
	walk(o, func(w where) {
		if f(w.ev) {
			out = append(out, w)
		}
	})
	return out
}

func isRepoWrite(ev *Event) bool { return repoWrites[repoOp(ev)] }

func is(st *State, t *Term, want bool) bool {
	v, ok := st.decide(t)
	return ok && v == want
}

// noErr: the call is known to have reported no error.
func noErr(st *State, ev *Event) bool {
	e := errResult(ev)
	return e != nil && is(st, mkEq(e, tNil), true)
}

// svcRun analyses a method of the policy service.
func (c *Check) svcRun(iface, name string, cfg Config) (*ssa.Function, []*Term, []*Outcome) {
	f := c.method(c.implOf(iface), name)
	if f == nil {
		return nil, nil, nil
	}
	args := symArgs(f)
	return f, args, c.run(f, cfg, args, nil)
}

const polSvc = "api.PolicyServiceServer"
const relSvc = "api.RelationGraphServer"

func checkC11(c *Check) {
	for _, name := range []string{"CreatePolicy", "UpdatePolicy"} {
		create := name == "CreatePolicy"
		f, args, outs := c.svcRun(polSvc, name, stdConfig("(*policy.ValidPolicySpec).Verify"))
		if f == nil {
			continue
		}
		req := args[2]
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			ws := allEvents(o, isRepoWrite)
			sub, _ := c.submitted(o, fld(req, "PolicyDefinition"))
			if o.ok() {
				c.req(len(ws) == 1, name+" succeeds only by storing", fname(f), c.fpos(f), "%d writes on a successful path: %s", len(ws), o.brief())
			}
			if !o.ok() {
				c.req(len(ws) == 0 || len(ws) == 1 && !noErr(o.St, ws[0].ev), name+" stores nothing when it fails", fname(f), c.fpos(f), "a path writes and then fails: %s", o.brief())
			}
			for _, w := range ws {
				pos := c.posOf(w.ev)
				if !c.req(repoOp(w.ev) == "SetPolicy" && len(w.in) == 0, name+" writes only the policy", fname(f), pos, "%s", w.ev.Name) {
					continue
				}
				rec := w.ev.Args[2]
				var got *Event
				var found *Term
				for _, g := range calls(o.Evs, polRepo+"GetPolicy") {
					if g.Args[2] == fld(rec, "Policy", "Id") && before(o.Evs, g, w.ev) {
						got, found = g, resN(g.Res, 0, nil)
					}
				}
				if !c.req(got != nil, name+" looks the id up before it writes", fname(f), pos, "no read of the id of the stored policy: %s", o.brief()) {
					continue
				}
				c.req(noErr(o.St, got), name+" writes only after a read that worked", fname(f), pos, "%s", o.brief())
				c.req(is(o.St, isNilT(found), create), name+" writes only if the policy is (not) there", fname(f), pos, "whether the policy exists is not established: %s", o.brief())
				c.req(sub != nil && fld(rec, "Policy") == sub, name+" stores the submitted policy", fname(f), pos, "stored %s", fld(rec, "Policy"))
				c.req(fld(rec, "AppData") == fld(req, "AppData"), name+" stores the submitted application data", fname(f), pos, "stored %s", fld(rec, "AppData"))
				if !create {
					c.req(fld(rec, "CreatedAt") == fld(found, "CreatedAt"), name+" preserves the creation time", fname(f), pos, "stored %s", fld(rec, "CreatedAt"))
				}
				if o.ok() {
					c.req(noErr(o.St, w.ev), name+" succeeds only if stored", fname(f), pos, "%s", o.brief())
					if create {
						r := fld(o.Rets[0], "Record")
						c.req(fld(r, "Policy") == sub && fld(r, "AppData") == fld(req, "AppData") && fld(r, "CreatedAt") == fld(rec, "CreatedAt"), name+" returns the stored record", fname(f), c.fpos(f), "returned %s", r)
					}
				}
			}
		}
		c.min(name+" writes only if the policy is (not) there", 1)
		c.min(name+" succeeds only if stored", 1)
	}
	f, args, outs := c.svcRun(polSvc, "GetPolicy", stdConfig())
	for _, o := range outs {
		if o.ok() {
			rec, get := policyRead(o, fld(args[2], "Id"))
			c.req(rec != nil && noErr(o.St, get) && fld(o.Rets[0], "Record") == rec, "GetPolicy returns what is stored under the id", fname(f), c.fpos(f), "%s", o.brief())
			c.req(len(allEvents(o, isRepoWrite)) == 0, "GetPolicy writes nothing", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("GetPolicy returns what is stored under the id", 1)
	c.contractPolicyStore()
}

func before(evs []*Event, a, b *Event) bool {
	for _, e := range evs {
		if e == a {
			return true
		}
		if e == b {
			return false
		}
	}
	return false
}

// policySpace is the key space that policy records are stored in.
func (c *Check) policySpace() *access {
	_, _, outs := c.repoRun("SetPolicy", Config{})
	for _, o := range outs {
		for _, a := range accesses(o) {
			if a.op == "SetObject" {
				return &a
			}
		}
	}
	c.req(false, "anchor", "SetPolicy", "-", "no write of the policy found")
	return nil
}

// contractPolicyStore: records are written and read in one space, under the policy's id.
func (c *Check) contractPolicyStore() {
	sp := c.policySpace()
	if sp == nil {
		return
	}
	f, args, outs := c.repoRun("SetPolicy", Config{})
	for _, o := range outs {
		if !o.ok() {
			continue
		}
		n := 0
		for _, a := range accesses(o) {
			c.req(a.kind == "object" && a.sameSpace(*sp), "policy records have one key space", fname(f), c.posOf(a.ev), "%s", a)
			if a.write {
				n++
				c.req(a.op == "SetObject" && strip(a.ev.Args[1]) == args[2] && noErr(a.w.ctx.st, a.ev) && len(a.w.in) == 0, "the record is what is stored", fname(f), c.posOf(a.ev), "%s", o.brief())
				c.req(strip(c.iderKey(a, args[2])) == fld(args[2], "Policy", "Id"), "records are stored under the policy's id", fname(f), c.posOf(a.ev), "key %s", c.iderKey(a, args[2]))
			}
		}
		c.req(n == 1, "one record is stored", fname(f), c.fpos(f), "%d writes: %s", n, o.brief())
	}
	c.min("one record is stored", 1)
	f, args, outs = c.repoRun("GetPolicy", Config{})
	for _, o := range outs {
		if !o.ok() {
			continue
		}
		as := accesses(o)
		if !c.req(len(as) == 1 && as[0].op == "GetObject" && as[0].sameSpace(*sp) && strip(as[0].ev.Args[1]) == args[2], "records are read under the id they are stored under", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		c.req(optionResult(o.St, resN(as[0].ev.Res, 0, nil), o.Rets[0]), "a record is returned exactly when there is one", fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min("a record is returned exactly when there is one", 2)
}

// optionResult: v is nil when the option is known to be empty and its value when it is known to hold one.
func optionResult(st *State, opt, v *Term) bool {
	empty, known := optEmpty(st, opt)
	if !known {
		return false
	}
	if empty {
		return v == tNil
	}
	return isOptValue(v, opt)
}

func isOptValue(v, opt *Term) bool {
	v = strip(v)
	return v.Op == OCall && strings.HasSuffix(v.S, "rcdb.Option).Value") && strip(v.A[0]) == opt
}

func optEmpty(st *State, opt *Term) (empty, known bool) {
	for f, v := range st.facts {
		if f.Op == OCall && strings.HasSuffix(f.S, "rcdb.Option).IsEmpty") && strip(f.A[0]) == opt {
			return v, true
		}
	}
	return false, false
}

// iderKey is the key the ider of an object store computes for a record.
func (c *Check) iderKey(a access, rec *Term) *Term {
	if a.ider == nil || a.ider.Op != OIface {
		c.req(false, "anchor", "ider", c.posOf(a.ev), "the ider is not known: %s", a.ider)
		return tNil
	}
	f := c.method(c.P.typeByName[a.ider.S], "Id")
	if f == nil {
		return tNil
	}
	for _, o := range c.run(f, Config{}, []*Term{in("!ider", nil), rec}, nil) {
		if o.Kind == "return" {
			return o.Rets[0]
		}
	}
	return tNil
}

// ---- C12 ----

func lockOp(ev *Event) string {
	if ev.Kind != "call" {
		return ""
	}
	switch ev.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "sync.Locker.Lock":
		return "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "sync.Locker.Unlock":
		return "unlock"
	case "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return "other"
	}
	return ""
}

// rooted: the term is part of the receiver or of a package variable, not of a value made on the way.
func rooted(t, recv *Term) bool {
	ok := false
	bad := t.has(func(x *Term) bool {
		if x == recv || x.Op == OGlob {
			ok = true
		}
		return x.Op == OObj || x.Op == OCall || x.Op == OIn && x != recv
	})
	return ok && !bad
}

func (c *Check) svcMethods(iface string) []string {
	it := c.P.typeByName[iface]
	if it == nil {
		c.req(false, "anchor", iface, "-", "interface not found")
		return nil
	}
	var out []string
	for _, m := range ifaceMethods(it) {
		if strings.ToUpper(m[:1]) == m[:1] {
			out = append(out, m)
		}
	}
	return out
}

func checkC12(c *Check) {
	var shared *Term
	mutators := 0
	for _, name := range c.svcMethods(polSvc) {
		f, args, outs := c.svcRun(polSvc, name, stdConfig("(*policy.ValidPolicySpec).Verify", "(*policy.ValidSelectorSpec).Satisfies", "(*policy.AllowedRelationshipSpec).Satisfies"))
		if f == nil {
			continue
		}
		mut := false
		for _, o := range outs {
			mut = mut || len(allEvents(o, isRepoWrite)) > 0
		}
		c.sites++
		if !mut {
			continue
		}
		mutators++
		for _, o := range outs {
			c.lockDiscipline(f, args[0], o, &shared)
		}
	}
	c.req(mutators >= 5, "mutating methods of the policy service", polSvc, "-", "%d methods that write were found, at least 5 expected", mutators)
	c.min("repository used only under the lock", 12)
}

func (c *Check) lockDiscipline(f *ssa.Function, recv *Term, o *Outcome, shared **Term) {
	held := false
	sections := 0
	used := 0
	var visit func(evs []*Event, top bool)
	visit = func(evs []*Event, top bool) {
		for _, ev := range evs {
			switch lockOp(ev) {
			case "lock":
				m := ev.Args[0]
				if *shared == nil {
					*shared = m
				}
				c.req(rooted(m, recv), "the lock belongs to the service", fname(f), c.posOf(ev), "locked: %s", m)
				c.req(m == *shared, "all mutations use the same lock", fname(f), c.posOf(ev), "%s and %s", m, *shared)
				c.req(!held && top, "the lock is not taken twice", fname(f), c.posOf(ev), "%s", m)
				held = true
				sections++
			case "unlock":
				c.req(held && top && ev.Args[0] == *shared, "only the held lock is released", fname(f), c.posOf(ev), "%s", ev.Args[0])
				held = false
			case "other":
				c.req(false, "mutations take the lock exclusively", fname(f), c.posOf(ev), "%s", ev.Name)
			}
			if ev.Kind == "go" {
				c.req(false, "no work outside of the lock", fname(f), c.posOf(ev), "a goroutine is started: %s", ev.Name)
			}
			if repoOp(ev) != "" {
				c.req(held, "repository used only under the lock", fname(f), c.posOf(ev), "%s is called without the lock", ev.Name)
				used++
			}
			if ev.Kind == "loop" {
				for _, cs := range ev.Loop.All {
					visit(cs.Evs, false)
				}
			}
		}
	}
	visit(o.Evs, true)
	c.req(!held, "the lock is released when the method ends", fname(f), c.fpos(f), "a path ends with the lock held: %s", o.brief())
	if used > 1 {
		c.req(sections == 1, "one critical section", fname(f), c.fpos(f), "%d critical sections on one path: %s", sections, o.brief())
	}
}

// ---- C18 ----

func checkC18(c *Check) {
	f, args, outs := c.svcRun(polSvc, "DeletePolicy", stdConfig())
	if f == nil {
		return
	}
	id := fld(args[2], "Id")
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		rec, get := policyRead(o, id)
		ws := allEvents(o, isRepoWrite)
		var relDel, polDel *Event
		for _, w := range ws {
			ok := len(w.in) == 0
			switch repoOp(w.ev) {
			case "DeleteRelationships":
				ok = ok && w.ev.Args[2] == id && relDel == nil && polDel == nil && c.allWild(w.ev.Args[3])
				relDel = w.ev
			case "DeletePolicy":
				ok = ok && w.ev.Args[2] == id && polDel == nil
				polDel = w.ev
			default:
				ok = false
			}
			c.req(ok, "only the policy and all of its relationships are removed", fname(f), c.posOf(w.ev), "%s: %s", w.ev.Name, w.ev.Args)
		}
		if polDel != nil {
			c.req(relDel != nil && noErr(o.St, relDel) && before(o.Evs, relDel, polDel), "the policy is removed only after its relationships were", fname(f), c.posOf(polDel), "%s", o.brief())
		}
		if !o.ok() {
			c.req(storageFailed(o), "deletion fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		if !c.req(rec != nil && noErr(o.St, get), "the policy is looked up", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		found, count := fld(o.Rets[0], "Found"), fld(o.Rets[0], "RelationshipsRemoved")
		switch {
		case is(o.St, isNilT(rec), true):
			c.req(is(o.St, found, false) && count == cInt(0) && len(ws) == 0, "a missing policy is reported and nothing removed", fname(f), c.fpos(f), "%s", o.brief())
		case is(o.St, isNilT(rec), false):
			ok := polDel != nil && relDel != nil && noErr(o.St, polDel) && noErr(o.St, relDel)
			c.req(ok, "success means that both were removed", fname(f), c.fpos(f), "%s", o.brief())
			c.req(is(o.St, found, true) && ok && strip(count) == resN(relDel.Res, 0, nil), "the response reports what was removed", fname(f), c.fpos(f), "%s", o.brief())
		default:
			c.req(false, "the outcome depends on whether the policy exists", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("a missing policy is reported and nothing removed", 1)
	c.min("success means that both were removed", 1)

	sp := c.policySpace()
	if sp == nil {
		return
	}
	f, args, outs = c.repoRun("DeletePolicy", Config{})
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		var has, del *Event
		ok := true
		for _, a := range accesses(o) {
			ok = ok && a.sameSpace(*sp) && len(a.ev.Args) == 2 && strip(a.ev.Args[1]) == args[2] && len(a.w.in) == 0
			switch a.op {
			case "DeleteById":
				ok = ok && del == nil
				del = a.ev
			case "HasById", "GetObject":
				has = a.ev
			default:
				ok = false
			}
		}
		c.req(ok, "only the record of that id is deleted", fname(f), c.fpos(f), "%s", o.brief())
		if o.ok() {
			gone := del != nil && noErr(o.St, del)
			absent := has != nil && noErr(o.St, has) && is(o.St, resN(has.Res, 0, nil), false)
			c.req(gone || absent, "the record is deleted unless there is none", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("the record is deleted unless there is none", 1)
	if m, _, _, _ := c.relForm(); m != nil {
		c.deletesBySelector(m)
		c.keyRange(m)
	}
}

// allWild: a selector that selects every relationship.
func (c *Check) allWild(sel *Term) bool {
	return isT(fld(sel, "ObjectSelector", "Selector"), "*domain.ObjectSelector_Wildcard") == tTrue &&
		isT(fld(sel, "RelationSelector", "Selector"), "*domain.RelationSelector_Wildcard") == tTrue &&
		isT(fld(sel, "SubjectSelector", "Selector"), "*domain.SubjectSelector_Wildcard") == tTrue
}
