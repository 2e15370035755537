package main

import "strings"

func init() {
	register("C27", "Typestate and loop analysis of the listing: the repository's scan runs over the key space in which policies are stored, from its first to past its last possible key; every step that finds the iterator valid yields exactly the key it is at and advances once, the scan ends only when the iterator is no longer valid, reports the iterator's error, and every iterator any repository method opens is closed on every path; the service maps every id to a record.", checkC27)
}

// iterOf: the iterator a call is on.
func iterOf(ev *Event, op string) *Term {
	if ev.Kind == "call" && ev.Name == "rcdb.Iterator."+op && len(ev.Args) > 0 {
		return strip(ev.Args[0])
	}
	return nil
}

func checkC27(c *Check) {
	// every iterator is closed
	n := 0
	for _, r := range c.repoMethods() {
		f, _, outs := c.repoRun(r.name, stdConfig())
		if f == nil {
			continue
		}
		for _, o := range outs {
			walk(o, func(w where) {
				if w.ev.Kind != "call" || !strings.HasSuffix(w.ev.Name, ".Iterator") {
					return
				}
				n++
				it := strip(w.ev.Res)
				evs := o.Evs
				if w.cs != nil {
					evs = w.cs.Evs
				}
				ok := false
				for _, e := range evs {
					ok = ok || iterOf(e, "Close") == it
				}
				c.req(ok, "every iterator is closed", fname(f), c.posOf(w.ev), "not closed: %s", o.brief())
			})
			for _, a := range accesses(o) { // opens an iterator and does not close it
				c.req(a.op != "ListIds", "every iterator is closed", fname(f), c.posOf(a.ev), "%s leaves its iterator open", a)
			}
		}
	}
	c.req(n > 0, "anchor", "ListPolicyIds", "-", "no scan found")
	c.contractPolicyStore()
	c.listIds()
	c.listService()
}

// listIds: the scan yields the key of every policy.
func (c *Check) listIds() {
	pol := c.policySpace()
	f, _, outs := c.repoRun("ListPolicyIds", stdConfig())
	if f == nil || pol == nil {
		return
	}
	for _, o := range outs {
		if o.Kind != "return" {
			c.req(false, "listing returns", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "listing fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		var scan *access
		for _, a := range accesses(o) {
			a := a
			if a.op == "Iterator" && len(a.w.in) == 0 {
				if scan != nil {
					c.req(false, "one scan lists the policies", fname(f), c.posOf(a.ev), "%s", a)
				}
				scan = &a
			}
		}
		if !c.req(scan != nil, "one scan lists the policies", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		c.req(scan.sameSpace(*pol), "the scan is over the space of policies", fname(f), c.posOf(scan.ev), "%s, policies are in %s", scan, pol)
		lo, hi := strip(scan.ev.Args[1]), strip(scan.ev.Args[2])
		c.req(lo == tNil || lo.Op == OLit && len(lo.A) == 0 || lo == cStr(""), "the scan starts at the first key", fname(f), c.posOf(scan.ev), "starts at %s", lo)
		c.req(pastAll(hi), "the scan ends past the last key and within the space", fname(f), c.posOf(scan.ev), "ends at %s", hi)
		it := strip(scan.ev.Res)
		e := c.scanned(o, it, strip(o.Rets[0]))
		c.req(e == "", "the scan yields every key once", fname(f), c.posOf(scan.ev), "%s: %s", e, o.brief())
	}
	c.min("the scan yields every key once", 1)
}

// pastAll: greater than every valid UTF-8 string; never the open end (which
// would leave the key space).
func pastAll(t *Term) bool {
	if s, ok := strVal(t); ok && s != "" {
		return s[0] >= 0xf8
	}
	if t.Op == OLit && len(t.A) > 0 {
		v, ok := t.A[0].intVal()
		return ok && v >= 0xf8
	}
	return false
}

// scanned: coll holds the keys of all positions of the iterator.
func (c *Check) scanned(o *Outcome, it, coll *Term) string {
	// after the last step the iterator was not valid
	var last *Event
	steps := 0
	for _, e := range o.Evs {
		switch {
		case iterOf(e, "Valid") == it:
			last = e
		case iterOf(e, "Next") == it:
			steps++
			last = nil
		}
	}
	if last == nil || !is(o.St, last.Res, false) {
		return "the scan may end while the iterator is valid"
	}
	if coll.Op == OLit && len(coll.A) == 0 || coll == tNil {
		if steps == 0 {
			for _, e := range o.Evs {
				if e.Kind == "loop" {
					return "nothing is returned"
				}
			}
			return ""
		}
		return "nothing is returned"
	}
	if steps > 0 {
		return "the iterator is advanced outside of the loop"
	}
	if coll.Op != OColl || coll.L == nil {
		return "not a sequence built by the scan: " + coll.String()
	}
	info := collInfo(coll)
	if info == nil || len(info.All) == 0 {
		return "no iteration"
	}
	for _, cs := range info.All {
		var valid, key *Event
		next := 0
		for _, e := range cs.Evs {
			switch {
			case iterOf(e, "Valid") == it:
				valid = e
				if next > 0 {
					valid = nil
				}
			case iterOf(e, "Key") == it:
				if next == 0 {
					key = e
				}
			case iterOf(e, "Next") == it:
				next++
			}
		}
		items := cs.Items[coll.S]
		switch {
		case valid == nil || !is(cs.St, valid.Res, true):
			return "a step at which the iterator may be invalid: " + cs.brief()
		case next != 1:
			return "a step does not advance by one: " + cs.brief()
		case len(items) != 1:
			return "a key is left out or repeated: " + cs.brief()
		case key == nil || items[0].Op != OConv || strip(items[0]) != strip(key.Res):
			return "a step does not yield the key: " + items[0].String()
		}
	}
	return ""
}

// listService: one record per id.
func (c *Check) listService() {
	f, _, outs := c.svcRun(polSvc, "ListPolicyIds", stdConfig())
	if f == nil {
		return
	}
	for _, o := range outs {
		if o.Kind != "return" {
			c.req(false, "listing returns", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		ev := svcCall(o, "ListPolicyIds")
		if !c.req(ev != nil, "listing asks storage", fname(f), c.fpos(f), "%s", o.brief()) {
			continue
		}
		if !o.ok() {
			c.req(storageFailed(o), "listing fails only if storage does", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		d := resN(ev.Res, 0, nil)
		p := pipeline{d: d, keep: func(Ctx, *Term) tri { return tT }, item: func(cx Ctx, cs *Case, x, item *Term) bool {
			return eqUnder(cx.st, fld(strip(item), "Id"), x)
		}}
		e := p.check(o, fld(strip(o.Rets[0]), "Records"))
		c.req(e == "", "every id is returned", fname(f), c.fpos(f), "%s: %s", e, o.brief())
	}
	c.min("every id is returned", 1)
}
