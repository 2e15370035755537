package main

import "golang.org/x/tools/go/ssa"

func init() {
	register("C15", "Representation analysis: the internal form of a relationship is derived from what SetRelationship hands to storage, for each kind of subject; every method that returns relationships (GetRelationship, FindRelationships, FindRelationshipRecords, GetSucessors, ListEdges) is shown, on every path and for every element, to return the inverse of that form from the same key space, and records with the application data and creation time of the record stored under the edge's identity; the service passes the request's relationship and data to storage and returns what storage returned.", checkC15)
	register("C16", "Pairing analysis: on every path of SetRelationship the edge and the record are written, once each, under one identity computed from that edge; on every path of DeleteRelationship both are deleted under the same identity and nothing else is; the reported overwrite/found flag is shown equal to the result of a read of that very edge made before the write; the service reports it unchanged.", checkC16)
}

func checkC15(c *Check) {
	m := c.relStore()
	if m == nil {
		return
	}
	c.getRecord(m)
	c.successors(m)
	c.edges(m)
	c.finds(m)
	c.setService()
	c.getService()
	c.findService()
}

func checkC16(c *Check) {
	m := c.relStore()
	if m == nil {
		return
	}
	c.deletions(m)
	c.setService()
	c.deleteService()
}

// svcCall: the method makes exactly one call of a repository operation, not in a loop.
func svcCall(o *Outcome, op string) *Event {
	var got *Event
	for _, w := range allEvents(o, func(ev *Event) bool { return repoOp(ev) == op }) {
		if got != nil || len(w.in) > 0 {
			return nil
		}
		got = w.ev
	}
	return got
}

func (c *Check) onlyWrite(f *ssa.Function, o *Outcome, op string) {
	for _, w := range allEvents(o, isRepoWrite) {
		c.req(repoOp(w.ev) == op, "nothing else is written", fname(f), c.posOf(w.ev), "%s", w.ev.Name)
	}
}

// setService: the service stores the relationship of the request.
func (c *Check) setService() {
	f, args, outs := c.svcRun(polSvc, "SetRelationship", c.svcCfg())
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		req := args[2]
		c.onlyWrite(f, o, "SetRelationship")
		ev := svcCall(o, "SetRelationship")
		if ev != nil {
			r := ev.Args[2]
			c.req(eqUnder(o.St, fld(r, "PolicyId"), fld(req, "PolicyId")) && fld(r, "Relationship") == fld(req, "Relationship"), "the relationship of the request is stored", fname(f), c.posOf(ev), "%s", r)
			c.req(fld(r, "AppData") == fld(req, "AppData") && fld(r, "CreatedAt") != tNil, "the application data of the request and a creation time are stored", fname(f), c.posOf(ev), "%s", r)
		}
		if o.ok() {
			ok := ev != nil && noErr(o.St, ev) && eqUnder(o.St, strip(fld(o.Rets[0], "RecordOverwritten")), resN(ev.Res, 0, nil))
			c.req(ok, "an overwrite is reported as storage reported it", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("an overwrite is reported as storage reported it", 1)
}

func (c *Check) deleteService() {
	f, args, outs := c.svcRun(polSvc, "DeleteRelationship", c.svcCfg())
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		req := args[2]
		c.onlyWrite(f, o, "DeleteRelationship")
		ev := svcCall(o, "DeleteRelationship")
		if ev != nil {
			c.req(eqUnder(o.St, ev.Args[2], fld(req, "PolicyId")) && ev.Args[3] == fld(req, "Relationship"), "the relationship of the request is deleted", fname(f), c.posOf(ev), "%s", ev.Args)
		}
		if o.ok() {
			ok := ev != nil && noErr(o.St, ev) && eqUnder(o.St, strip(fld(o.Rets[0], "Found")), resN(ev.Res, 0, nil))
			c.req(ok, "found is reported as storage reported it", fname(f), c.fpos(f), "%s", o.brief())
		}
	}
	c.min("found is reported as storage reported it", 1)
}

func (c *Check) getService() {
	f, args, outs := c.svcRun(polSvc, "GetRelationship", c.svcCfg())
	for _, o := range outs {
		if !o.ok() {
			continue
		}
		req := args[2]
		ev := svcCall(o, "GetRelationship")
		ok := ev != nil && noErr(o.St, ev) && eqUnder(o.St, ev.Args[2], fld(req, "PolicyId")) && ev.Args[3] == fld(req, "Relationship") && eqUnder(o.St, fld(o.Rets[0], "Record"), resN(ev.Res, 0, nil))
		c.req(ok, "the stored record of the requested relationship is returned", fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min("the stored record of the requested relationship is returned", 1)
}

func (c *Check) findService() {
	f, args, outs := c.svcRun(polSvc, "FindRelationshipRecords", c.svcCfg())
	for _, o := range outs {
		if !o.ok() {
			continue
		}
		req := args[2]
		ev := svcCall(o, "FindRelationshipRecords")
		ok := ev != nil && noErr(o.St, ev) && eqUnder(o.St, ev.Args[2], fld(req, "PolicyId")) && ev.Args[3] == fld(req, "Selector") && fld(o.Rets[0], "Result", "Records") == resN(ev.Res, 0, nil)
		c.req(ok, "the records that storage found are returned", fname(f), c.fpos(f), "%s", o.brief())
	}
	c.min("the records that storage found are returned", 1)
}
