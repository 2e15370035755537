package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Key-space analysis: every access to storage in every method of the two repositories, on every path, is followed down to the prefixes under which it reaches the configured store; the bytes of the prefix are decomposed symbolically and shown to determine the policy id of the operation, whatever follows them (or, for policy records, to be constant with the id as the key), and the prefixes of different kinds of data to differ within their constant bytes. The services hand storage the policy id of the request.", checkC13)
	register("C14", "Code analysis: the bytes that the storage key of a node and its evaluation identity are computed from are decomposed symbolically, per kind of node and path; every variable part must be preceded by its length (or be otherwise delimited), all parts of the node must be recoverable, the bytes of different kinds must differ at a constant position, and the only lossy step allowed is a collision resistant hash.", checkC14)
}

// space: the bytes under which an access reaches the configured store.
func (c *Check) space(a access, st *State, evs []*Event) []seg {
	k := coder{c, st, evs}
	var out []seg
	for _, p := range a.prefix {
		out = append(out, konst("/")...)
		out = append(out, k.bytes(p)...)
	}
	return append(out, konst("/")...)
}

// repoPid is the policy id that a repository operation is about.
func repoPid(m string, args []*Term) *Term {
	switch m {
	case "SetRelationship":
		return fld(args[2], "PolicyId")
	case "SetPolicy":
		return fld(args[2], "Policy", "Id")
	case "ListPolicyIds":
		return nil
	}
	return args[2]
}

func checkC13(c *Check) {
	e := c.repos()
	if e == nil {
		return
	}
	type use struct {
		code []seg
		kind string
		at   string
	}
	spaces := map[string]*use{}
	for _, r := range c.repoMethods() {
		f, args, outs := c.repoRun(r.name, stdConfig())
		if f == nil {
			continue
		}
		pid := repoPid(r.name, args)
		n := 0
		for _, o := range outs {
			for _, a := range accesses(o) {
				n++
				pos := c.posOf(a.ev)
				if !c.req(a.base == e.kv && len(a.prefix) > 0, "storage is reached under a prefix of the configured store", fname(f), pos, "%s", a) {
					continue
				}
				code := c.space(a, o.St, o.Evs)
				known, self, err := decode(code)
				if !c.req(err == "" && self, "the prefix ends at a place that its bytes determine", fname(f), pos, "%s: %s", segStr(code), err) {
					continue
				}
				scoped := pid != nil && known[strip(pid)]
				if !scoped {
					_, fixed := fixedWidth(code)
					ok := fixed && len(known) == 0 && (pid == nil && !a.write || pid != nil && c.keyIs(a, pid))
					c.req(ok, "data of a policy is accessed under its own prefix or key", fname(f), pos, "%s: prefix %s, policy id %v", a, segStr(code), pid)
				} else {
					c.req(true, "data of a policy is accessed under its own prefix or key", fname(f), pos, "")
				}
				// the kinds of data
				norm := code
				if pid != nil {
					norm = substSegs(code, pid, tPid)
				}
				kind := a.kind
				switch {
				case a.kind == "object" && a.ider != nil:
					kind = "objects with ids of " + a.ider.S
				case a.kind == "iter" || a.kind == "kv" && !a.write:
					kind = ""
				}
				s := spaces[segStr(norm)]
				if s == nil {
					s = &use{code: norm, at: pos}
					spaces[segStr(norm)] = s
				}
				if kind != "" {
					if s.kind == "" {
						s.kind = kind
					}
					c.req(s.kind == kind, "one kind of data per key space", fname(f), pos, "%s holds %s and %s", segStr(norm), s.kind, kind)
				}
			}
		}
		c.req(n > 0, "every operation accesses storage", fname(f), c.fpos(f), "no access found")
	}
	var ks []string
	for k := range spaces {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, a := range ks {
		for _, b := range ks[:i] {
			c.req(disjoint(spaces[a].code, spaces[b].code), "key spaces are disjoint", "key spaces", spaces[a].at, "%s and %s", a, b)
		}
	}
	c.min("key spaces are disjoint", 3)
	c.min("storage is reached under a prefix of the configured store", 20)
	c.servicePids()
}

// keyIs: the one key that is accessed is the policy id.
func (c *Check) keyIs(a access, pid *Term) bool {
	switch a.op {
	case "SetObject", "Has", "Delete":
		if a.kind != "object" {
			return a.kind == "kv" && strip(a.ev.Args[1]) == strip(pid)
		}
		return strip(c.iderKey(a, strip(a.ev.Args[1]))) == strip(pid)
	case "GetObject", "HasById", "DeleteById", "Get", "Set":
		return a.kind != "graph" && strip(a.ev.Args[1]) == strip(pid)
	}
	return false
}

func substSegs(ss []seg, a, b *Term) []seg {
	var out []seg
	for _, s := range ss {
		if s.val != nil {
			s.val = s.val.subst(sub1(a, b))
		}
		if s.len != nil {
			s.len = s.len.subst(sub1(a, b))
		}
		if s.inner != nil {
			s.inner = substSegs(s.inner, a, b)
		}
		out = append(out, s)
	}
	return out
}

// servicePids: the services hand the repositories the id of the request's policy.
func (c *Check) servicePids() {
	for _, r := range c.rpcs() {
		if r.f == nil {
			continue
		}
		args := symArgs(r.f)
		req := args[2]
		var pid *Term
		for _, n := range []string{"PolicyId", "Id"} {
			if hasField(r.f, 2, n) {
				pid = fld(req, n)
				break
			}
		}
		if pid == nil {
			continue // creates, updates and lists: C10, C11, C27
		}
		n := 0
		for _, o := range c.run(r.f, c.svcCfg(), args, nil) {
			walk(o, func(w where) {
				ev := w.ev
				if ev.Kind != "call" || !(strings.HasPrefix(ev.Name, "policy.Repository.") || strings.HasPrefix(ev.Name, "relation_graph.NodeRepository.")) {
					return
				}
				m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
				got := repoPid(m, ev.Args)
				if got == nil {
					return
				}
				n++
				st := w.ctx.st
				ok := eqUnder(st, got, pid)
				// the id of the policy that was fetched by that id
				if !ok && got.Op == OFld && got.S == "Id" {
					for _, e := range calls(o.Evs, "policy.Repository.GetPolicy") {
						ok = ok || eqUnder(st, e.Args[2], pid) && fld(resN(e.Res, 0, nil), "Policy", "Id") == got
					}
				}
				c.req(ok, "storage is asked for the request's policy", fname(r.f), c.posOf(ev), "%s with policy id %s", ev.Name, got)
			})
		}
		c.req(n > 0, "operations on a policy reach storage", fname(r.f), c.fpos(r.f), "no call of the repository found")
	}
	c.min("storage is asked for the request's policy", 12)
}

func hasField(f *ssa.Function, i int, name string) bool {
	if i >= len(f.Params) {
		return false
	}
	s, _ := derefType(f.Params[i].Type()).Underlying().(*types.Struct)
	for j := 0; s != nil && j < s.NumFields(); j++ {
		if s.Field(j).Name() == name {
			return true
		}
	}
	return false
}

// ---- C14 ----

type variant struct {
	kind  string
	parts []*Term
	code  []seg
	at    string
}

func checkC14(c *Check) {
	// the storage key
	m, _, _, _ := c.relForm()
	if m == nil {
		c.req(false, "anchor", "policyRepository", "-", "the stored form of relationships is not known")
		return
	}
	keyers := map[string]bool{}
	for _, r := range c.repoMethods() {
		f, _, outs := c.repoRun(r.name, stdConfig())
		if f == nil {
			continue
		}
		for _, o := range outs {
			for _, a := range accesses(o) {
				if a.kind == "graph" {
					ok := a.keyer != nil && a.keyer.Op == OIface
					if c.req(ok, "the keys of the graph are known", fname(f), c.posOf(a.ev), "%v", a.keyer) {
						keyers[a.keyer.S] = true
					}
				}
				// identities made from the keys of two nodes
				for _, x := range a.ev.Args {
					x.has(func(t *Term) bool {
						if t.Op == OCall && strings.HasSuffix(t.S, "rcdb.IderFromNodeKeyer") {
							if k := t.A[0]; c.req(k.Op == OIface, "the keys of the graph are known", fname(f), c.posOf(a.ev), "%v", k) {
								keyers[k.S] = true
							}
						}
						return false
					})
				}
			}
		}
	}
	c.req(len(keyers) > 0, "anchor", "keyer", "-", "no keyer found")
	for k := range keyers {
		f := c.method(c.P.typeByName[k], "Key")
		if f == nil {
			continue
		}
		args := symArgs(f)
		n := args[1]
		var vs []variant
		for _, o := range c.run(f, stdConfig(), args, nil) {
			if o.Kind != "return" {
				c.req(false, "keys are computed for every node", fname(f), c.fpos(f), "%s", o.brief())
				continue
			}
			for _, kind := range kinds {
				st := o.St.clone()
				if !st.assume(mkEq(fld(n, "Type"), m.tag[kind]), true) {
					continue
				}
				code := coder{c, st, o.Evs}.bytes(strip(o.Rets[0]))
				code = substSegs2(code, fld(n, "Type"), m.tag[kind])
				sn := storedNode(n, kind)
				vs = append(vs, variant{kind, nonNil(sn.res, sn.id, sn.rel), code, c.fpos(f)})
			}
		}
		c.codes(f, vs)
	}
	// the evaluation identity
	f := c.fn("(*domain.RelationNode).Id")
	if f == nil {
		return
	}
	args := symArgs(f)
	n := args[0]
	var vs []variant
	for _, o := range c.run(f, stdConfig(), args, nil) {
		if o.Kind != "return" {
			c.req(false, "keys are computed for every node", fname(f), c.fpos(f), "%s", o.brief())
			continue
		}
		for _, kind := range kinds {
			st := o.St.clone()
			if !st.assume(isT(fld(n, "Node"), nodeType[kind]), true) {
				continue
			}
			sn := c.publicNode(n, kind)
			vs = append(vs, variant{kind, nonNil(sn.res, sn.id, sn.rel), coder{c, st, o.Evs}.bytes(strip(o.Rets[0])), c.fpos(f)})
		}
	}
	c.codes(f, vs)
	c.min("keys of different kinds differ", 6)
	c.min("the key determines the node", 6)
}

func nonNil(ts ...*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t != nil {
			out = append(out, t)
		}
	}
	return out
}

// substSegs2: a value of fixed width that is known.
func substSegs2(ss []seg, t, v *Term) []seg {
	var out []seg
	for _, s := range ss {
		if s.kind == 'f' && s.val == t {
			if i, ok := v.intVal(); ok {
				b := make([]byte, s.n)
				for j := range b {
					b[s.n-1-j] = byte(i >> (8 * j))
				}
				s = seg{kind: 'c', b: string(b)}
			}
		}
		if s.kind == 'd' && s.val == t {
			s = seg{kind: 'c', b: v.S}
		}
		if s.inner != nil {
			s.inner = substSegs2(s.inner, t, v)
		}
		out = append(out, s)
	}
	return out
}

func (c *Check) codes(f *ssa.Function, vs []variant) {
	have := map[string]bool{}
	for i, v := range vs {
		have[v.kind] = true
		known, _, err := decode(v.code)
		c.req(err == "", "the key can be decoded", fname(f), v.at, "%s: %s: %s", v.kind, err, segStr(v.code))
		for _, p := range v.parts {
			c.req(known[strip(p)], "the key determines the node", fname(f), v.at, "the key of %s does not determine %s: %s", v.kind, p, segStr(v.code))
		}
		for _, w := range vs[:i] {
			if w.kind != v.kind {
				c.req(disjoint(v.code, w.code), "keys of different kinds differ", fname(f), v.at, "%s: %s; %s: %s", v.kind, segStr(v.code), w.kind, segStr(w.code))
			} else {
				c.req(sameCode(v.code, w.code) || disjoint(v.code, w.code), "one code per kind of node", fname(f), v.at, "%s and %s", segStr(v.code), segStr(w.code))
			}
		}
	}
	for _, k := range kinds {
		c.req(have[k], "every kind of node has a key", fname(f), c.fpos(f), "none for %s", k)
	}
}
