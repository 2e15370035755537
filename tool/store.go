package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The storage layer, set up the way the repository's own constructors do it:
// every access is then seen down to the key prefixes of the underlying store.

type repoEnv struct {
	st        *State
	kv        *Term // the underlying key value store
	pol, node *Term // receivers of the two repositories
	polT      types.Type
	nodeT     types.Type
}

func (c *Check) newObj(st *State, v *Term, ty types.Type) *Term {
	c.P.inst++
	o := mk(OObj, typeStr(ty), c.P.inst, nil, nil, nil, types.NewPointer(ty))
	st.heap[o] = map[string]*Term{"": v}
	return o
}

// only: the single successful outcome of a constructor.
func (c *Check) only(f *ssa.Function, args []*Term, st *State) *Outcome {
	var ok []*Outcome
	for _, o := range c.run(f, Config{}, args, st) {
		if o.ok() {
			ok = append(ok, o)
		}
	}
	if len(ok) != 1 {
		c.req(false, "anchor", fname(f), c.fpos(f), "expected one way to construct, found %d", len(ok))
		return nil
	}
	return ok[0]
}

func (c *Check) repos() *repoEnv {
	if c.env != nil {
		return c.env
	}
	f := c.fn("kv_store.NewKVStore")
	st := c.implOf("store.Store")
	if f == nil || st == nil {
		return nil
	}
	args := symArgs(f, "!kv")
	o := c.only(f, args, nil)
	if o == nil {
		return nil
	}
	e := &repoEnv{kv: args[0]}
	recv := o.Raw[0]
	s := o.St
	if _, isP := f.Signature.Results().At(0).Type().(*types.Pointer); !isP {
		recv = c.newObj(s, recv, f.Signature.Results().At(0).Type())
	}
	for _, m := range []string{"GetPolicyRepository", "GetRelationNodeRepository"} {
		g := c.method(st, m)
		if g == nil {
			return nil
		}
		s.ev = nil
		o := c.only(g, []*Term{recv}, s)
		if o == nil {
			return nil
		}
		s = o.St
		r := o.Raw[0]
		if r.Op != OIface {
			c.req(false, "anchor", fname(g), c.fpos(g), "the repository is not known: %s", r)
			return nil
		}
		if m == "GetPolicyRepository" {
			e.pol, e.polT = r.A[0], c.P.typeByName[r.S]
		} else {
			e.node, e.nodeT = r.A[0], c.P.typeByName[r.S]
		}
	}
	s.ev = nil
	e.st = s
	c.env = e
	return e
}

// repoRun analyses a method of one of the repositories.
func (c *Check) repoRun(name string, cfg Config) (*ssa.Function, []*Term, []*Outcome) {
	e := c.repos()
	if e == nil {
		return nil, nil, nil
	}
	t, r := e.polT, e.pol
	if ni := c.ty("relation_graph.NodeRepository"); ni != nil && slices.Contains(ifaceMethods(ni), name) {
		t, r = e.nodeT, e.node
	}
	f := c.method(t, name)
	if f == nil {
		return nil, nil, nil
	}
	args := symArgs(f)
	args[0] = r
	return f, args, c.run(f, cfg, args, e.st.clone())
}

// access is one use of the storage library.
type access struct {
	ev     *Event
	w      where
	kind   string // object, graph, kv, iter
	op     string
	base   *Term
	prefix []*Term // outermost first
	ider   *Term
	keyer  *Term
	write  bool
}

func (a access) String() string {
	var p []string
	for _, x := range a.prefix {
		p = append(p, x.String())
	}
	return fmt.Sprintf("%s.%s under %s[%s]", a.kind, a.op, a.base, strings.Join(p, ", "))
}

func (a access) sameSpace(b access) bool {
	if a.base != b.base || len(a.prefix) != len(b.prefix) {
		return false
	}
	for i := range a.prefix {
		if a.prefix[i] != b.prefix[i] {
			return false
		}
	}
	return true
}

// unwrap follows prefix wrappers down to the store they wrap.
func unwrap(t *Term) (base *Term, prefix []*Term) {
	for {
		t = strip(t)
		if t.Op == OCall && strings.HasSuffix(t.S, "rcdb.NewWrapperKV") && len(t.A) == 2 {
			prefix = append([]*Term{t.A[1]}, prefix...)
			t = t.A[0]
			continue
		}
		return t, prefix
	}
}

func isWriteOp(op string) bool {
	switch op {
	case "Set", "SetObject", "Delete", "DeleteById":
		return true
	}
	return false
}

// accesses lists the uses of storage in an outcome, loops included.
func accesses(o *Outcome) []access {
	var out []access
	walk(o, func(w where) {
		ev := w.ev
		if ev.Kind != "call" || !isStorage(ev.Name) || strings.HasPrefix(ev.Name, "policy.") || strings.HasPrefix(ev.Name, "relation_graph.") {
			return
		}
		i := strings.LastIndex(ev.Name, ".")
		a := access{ev: ev, w: w, op: ev.Name[i+1:]}
		a.write = isWriteOp(a.op)
		if len(ev.Args) == 0 {
			return
		}
		r := strip(ev.Args[0])
		switch ev.Name[:i] {
		case "(*rcdb.ObjectStore)", "(rcdb.ObjectStore)":
			a.kind = "object"
			if r.Op == OCall && r.S == "rcdb.NewObjStore" {
				a.base, a.prefix = unwrap(r.A[0])
				a.ider = r.A[2]
			}
		case "(*rcdb.RaccoonStore)", "(rcdb.RaccoonStore)":
			a.kind = "graph"
			if r.Op == OCall && r.S == "rcdb.NewRaccoonStore" {
				s := r.A[0]
				a.base, a.prefix = unwrap(fld(s, "Store"))
				if kp := fld(s, "KeysPrefix"); kp != tNil {
					a.prefix = append(a.prefix, kp)
				}
				a.keyer = fld(s, "Keyer")
			}
		case "rcdb.KVStore":
			a.kind = "kv"
			a.base, a.prefix = unwrap(r)
		case "rcdb.Iterator":
			a.kind = "iter"
			if r.Op == OCall && strings.HasSuffix(r.S, ".Iterator") {
				a.base, a.prefix = unwrap(r.A[0])
			}
		default:
			return
		}
		if a.base == nil {
			a.base = r
		}
		out = append(out, a)
	})
	return out
}
