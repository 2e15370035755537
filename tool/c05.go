package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Error discipline: for every RPC, every repository method and every step of the evaluation, on every path that returns without an error each storage call on the way (loop iterations included) is known to have reported none, and a scan that used an iterator asked it for its error after the last step.", checkC05)
	register("C07", "Effect analysis: every RPC and repository method is checked, on every path, to write no memory that outlives the request (fields reachable from the service or repository, package variables, sync.Map and the like), read RPCs and read methods reach no storage write, every evaluation runs on a fresh searcher, serializers are made anew per request, and no package variable is written after initialisation.", checkC07)
}

var mutatingRPC = map[string]bool{"CreatePolicy": true, "UpdatePolicy": true, "DeletePolicy": true, "SetRelationship": true, "DeleteRelationship": true, "DeleteRelationships": true}

type rpc struct {
	iface, name string
	f           *ssa.Function
}

// rpcs lists the operations that the two services implement.
func (c *Check) rpcs() []rpc {
	var out []rpc
	for _, i := range []string{polSvc, relSvc} {
		t := c.implOf(i)
		if t == nil {
			continue
		}
		n := 0
		for _, m := range c.svcMethods(i) {
			if f := c.methodOpt(t, m); f != nil {
				out = append(out, rpc{i, m, f})
				n++
			}
		}
		c.req(n >= map[string]int{polSvc: 10, relSvc: 4}[i], "operations of the service", i, "-", "%d operations found", n)
	}
	return out
}

func (c *Check) svcCfg() Config {
	cfg := c.graphCfg()
	for _, n := range []string{"(*policy.ValidPolicySpec).Verify", "(*policy.ValidSelectorSpec).Satisfies", "(*policy.AllowedRelationshipSpec).Satisfies"} {
		cfg.Opaque[n] = Opaque{Pure: true}
	}
	return cfg
}

// repoMethods lists the methods of the two repositories.
func (c *Check) repoMethods() []rpc {
	var out []rpc
	for _, i := range []string{"policy.Repository", "relation_graph.NodeRepository"} {
		t := c.implOf(i)
		if t == nil {
			continue
		}
		for _, m := range ifaceMethods(c.ty(i)) {
			if f := c.method(t, m); f != nil {
				out = append(out, rpc{i, m, f})
			}
		}
	}
	return out
}

func checkC05(c *Check) {
	const rule = "a failed storage call fails the operation"
	visit := func(f *ssa.Function, outs []*Outcome) {
		n := 0
		for _, o := range outs {
			if !o.ok() {
				continue
			}
			var iters []where
			walk(o, func(w where) {
				ev := w.ev
				if ev.Kind != "call" || !isStorage(ev.Name) && ev.Name != searchFn && ev.Name != serialize {
					return
				}
				if strings.HasSuffix(ev.Name, ".Iterator") {
					iters = append(iters, w)
				}
				if errResult(ev) == nil || strings.HasSuffix(ev.Name, "Iterator.Close") { // what was read is not in doubt
					return
				}
				n++
				c.req(noErr(w.ctx.st, ev), rule, fname(f), c.posOf(ev), "the error of %s is ignored on a path that answers: %s", ev.Name, o.brief())
			})
			for _, w := range iters {
				n++
				ok := false
				last := -1
				for i, ev := range o.Evs {
					if ev.Kind == "loop" || strings.HasSuffix(ev.Name, "Iterator.Next") {
						last = i
					}
				}
				for i, ev := range o.Evs {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Iterator.Error") && strip(ev.Args[0]) == w.ev.Res && i > last && noErr(o.St, ev) {
						ok = true
					}
				}
				c.req(ok, "an iterator is asked for its error", fname(f), c.posOf(w.ev), "%s", o.brief())
			}
		}
		c.req(n > 0, "storage calls of the operation", fname(f), c.fpos(f), "no storage call was found on a path that answers")
	}
	for _, r := range c.rpcs() {
		visit(r.f, c.run(r.f, c.svcCfg(), symArgs(r.f), nil))
	}
	for _, r := range c.repoMethods() {
		_, _, outs := c.repoRun(r.name, stdConfig())
		visit(r.f, outs)
	}
	c.min(rule, 35)
	c.min("an iterator is asked for its error", 1)
	c.evaluation()
	c.graphService()
}

// effects: nothing that outlives the request is written in memory.
func (c *Check) effects(f *ssa.Function, recv *Term, outs []*Outcome) {
	for _, o := range outs {
		bad := 0
		walk(o, func(w where) {
			ev := w.ev
			switch ev.Kind {
			case "store", "mapset", "mapdel":
				if len(ev.Raw) == 0 && len(ev.Args) == 0 {
					return
				}
				t := ev.Args[0]
				if len(ev.Raw) > 0 && !sharedRooted(t, recv) {
					t = ev.Raw[0]
				}
				if sharedRooted(t, recv) {
					bad++
					c.req(false, "no memory that outlives the request is written", fname(f), c.posOf(ev), "%s %s", ev.Kind, t)
				}
			case "go":
				bad++
				c.req(false, "no work outlives the request", fname(f), c.posOf(ev), "%s", ev.Name)
			case "call":
				if syncState(ev.Name) && len(ev.Args) > 0 && (sharedRooted(ev.Args[0], recv) || len(ev.Raw) > 0 && sharedRooted(ev.Raw[0], recv)) {
					bad++
					c.req(false, "no memory that outlives the request is written", fname(f), c.posOf(ev), "%s", ev.Name)
				}
			}
		})
		if bad == 0 {
			c.req(true, "no memory that outlives the request is written", fname(f), c.fpos(f), "")
		}
	}
}

// syncState: calls of the standard library that change the memory they are called on.
func syncState(name string) bool {
	for _, p := range []string{"(*sync.Map).", "(*sync.Pool).", "(*sync.Once).", "sync/atomic.", "(*sync/atomic.", "atomic.", "(*atomic.", "(*container/", "(*list.List)"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func checkC07(c *Check) {
	for _, r := range c.rpcs() {
		args := symArgs(r.f)
		outs := c.run(r.f, c.svcCfg(), args, nil)
		c.effects(r.f, args[0], outs)
		if mutatingRPC[r.name] {
			continue
		}
		for _, o := range outs {
			ws := allEvents(o, isRepoWrite)
			c.req(len(ws) == 0, "read requests change no stored data", fname(r.f), c.fpos(r.f), "%d writes: %s", len(ws), o.brief())
		}
	}
	c.min("read requests change no stored data", 10)
	for _, r := range c.repoMethods() {
		args := symArgs(r.f)
		c.effects(r.f, args[0], c.run(r.f, stdConfig(), args, nil))
		if repoWrites[r.name] {
			continue
		}
		_, _, outs := c.repoRun(r.name, stdConfig())
		for _, o := range outs {
			for _, a := range accesses(o) {
				c.req(!a.write, "read methods of the repositories only read", fname(r.f), c.posOf(a.ev), "%s", a)
			}
		}
	}
	c.min("read methods of the repositories only read", 8)
	c.freshSerializers()
	c.packageVars()
	c.evaluation()
	c.graphService()
}

// freshSerializers: every request gets a serializer of its own.
func (c *Check) freshSerializers() {
	f := c.fn(serFactory)
	if f == nil {
		return
	}
	for _, o := range c.run(f, stdConfig("-"+serFactory), symArgs(f), nil) {
		if o.ok() {
			r := o.Raw[0]
			c.req(r.Op == OIface && !globalRooted(r), "serializers are made anew", fname(f), c.fpos(f), "%s", r)
		}
	}
	c.min("serializers are made anew", 1)
}

// packageVars: package variables are constant after initialisation.
func (c *Check) packageVars() {
	n := 0
	for fn := range c.P.allFns {
		if !isRepo(fn) || c.P.generated(fn) || strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				switch s := in.(type) {
				case *ssa.Store:
					g = globalOf(s.Addr)
				case *ssa.MapUpdate:
					g = globalOf(s.Map)
				case *ssa.Call:
					callee := s.Call.StaticCallee()
					if callee != nil && syncState(fname(callee)) && len(s.Call.Args) > 0 {
						g = globalOf(s.Call.Args[0])
					}
					if bi, ok := s.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						g = globalOf(s.Call.Args[0])
					}
				}
				if g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
					c.req(false, "package variables are constant after initialisation", fname(fn), c.P.Pos(in.Pos()), "%s is written", g.Name())
				}
			}
		}
	}
	c.req(n > 150, "package variables are constant after initialisation", "all functions", "-", "%d functions scanned", n)
}
