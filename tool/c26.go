package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	kvIface   = "rcdb.KVStore"
	nodeRepo  = "relation_graph.NodeRepository"
	grpcServe = "(*google.golang.org/grpc.Server).Serve"
)

func init() {
	register("C26", "Wiring: every option constructor is applied to an arbitrary instance (a failing step fails the option; a store it sets is built over the single key-value store it was given, opened or created, on every successful path); construction applies every option in order to the one instance it returns, fails if one fails, takes an in-memory store only when no store is set, and builds both services from the repositories of that same store; the services use those repositories in every operation; the two repositories agree on keys; the server registers each service of its instance under its own descriptor and serves on its own listener; the daemon's command is followed through all of this from its flags to the call that serves: what it serves is backed by the database opened at the configured directory, on a listener at the configured address, and no path serves after a step that failed.", checkC26)
}

func checkC26(c *Check) {
	f := c.fn("zanzi.New")
	if f == nil {
		return
	}
	var zt types.Type
	if r := f.Signature.Results(); r.Len() == 2 {
		zt = r.At(0).Type()
		if p, ok := zt.(*types.Pointer); ok {
			zt = p.Elem()
		}
	}
	if !c.req(zt != nil && f.Signature.Variadic(), "anchor", fname(f), c.fpos(f), "not a constructor with options") {
		return
	}
	opt := f.Signature.Params().At(f.Signature.Params().Len() - 1).Type().(*types.Slice).Elem()
	c.options(zt, opt)
	pol, rel := c.construct(f, zt)
	c.usesRepos(pol, rel)
	c.server(zt)
	c.daemon()
	if m, _, _, _ := c.relForm(); m != nil {
		c.successors(m)
		c.edges(m)
	}
}

// kvMade: t is a key-value store that a call made.
func kvMade(t *Term) *Term {
	for t.Op == OIface || t.Op == ORes {
		t = t.A[0]
	}
	if t.Op == OCall && strings.HasPrefix(t.S, "rcdb.New") && t.S != "rcdb.NewWrapperKV" {
		return t
	}
	return nil
}

// basesOf collects the key-value stores a store is built over.
func basesOf(t *Term, given *Term) map[*Term]bool {
	out := map[*Term]bool{}
	t.each(func(x *Term) {
		if x == given {
			out[x] = true
		}
		if x.Op == OCall && kvMade(x) == x && !strings.HasPrefix(x.S, "rcdb.NewObj") && !strings.HasPrefix(x.S, "rcdb.NewRaccoon") {
			out[x] = true
		}
		if x.Op == OIn && x.T != nil && typeStr(x.T) == kvIface {
			out[x] = true
		}
	})
	return out
}

// storeFields lists the fields of type t in a struct type.
func fieldsOf(sty types.Type, t string) []string {
	var out []string
	if s, ok := sty.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if typeStr(s.Field(i).Type()) == t {
				out = append(out, s.Field(i).Name())
			}
		}
	}
	return out
}

func (c *Check) options(zt, opt types.Type) {
	const rFail, rStore, rAlways = "an option fails if a step of it does", "an option sets a store over the one it was configured with", "an option that configures a store always sets it"
	sf := fieldsOf(zt, "store.Store")
	if !c.req(len(sf) == 1, "anchor", typeStr(zt), "-", "%d stores", len(sf)) {
		return
	}
	var fs []*ssa.Function
	for f := range c.P.allFns {
		if isRepo(f) && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), opt) && f.Synthetic == "" && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		args := symArgs(f)
		var given, path *Term
		for i, p := range f.Params {
			switch typeStr(p.Type()) {
			case kvIface:
				given = args[i]
			case "string":
				path = args[i]
			}
		}
		sets, oks := 0, 0
		for _, o1 := range c.run(f, stdConfig(), args, nil) {
			if !c.req(o1.Kind == "return" && o1.Raw[0].Op == OClosure, rFail, fname(f), c.fpos(f), "%s", o1.brief()) || o1.Raw[0].Op != OClosure {
				continue
			}
			cl := o1.Raw[0]
			z := in("!z", types.NewPointer(zt))
			for _, o := range c.runClosure(cl.Fn, stdConfig(), []*Term{z}, cl.A, o1.St) {
				if o.Kind != "return" {
					c.req(false, rFail, fname(f), c.fpos(f), "%s", o.brief())
					continue
				}
				failed := ""
				for _, w := range allEvents(o, func(ev *Event) bool { return ev.Kind == "call" || ev.Kind == "dyncall" }) {
					if e := errOf(w.ev); e != nil && !is(o.St, isNilT(e), true) {
						failed = w.ev.Name
					}
				}
				if !o.ok() {
					c.req(failed != "", "an option fails only if a step of it does", fname(f), c.fpos(f), "%s", o.brief())
					continue
				}
				oks++
				c.req(failed == "", rFail, fname(f), c.fpos(f), "the error of %s is dropped: %s", failed, o.brief())
				var val *Term
				for _, ev := range o.Evs {
					if ev.Kind == "store" && ev.Raw[0] == z && ev.Name == "."+sf[0] {
						val = ev.Args[1]
					}
				}
				if val == nil {
					continue
				}
				sets++
				b := basesOf(val, given)
				ok := len(b) == 1
				for x := range b {
					switch {
					case given != nil:
						ok = ok && x == given
					case path != nil:
						ok = ok && x.Op == OCall && atPath(o, x, path) && madeIn(o, x)
					default:
						ok = ok && x.Op == OCall && strings.HasPrefix(x.S, "rcdb.NewMem") && (madeIn(o, x) || madeIn(o1, x))
					}
				}
				c.req(ok, rStore, fname(f), c.fpos(f), "the store is %s", val)
			}
		}
		if given != nil || path != nil {
			c.req(oks > 0 && sets == oks, rAlways, fname(f), c.fpos(f), "%d of %d successful paths set a store", sets, oks)
		} else {
			c.req(oks > 0 && (sets == 0 || sets == oks), rAlways, fname(f), c.fpos(f), "%d of %d successful paths set a store", sets, oks)
		}
	}
	c.min(rStore, 3)
	c.min(rAlways, 5)
}

// madeIn: the call t happens on the path of the outcome.
// atPath: the store is opened at the path; only a home directory is filled in.
func atPath(o *Outcome, x, path *Term) bool {
	home := factHas(o.St, func(t *Term, v bool) bool {
		return v && t.Op == OCall && t.S == "strings.HasPrefix" && t.A[0] == path && str(t.A[1]) == "~"
	}) ||
		factHas(o.St, func(t *Term, v bool) bool {
			return v && t.Op == OBin && t.S == "==" && isConst(t.A[1]) && t.A[1] != tNil && t.contains(path)
		})
	for _, a := range x.A {
		t := strip(a)
		if t.Op == OCall && t.S == "path/filepath.Clean" {
			t = strip(t.A[0])
		}
		if t == path || home && t.contains(path) {
			return true
		}
	}
	return false
}

func madeIn(o *Outcome, t *Term) bool {
	return len(allEvents(o, func(ev *Event) bool { return ev.Kind == "call" && ev.Res == t })) > 0
}

// errOf is the error among the results of a call.
func errOf(ev *Event) *Term {
	if ev.Res == nil || ev.Res.T == nil {
		return nil
	}
	switch t := ev.Res.T.(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if isErrorType(t.At(i).Type()) {
				return resN(ev.Res, i, nil)
			}
		}
	default:
		if isErrorType(t) {
			return ev.Res
		}
	}
	return nil
}

// getter: the field of the instance that a method returns.
func (c *Check) getter(zt types.Type, iface string) string {
	ms := c.P.prog.MethodSets.MethodSet(types.NewPointer(zt))
	var found []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		g := c.P.prog.MethodValue(ms.At(i))
		if g != nil && g.Synthetic == "" && g.Signature.Params().Len() == 0 && g.Signature.Results().Len() == 1 && typeStr(g.Signature.Results().At(0).Type()) == iface {
			found = append(found, g)
		}
	}
	const rule = "the instance hands out the service it was built with"
	if !c.req(len(found) == 1, "anchor", typeStr(zt), "-", "%d methods return %s", len(found), iface) {
		return ""
	}
	g := found[0]
	a := symArgs(g)
	name := ""
	for _, o := range c.run(g, stdConfig(), a, nil) {
		r := o.Rets
		ok := o.Kind == "return" && r[0].Op == OFld && r[0].A[0] == a[0] && (name == "" || name == r[0].S)
		if c.req(ok, rule, fname(g), c.fpos(g), "%s", o.brief()) {
			name = r[0].S
		}
	}
	return name
}

func (c *Check) construct(f *ssa.Function, zt types.Type) (pol, rel map[string]bool) {
	pol, rel = map[string]bool{}, map[string]bool{}
	polF, relF := c.getter(zt, polSvc), c.getter(zt, relSvc)
	sf := fieldsOf(zt, "store.Store")
	if polF == "" || relF == "" || len(sf) != 1 {
		return
	}
	args := symArgs(f)
	cfg := stdConfig()
	impl := c.implOf("store.Store")
	if impl == nil {
		return
	}
	getP, getN := map[string]bool{"store.Store.GetPolicyRepository": true}, map[string]bool{"store.Store.GetRelationNodeRepository": true}
	for n, m := range map[string]map[string]bool{"GetPolicyRepository": getP, "GetRelationNodeRepository": getN} {
		if g := c.method(impl, n); g != nil {
			cfg.Opaque[fname(g)] = Opaque{}
			m[fname(g)] = true
		}
	}
	const rAll, rFail, rDef, rOne = "every option is applied", "a failing option fails the construction", "an in-memory store is used only if none was configured", "both services use the one store"
	opts := args[len(args)-1]
	for _, o := range c.run(f, cfg, args, nil) {
		fn, pos := fname(f), c.fpos(f)
		if o.Kind != "return" {
			c.req(false, rAll, fn, pos, "%s", o.brief())
			continue
		}
		dyn := allEvents(o, func(ev *Event) bool { return ev.Kind == "dyncall" })
		if !o.ok() {
			bad := factHas(o.St, func(t *Term, v bool) bool { return !v && t.Op == OBin && t.S == "==" && isErrTerm(t.A[0]) })
			c.req(bad, "construction fails only if an option does", fn, pos, "%s", o.brief())
			continue
		}
		// options
		empty := is(o.St, mkEq(mkLen(opts), cInt(0)), true)
		ls := loopsOver(o.Evs, opts)
		ok := len(ls) == 1 && ls[0].Loop.Exhausted
		if ok {
			n := 0
			el := elemOf(ls[0].Loop.L, opts)
			for _, cs := range ls[0].Loop.All {
				d := allIn(cs.Evs, "dyncall")
				if len(d) == 0 && is(cs.St, isNilT(el), true) {
					continue
				}
				one := len(d) == 1 && d[0].Raw[0] == el
				n += len(d)
				ok = ok && one
				if one {
					c.req(is(cs.St, isNilT(errOf(d[0])), true), rFail, fn, c.posOf(d[0]), "%v", factsOf(cs))
				}
			}
			ok = ok && len(dyn) == n
		}
		c.req(ok || empty && len(dyn) == 0, rAll, fn, pos, "%s", o.brief())
		z := o.Rets[0]
		s := fld(z, sf[0])
		// the store
		fresh := basesOf(s, nil)
		configured := s.Op == OLv || strings.HasPrefix(s.S, "left.")
		if len(fresh) > 0 {
			known := empty || factHas(o.St, func(t *Term, v bool) bool {
				return v && t.Op == OBin && t.S == "==" && t.A[1] == tNil && t.A[0].T != nil && typeStr(t.A[0].T) == "store.Store" && (t.A[0].Op == OLv || strings.HasPrefix(t.A[0].S, "left."))
			})
			mem := len(fresh) == 1
			for x := range fresh {
				mem = mem && strings.HasPrefix(x.S, "rcdb.NewMem") && madeIn(o, x)
			}
			c.req(known && mem, rDef, fn, pos, "%s", o.brief())
		} else {
			c.req(configured, rDef, fn, pos, "the store is %s", s)
		}
		// the services
		from := func(t *Term, get map[string]bool) bool {
			for _, ev := range o.Evs {
				if ev.Kind == "call" && get[ev.Name] && (resN(ev.Res, 0, nil) == t || ev.Res == t) {
					return strip(ev.Args[0]) == strip(s) || ev.Args[0] == s
				}
			}
			return false
		}
		service := func(name string, into map[string]bool, what ...string) {
			v := fld(z, name)
			for v.Op == OIface {
				v = v.A[0]
			}
			if !c.req(v.Op == ONew, rOne, fn, pos, "the service is %s", v) || v.Op != ONew {
				return
			}
			sty := derefType(v.T)
			for _, w := range what {
				fs := fieldsOf(sty, w)
				if !c.req(len(fs) > 0, rOne, fn, pos, "the service has no %s", w) {
					continue
				}
				for _, n := range fs {
					get := getP
					if w == nodeRepo {
						get = getN
					}
					c.req(from(fld(v, n), get), rOne, fn, pos, "%s.%s is %s", typeStr(sty), n, fld(v, n))
					into[n] = true
				}
			}
		}
		service(polF, pol, "policy.Repository")
		service(relF, rel, "policy.Repository", nodeRepo)
	}
	c.min(rAll, 1)
	c.min(rFail, 1)
	c.min(rDef, 2)
	c.min(rOne, 6)
	return
}

// usesRepos: every operation works on the repositories of its own service.
func (c *Check) usesRepos(pol, rel map[string]bool) {
	const rule = "operations use the repositories the service was built with"
	for _, r := range c.rpcs() {
		if r.f == nil {
			continue
		}
		args := symArgs(r.f)
		fields := pol
		if r.iface == relSvc {
			fields = rel
		}
		for _, o := range c.run(r.f, c.svcCfg(), args, nil) {
			walk(o, func(w where) {
				ev := w.ev
				if ev.Kind != "call" || !(strings.HasPrefix(ev.Name, polRepo) || strings.HasPrefix(ev.Name, nodeRepo+".")) {
					return
				}
				t := ev.Args[0]
				c.req(t.Op == OFld && t.A[0] == args[0] && fields[t.S], rule, fname(r.f), c.posOf(ev), "%s of %s", ev.Name, t)
			})
		}
	}
	c.min(rule, 15)
}

// server: both services are registered and served.
func (c *Check) server(zt types.Type) {
	const rReg, rServe = "the server exposes both services of its instance", "the server serves what it registered"
	var init, serve *ssa.Function
	zp := typeStr(types.NewPointer(zt))
	for f := range c.P.allFns {
		if !isRepo(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || f.Signature.Recv() == nil || !strings.HasPrefix(fname(f), "(*server.") {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if paramOf(f, zp) >= 0 {
			init = f
		} else if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() <= 1 {
			serve = f
		}
	}
	if !c.req(init != nil && serve != nil, "anchor", "server.Server", "-", "no method takes an instance, or none serves") || init == nil || serve == nil {
		return
	}
	a := symArgs(init)
	z := a[paramOf(init, zp)]
	want := map[string]string{}
	if n := c.getter(zt, polSvc); n != "" {
		want["api.PolicyService_ServiceDesc"] = n
	}
	if n := c.getter(zt, relSvc); n != "" {
		want["api.RelationGraph_ServiceDesc"] = n
	}
	srv := ""
	lis := ""
	for _, o := range c.run(init, stdConfig(), a, nil) {
		if !o.ok() {
			bad := o.Kind == "return" && factHas(o.St, func(t *Term, v bool) bool { return !v && t.Op == OBin && t.S == "==" && isErrTerm(t.A[0]) })
			c.req(bad, "starting fails only if a step does", fname(init), c.fpos(init), "%s", o.brief())
			continue
		}
		got := map[string]bool{}
		for _, w := range allEvents(o, func(ev *Event) bool {
			return ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".RegisterService") || strings.HasPrefix(ev.Name, "api.Register"))
		}) {
			on, d, s := w.ev.Args[0], "", w.ev.Args[len(w.ev.Args)-1]
			if len(w.ev.Args) == 3 {
				d = w.ev.Raw[1].String()
			} else { // the generated functions name the service
				d = strings.TrimSuffix(strings.Replace(w.ev.Name, "api.Register", "api.", 1), "Server") + "_ServiceDesc"
			}
			for on.Op == OIface {
				on = on.A[0]
			}
			for s.Op == OIface {
				s = s.A[0]
			}
			for n, fd := range want {
				if strings.Contains(d, n) {
					ok := len(w.in) == 0 && s == fld(z, fd) && on.Op == OFld && on.A[0] == a[0]
					c.req(ok, rReg, fname(init), c.posOf(w.ev), "%s serves %s", n, s)
					got[n] = got[n] || ok
					srv = on.S
				}
			}
		}
		for n := range want {
			c.req(got[n], rReg, fname(init), c.fpos(init), "%s is not registered", n)
		}
		for _, w := range allEvents(o, func(ev *Event) bool { return ev.Kind == "call" }) {
			if e := errOf(w.ev); e != nil {
				c.req(is(o.St, isNilT(e), true), "a failing start is reported", fname(init), c.posOf(w.ev), "the error of %s is dropped", w.ev.Name)
			}
		}
		for _, ev := range o.Evs {
			if ev.Kind == "store" && ev.Raw[0] == a[0] && strings.HasPrefix(ev.Args[1].String(), "net.Listen") {
				lis = strings.TrimPrefix(ev.Name, ".")
			}
		}
	}
	b := symArgs(serve)
	for _, o := range c.run(serve, stdConfig(), b, nil) {
		cs := calls(o.Evs, grpcServe)
		ok := o.Kind == "return" && len(cs) == 1 && cs[0].Args[0] == fld(b[0], srv) && strip(cs[0].Args[1]) == fld(b[0], lis)
		c.req(ok, rServe, fname(serve), c.fpos(serve), "%s", o.brief())
	}
	c.min(rReg, 4)
	c.min(rServe, 1)
}

// daemon: the command serves an instance over the configured directory at the configured address.
func (c *Check) daemon() {
	const rDir, rAddr, rFail, rReg = "the daemon stores its data where it is configured to", "the daemon listens where it is configured to", "the daemon serves only what was set up", "the daemon serves the instance it set up"
	called := map[*ssa.Function]bool{}
	flags := map[string]string{} // variable -> flag
	var roots []*ssa.Function
	for f := range c.P.allFns {
		if !isRepo(f) || !strings.Contains(fname(f), "/cmd/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				called[g] = true
				if strings.HasPrefix(g.Name(), "StringVar") && len(cc.Args) >= 3 {
					v, isG := cc.Args[1].(*ssa.Global)
					k, isK := cc.Args[2].(*ssa.Const)
					if isG && isK && k.Value != nil {
						flags[shortPath(v.String())] = strings.Trim(k.Value.ExactString(), "\"")
					}
				}
			}
		}
	}
	for f := range c.P.allFns {
		if !isRepo(f) || !strings.Contains(fname(f), "/cmd/") || called[f] || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if strings.HasSuffix(typeStr(f.Signature.Params().At(i).Type()), "cobra.Command") && len(f.FreeVars) == 0 {
				roots = append(roots, f)
				break
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	// flagOf: the flag a value comes from, "" if that is not known
	flagOf := func(t *Term) string {
		name := ""
		t.has(func(x *Term) bool {
			if f, ok := flags[x.String()]; ok {
				name = f
			}
			if x.Op == OCall && strings.HasSuffix(x.S, ".GetString") && len(x.A) == 2 {
				name = str(x.A[1])
			}
			return name != ""
		})
		return name
	}
	for _, f := range roots {
		outs := c.run(f, stdConfig(), symArgs(f), nil)
		serves := false
		for _, o := range outs {
			serves = serves || len(calls(o.Evs, grpcServe)) > 0
		}
		if !serves {
			continue
		}
		for _, o := range outs {
			sv := calls(o.Evs, grpcServe)
			failed := ""
			var pos string
			for _, ev := range o.Evs {
				if e := errOf(ev); ev.Kind == "call" && ev.Name != grpcServe && e != nil && !is(o.St, isNilT(e), true) && isErrTerm(e) {
					failed, pos = ev.Name, c.posOf(ev)
				}
			}
			if len(sv) == 0 {
				c.req(failed != "", "the daemon gives up only if a step fails", fname(f), c.fpos(f), "%s", o.brief())
				continue
			}
			if pos == "" {
				pos = c.fpos(f)
			}
			c.req(failed == "", rFail, fname(f), pos, "it serves although %s failed", failed)
			s, l := sv[0].Args[0], strip(sv[0].Args[1])
			var dbs []*Term
			for _, ev := range o.Evs {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "rcdb.New") && ev.Name != "rcdb.NewWrapperKV" && kvMade(ev.Res) != nil {
					dbs = append(dbs, ev.Res)
				}
			}
			regs := 0
			for _, ev := range o.Evs {
				if ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".RegisterService") || strings.HasPrefix(ev.Name, "api.Register")) && strip(ev.Args[0]) == s {
					svc := ev.Args[len(ev.Args)-1]
					one := false
					for _, d := range dbs {
						one = one || d.S == "rcdb.NewLevelDB" && svc.contains(d)
					}
					c.req(one, rReg, fname(f), c.posOf(ev), "a service is not backed by the database")
					regs++
				}
			}
			c.req(regs == 2 && len(sv) == 1, rReg, fname(f), c.posOf(sv[0]), "%d services", regs)
			for _, d := range dbs {
				if d.S != "rcdb.NewLevelDB" {
					continue
				}
				fl := flagOf(d.A[0])
				c.req(!isConst(strip(d.A[0])) && (fl == "" || strings.Contains(fl, "dir") || strings.Contains(fl, "path")), rDir, fname(f), c.fpos(f), "%s (flag %q)", d.A[0], fl)
			}
			fl := flagOf(l)
			lis := l.has(func(x *Term) bool { return x.Op == OCall && strings.HasPrefix(x.S, "net.Listen") })
			konst := !l.has(func(x *Term) bool { return !isConst(x) && x.Op != OCall && x.Op != ORes })
			c.req(lis && !konst && (fl == "" || strings.Contains(fl, "addr")), rAddr, fname(f), c.posOf(sv[0]), "%s (flag %q)", l, fl)
		}
	}
	c.min(rReg, 2)
	c.min(rAddr, 1)
	c.min(rDir, 1)
	c.min(rFail, 1)
}
