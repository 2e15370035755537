package main

import (
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "Error provenance: for every RPC, every repository method and the evaluation, on every path that ends in an error the chain of errors it wraps is computed (%w operands of fmt.Errorf, errors.Join, package variables) and compared with what the path knows: the error of a failed storage call is in the chain, a failed storage call is never classified as an invalid request or as a missing or existing policy, those classifications appear exactly where the policy read is known to be absent or present, and a request refused without a failed call is never called internal.", checkC29)
}

// chain is what errors.Is finds in an error.
type chain struct {
	is    map[*Term]bool
	globs map[string]bool
	known bool // nothing else is in it
}

func (p *Program) errChain(t *Term) chain {
	ch := chain{map[*Term]bool{}, map[string]bool{}, true}
	p.addChain(t, &ch, 0)
	return ch
}

func (p *Program) addChain(t *Term, ch *chain, depth int) {
	t = strip(t)
	if depth > 40 {
		ch.known = false
		return
	}
	if t == tNil || ch.is[t] {
		return
	}
	ch.is[t] = true
	sub := func(x *Term) { p.addChain(x, ch, depth+1) }
	switch t.Op {
	case OGlob:
		ch.globs[t.S] = true
		if v := p.errInit[t.S]; v != nil {
			sub(v)
		}
	case OIface:
		ch.known = false // an error type of its own: its methods say what it wraps
		sub(t.A[0])
	case ORes, OIn:
	case OCall:
		switch t.S {
		case "errors.New":
		case "errors.Join":
			l := strip(t.A[0])
			if l.Op != OLit {
				ch.known = false
				return
			}
			for _, x := range l.A {
				sub(x)
			}
		case "fmt.Errorf":
			f, ok := strVal(t.A[0])
			l := mkLit()
			if len(t.A) > 1 && !t.A[1].isNil() {
				l = strip(t.A[1])
			}
			if !ok || l.Op != OLit || strings.ContainsAny(f, "[*") {
				ch.known = false
				return
			}
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && n < len(l.A) {
					sub(l.A[n])
				}
				n++
			}
		default:
			if !isErrTerm(t) {
				ch.known = false
			}
		}
	default:
		ch.known = false
	}
}

const (
	errInternal = "api.ErrInternal"
	errRequest  = "api.ErrInvalidRequest"
	errNoPolicy = "policy.ErrPolicyNotFound"
	errExists   = "policy.ErrPolicyExists"
)

// failures lists the errors of the storage calls and evaluations that are known to have failed.
func failures(o *Outcome) (out []*Event) {
	walk(o, func(w where) {
		ev := w.ev
		if ev.Kind != "rec" && (ev.Kind != "call" || !isStorage(ev.Name) && ev.Name != searchFn && ev.Name != serialize) || strings.HasSuffix(ev.Name, "Iterator.Close") {
			return
		}
		if e := errResult(ev); e != nil && is(o.St, mkEq(e, tNil), false) {
			out = append(out, ev)
		}
	})
	return out
}

func checkC29(c *Check) {
	const (
		cause = "the error of a failed step is wrapped"
		kind  = "a failed step is not the caller's mistake"
	)
	for _, g := range []string{errInternal, errRequest, errNoPolicy, errExists} {
		i := strings.IndexByte(g, '.')
		pk := c.P.byPath[g[:i]]
		c.req(pk != nil && pk.Members[g[i+1:]] != nil, "anchor", g, "-", "the error was not found")
		c.req(c.P.errInit[g] == nil || c.P.errInit[g].Op == OCall && c.P.errInit[g].S == "errors.New", "error values are distinct", g, "-", "%s", c.P.errInit[g])
	}
	wrapped := func(f *ssa.Function, o *Outcome, ch chain, bad []*Event) {
		if len(bad) == 0 {
			return
		}
		ok := !ch.known
		for _, ev := range bad {
			ok = ok || ch.is[strip(errResult(ev))]
		}
		c.req(ok, cause, fname(f), c.posOf(bad[len(bad)-1]), "the error returned does not wrap that of %s: %s", bad[len(bad)-1].Name, o.brief())
		for _, g := range []string{errRequest, errNoPolicy, errExists} {
			c.req(!ch.globs[g], kind, fname(f), c.posOf(bad[len(bad)-1]), "%s failed and the error returned is %s: %s", bad[len(bad)-1].Name, g, o.brief())
		}
	}
	for _, r := range c.rpcs() {
		args := symArgs(r.f)
		fn, pos := fname(r.f), c.fpos(r.f)
		for _, o := range c.run(r.f, c.svcCfg(), args, nil) {
			if o.Kind != "return" || o.ok() || o.err == nil {
				continue
			}
			ch, bad := c.P.errChain(o.err), failures(o)
			wrapped(r.f, o, ch, bad)
			absent, present, searched, reads := false, false, false, 0
			walk(o, func(w where) {
				ev := w.ev
				if ev.Kind == "call" && ev.Name == polRepo+"GetPolicy" {
					rec := resN(ev.Res, 0, nil)
					reads++
					absent = absent || is(o.St, isNilT(rec), true) && noErr(o.St, ev)
					present = present || is(o.St, isNilT(rec), false)
				}
				searched = searched || ev.Name == searchFn
			})
			has := func(g string) bool { return ch.globs[g] || !ch.known }
			c.req(!ch.globs[errNoPolicy] || absent, "a policy is called missing only if it is", fn, pos, "%s", o.brief())
			c.req(!ch.globs[errExists] || present, "a policy is called existing only if it is", fn, pos, "%s", o.brief())
			if len(bad) > 0 {
				continue
			}
			if absent && r.name != "CreatePolicy" {
				c.req(has(errNoPolicy), "a missing policy is called missing", fn, pos, "%s", o.brief())
			}
			if present && r.name == "CreatePolicy" {
				c.req(has(errExists), "an existing policy is called existing", fn, pos, "%s", o.brief())
			}
			if r.iface == relSvc && (absent || !searched && slices.Contains([]string{"Check", "ExplainCheck", "Expand"}, r.name)) {
				c.req(has(errRequest), "a refused request is called invalid", fn, pos, "%s", o.brief())
				c.req(!ch.globs[errInternal], "a refused request is not called an internal failure", fn, pos, "%s", o.brief())
			}
			if r.iface == polSvc {
				c.req(!ch.globs[errInternal], "a refused request is not called an internal failure", fn, pos, "%s", o.brief())
			}
		}
	}
	for _, r := range c.repoMethods() {
		_, _, outs := c.repoRun(r.name, stdConfig())
		for _, o := range outs {
			if o.Kind == "return" && !o.ok() && o.err != nil {
				wrapped(r.f, o, c.P.errChain(o.err), failures(o))
			}
		}
	}
	if f := c.fn(searchFn); f != nil {
		for _, o := range c.run(f, stdConfig("-"+searchFn), symArgs(f), nil) {
			if o.Kind == "return" && !o.ok() && o.err != nil {
				wrapped(f, o, c.P.errChain(o.err), failures(o))
			}
		}
	}
	c.min(cause, 40)
	c.min("a missing policy is called missing", 7)
	c.min("an existing policy is called existing", 1)
	c.min("a refused request is called invalid", 8)
}
