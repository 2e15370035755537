package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- obligations ----

// Violation is one construct that breaks (or could not be shown to keep) the property.
type Violation struct {
	Rule, Construct, Pos, Detail string
}

type Check struct {
	P        *Program
	Prop     string
	Tier     string
	obl      int
	ok       int
	rules    map[string]int
	viol     []Violation
	known    []Violation
	outcomes int
	sites    int
	loops    int
	fns      map[string]bool
	samples  []string
	assume   []string
	cache    map[string][]*Outcome
	env      *repoEnv
}

func newCheck(p *Program, prop, tier string) *Check {
	return &Check{P: p, Prop: prop, Tier: tier, rules: map[string]int{}, fns: map[string]bool{}, cache: map[string][]*Outcome{}}
}

// req records one obligation: rule applied to a construct.
func (c *Check) req(ok bool, rule, construct, pos, detail string, a ...any) bool {
	c.obl++
	c.rules[rule]++
	if ok {
		c.ok++
		if c.rules[rule] == 1 && len(c.samples) < 12 {
			c.samples = append(c.samples, fmt.Sprintf("%s: %s (%s)", rule, construct, pos))
		}
		return true
	}
	d := fmt.Sprintf(detail, a...)
	if len(d) > 1500 {
		d = d[:1500] + " …"
	}
	c.viol = append(c.viol, Violation{rule, construct, pos, d})
	return false
}

// min fails the check when a rule matched fewer constructs than confirmed by hand.
func (c *Check) min(rule string, n int) {
	if c.rules[rule] < n {
		c.viol = append(c.viol, Violation{"instances", rule, "-", fmt.Sprintf("rule %q matched %d constructs, at least %d expected: the analysis lost sight of the code it is about", rule, c.rules[rule], n)})
	}
}

// fn resolves an anchor by canonical name.
func (c *Check) fn(name string) *ssa.Function {
	f := c.P.Fn(name)
	if f == nil || len(f.Blocks) == 0 {
		c.req(false, "anchor", name, "-", "function %s was not found", name)
		return nil
	}
	return f
}

// run analyses a function with the given arguments.
func (c *Check) run(f *ssa.Function, cfg Config, args []*Term, st *State) []*Outcome {
	return c.runClosure(f, cfg, args, nil, st)
}

func (c *Check) runClosure(f *ssa.Function, cfg Config, args, binds []*Term, st *State) []*Outcome {
	if f == nil {
		return nil
	}
	e := NewEng(c.P, cfg)
	outs, err := e.RunClosure(f, args, binds, st)
	c.sites += e.sites
	c.loops += e.nloops
	for g := range e.fns {
		c.fns[fname(g)] = true
	}
	if err != nil {
		c.req(false, "decidable", fname(f), c.P.Pos(f.Pos()), "%v", err)
		return nil
	}
	c.outcomes += len(outs)
	return splitErr(f, outs)
}

// args builds symbolic arguments that are not nil, named after their position.
func symArgs(f *ssa.Function, names ...string) []*Term {
	var a []*Term
	for i, p := range f.Params {
		n := fmt.Sprintf("!arg%d", i)
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		a = append(a, in(n, p.Type()))
	}
	return a
}

// splitErr separates outcomes that return an undecided error.
func splitErr(f *ssa.Function, outs []*Outcome) []*Outcome {
	res := f.Signature.Results()
	ei := -1
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			ei = i
		}
	}
	if ei < 0 {
		return outs
	}
	var out []*Outcome
	for _, o := range outs {
		if o.Kind != "return" {
			out = append(out, o)
			continue
		}
		r := o.Rets[ei]
		o.err = r
		if v, ok := o.St.decide(mkEq(r, tNil)); ok {
			o.isErr = !v
			out = append(out, o)
			continue
		}
		for _, nilErr := range []bool{true, false} {
			s := o.St.clone()
			if !s.assume(mkEq(r, tNil), nilErr) {
				continue
			}
			out = append(out, &Outcome{Kind: o.Kind, Rets: o.Rets, Raw: o.Raw, St: s, Evs: o.Evs, err: r, isErr: !nilErr})
		}
	}
	return out
}

// ---- three-valued formulas over an outcome ----

type tri int

const (
	tF tri = -1
	tU tri = 0
	tT tri = 1
)

func (t tri) String() string { return map[tri]string{tF: "false", tU: "undecided", tT: "true"}[t] }

type Ctx struct {
	st  *State
	evs []*Event
}

func (o *Outcome) ctx() Ctx { return Ctx{o.St, o.Evs} }
func (c *Case) ctx() Ctx    { return Ctx{c.St, c.Evs} }

type Formula struct {
	name string
	f    func(Ctx) tri
}

func (f Formula) eval(c Ctx) tri { return f.f(c) }

func boolTri(v, ok bool) tri {
	if !ok {
		return tU
	}
	if v {
		return tT
	}
	return tF
}

func atom(t *Term) Formula {
	return Formula{t.String(), func(c Ctx) tri { return boolTri(c.st.decide(t)) }}
}

func fnot(f Formula) Formula {
	return Formula{"not " + f.name, func(c Ctx) tri { return -f.eval(c) }}
}

func fand(fs ...Formula) Formula {
	var n []string
	for _, f := range fs {
		n = append(n, f.name)
	}
	return Formula{"(" + strings.Join(n, " and ") + ")", func(c Ctx) tri {
		r := tT
		for _, f := range fs {
			switch f.eval(c) {
			case tF:
				return tF
			case tU:
				r = tU
			}
		}
		return r
	}}
}

func for_(fs ...Formula) Formula {
	var n []string
	for _, f := range fs {
		n = append(n, f.name)
	}
	return Formula{"(" + strings.Join(n, " or ") + ")", func(c Ctx) tri {
		r := tF
		for _, f := range fs {
			switch f.eval(c) {
			case tT:
				return tT
			case tU:
				r = tU
			}
		}
		return r
	}}
}

// any of several equivalent ways to establish the same thing
func same(fs ...Formula) Formula {
	return Formula{fs[0].name, func(c Ctx) tri {
		for _, f := range fs {
			if v := f.eval(c); v != tU {
				return v
			}
		}
		return tU
	}}
}

// elemOf is the generic element of sequence d in loop l.
func elemOf(l *Loop, d *Term) *Term {
	return mk(OElem, "", 0, l, nil, nil, elemType(d.T), d)
}

func loopsOver(evs []*Event, d *Term) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind == "loop" && ev.Loop.Domain == d {
			out = append(out, ev)
		}
	}
	return out
}

// forall x in d: body(x)
func forall(name string, d *Term, body func(x *Term) Formula) Formula {
	return Formula{"forall " + name + " in " + d.String(), func(c Ctx) tri {
		d := d
		if l, ok := litLen(c, d); ok {
			r := tT
			for i := 0; i < l; i++ {
				switch body(d.A[i]).eval(c) {
				case tF:
					return tF
				case tU:
					r = tU
				}
			}
			return r
		}
		if v, ok := c.st.decide(mkEq(mkLen(d), cInt(0))); ok && v {
			return tT
		}
		if z, ok := c.st.zeroOf(d); ok && z == tNil {
			return tT
		}
		res := tU
		for i, ev := range c.evs {
			if ev.Kind != "loop" || ev.Loop.Domain != d {
				continue
			}
			x := elemOf(ev.Loop.L, d)
			if ev.Loop.Exhausted {
				all := true
				for _, cs := range ev.Loop.All {
					if body(x).eval(cs.ctx()) != tT {
						all = false
						break
					}
				}
				if all {
					return tT
				}
			}
			for _, g := range ev.Loop.Must {
				all := len(g) > 0
				for _, cs := range g {
					if body(x).eval(cs.ctx()) != tF {
						all = false
					}
				}
				if all {
					return tF
				}
			}
			if !ev.Loop.Exhausted {
				if body(x).eval(Ctx{c.st, c.evs[i+1:]}) == tF {
					return tF
				}
			}
		}
		return res
	}}
}

func litLen(c Ctx, d *Term) (int, bool) {
	if d.Op == OLit {
		return len(d.A), true
	}
	return 0, false
}

func exists(name string, d *Term, body func(x *Term) Formula) Formula {
	f := forall(name, d, func(x *Term) Formula { return fnot(body(x)) })
	g := fnot(f)
	g.name = "exists " + name + " in " + d.String()
	return g
}

// ---- walking events ----

type where struct {
	ev  *Event
	ctx Ctx      // the state that holds around the event
	in  []*Event // enclosing loops, outermost first
	cs  *Case
}

// walk visits every event, those inside of loop iterations included.
func walk(o *Outcome, f func(w where)) { walkEvs(o.Evs, o.ctx(), nil, nil, f) }

func walkEvs(evs []*Event, c Ctx, in []*Event, cs *Case, f func(w where)) {
	for _, ev := range evs {
		f(where{ev, c, in, cs})
		if ev.Kind == "loop" {
			for _, k := range ev.Loop.All {
				walkEvs(k.Evs, k.ctx(), append(append([]*Event{}, in...), ev), k, f)
			}
		}
	}
}

func calls(evs []*Event, names ...string) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind != "call" && ev.Kind != "rec" {
			continue
		}
		for _, n := range names {
			if ev.Name == n {
				out = append(out, ev)
			}
		}
	}
	return out
}

// resN is the n-th result of a call event (or of a call term).
func resN(t *Term, n int, ty types.Type) *Term {
	return mk(ORes, fmt.Sprint(n), 0, nil, nil, nil, ty, t)
}

// ---- types and implementations ----

// implOf finds the type of the repository (outside generated code) that implements an interface.
func (c *Check) implOf(iface string) types.Type {
	it := c.P.typeByName[iface]
	if it == nil {
		c.req(false, "anchor", iface, "-", "interface %s was not found", iface)
		return nil
	}
	i := it.Underlying().(*types.Interface)
	var found []types.Type
	var names []string
	for n := range c.P.typeByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := c.P.typeByName[n]
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		nt, ok := p.Elem().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 || nt.Obj().Pkg() == nil {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		if c.P.genFiles[c.P.fset.Position(nt.Obj().Pos()).Filename] || !strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
			continue
		}
		if types.Implements(t, i) {
			found = append(found, t)
		}
	}
	if len(found) != 1 {
		c.req(false, "anchor", iface, "-", "expected one implementation of %s, found %v", iface, found)
		return nil
	}
	return found[0]
}

// method resolves a method of a concrete type.
func (c *Check) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	f := c.methodOpt(t, name)
	if f == nil {
		c.req(false, "anchor", typeStr(t)+"."+name, "-", "method %s of %s was not found", name, typeStr(t))
	}
	return f
}

func (c *Check) methodOpt(t types.Type, name string) *ssa.Function {
	ms := c.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := c.P.prog.MethodValue(ms.At(i))
			if f != nil && len(f.Blocks) > 0 && isRepo(f) && !c.P.generated(f) {
				return f
			}
		}
	}
	return nil
}

func (o *Outcome) ok() bool { return o.Kind == "return" && !o.isErr }

// describe an outcome briefly
func (o *Outcome) brief() string {
	var b strings.Builder
	b.WriteString(o.Kind)
	for _, r := range o.Rets {
		s := r.String()
		if len(s) > 160 {
			s = s[:160] + "…"
		}
		b.WriteString(" " + s)
	}
	b.WriteString(" when")
	fs := sortedFacts(o.St.facts)
	sort.Slice(fs, func(i, j int) bool { return len(fs[i]) < len(fs[j]) })
	for i, f := range fs {
		if i > 14 {
			break
		}
		if len(f) > 140 {
			f = f[:140] + "…"
		}
		b.WriteString("; " + f)
	}
	return b.String()
}

func (c *Check) fpos(f *ssa.Function) string { return c.P.Pos(f.Pos()) }

func ifaceMethods(t types.Type) []string {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Exported() {
			out = append(out, i.Method(k).Name())
		}
	}
	return out
}
