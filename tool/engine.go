package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something the analysed code does that is visible outside of the
// values it computes: a call into storage or another library, a write to a map
// or to memory it was handed, a lock operation, a whole loop, and so on.
type Event struct {
	Kind string // call, rec, mapset, mapdel, store, loop, nilderef, go, send, close, panic, dyncall, assertfail, index
	Name string
	Args []*Term // viewed at the time of the event
	Raw  []*Term
	Res  *Term
	Pos  token.Pos
	Fn   *ssa.Function
	Loop *LoopEv
	St   *State // go: memory at that point
}

type evList struct {
	prev *evList
	ev   *Event
	n    int
}

func (l *evList) slice() []*Event {
	if l == nil {
		return nil
	}
	out := make([]*Event, l.n)
	for x := l; x != nil; x = x.prev {
		out[x.n-1] = x.ev
	}
	return out
}

// State is one abstract state: memory, branch facts and the events so far.
type State struct {
	heap  map[*Term]map[string]*Term
	facts map[*Term]bool
	eq    map[*Term]*Term // term -> constant
	typ   map[*Term]string
	sub   map[*Term]*Term // choices made for generic elements
	ev    *evList
	imp   map[*Term]map[string]*Term // memory of elements of earlier loops, as found
	bound map[*Loop]bool             // ended loops whose generic element now stands for one element

	panicking bool // deferred calls are running because of a panic nothing has recovered yet
}

func newState() *State {
	return &State{heap: map[*Term]map[string]*Term{}, facts: map[*Term]bool{}, eq: map[*Term]*Term{}, typ: map[*Term]string{}, sub: map[*Term]*Term{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	h := make(map[*Term]map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = cp(v)
	}
	return &State{heap: h, facts: cp(s.facts), eq: cp(s.eq), typ: cp(s.typ), sub: cp(s.sub), ev: s.ev, imp: s.imp, bound: s.bound, panicking: s.panicking}
}

func (s *State) emit(e *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &evList{s.ev, e, n}
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	parent *Frame
	fargs  string
	depth  int
	loops  []*loopRun
	unroll map[*ssa.BasicBlock]int
	k      func(st *State, rets []*Term)
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = cp(f.env)
	g.defers = append([]deferred(nil), f.defers...)
	g.loops = append([]*loopRun(nil), f.loops...)
	g.unroll = cp(f.unroll)
	return &g
}

// Outcome is one way an analysed entry point can end.
type Outcome struct {
	Kind string // return, panic
	Rets []*Term
	Raw  []*Term // the same, not viewed
	St   *State
	Evs  []*Event

	err   *Term // the error it returns, if its signature has one
	isErr bool
}

// Opaque tells how a call that is not looked into is treated.
type Opaque struct {
	Pure   bool
	NonNil bool
}

type Config struct {
	Opaque       map[string]Opaque // functions (by canonical name) that are not looked into
	BalancedMaps map[string]bool   // struct fields holding maps that a recursive call leaves as it found them
	Inline       map[string]bool   // functions to look into although opaque by default
	Cut          map[string]bool   // functions treated as recursive wherever they are called
	Peel         bool              // tell no iteration from some in loops without a domain inside another loop
}

type Eng struct {
	P      *Program
	cfg    Config
	inst   int
	budget int
	stack  []*loopRun // active abstract loops, outermost first
	fns    map[*ssa.Function]bool
	paths  int
	sites  int
	nloops int
	quiet  bool
	notes  map[string]bool
}

type giveUp struct{ why string }

func (e *Eng) fail(f string, a ...any) { panic(giveUp{fmt.Sprintf(f, a...)}) }

func NewEng(p *Program, cfg Config) *Eng {
	return &Eng{P: p, cfg: cfg, budget: 400000, fns: map[*ssa.Function]bool{}, notes: map[string]bool{}}
}

func (e *Eng) next() int { e.inst++; e.P.inst++; return e.P.inst }

// Run analyses fn with the given arguments and memory, and returns every way it can end.
func (e *Eng) Run(fn *ssa.Function, args []*Term, st *State) (outs []*Outcome, err error) {
	return e.RunClosure(fn, args, nil, st)
}

// RunClosure analyses a function with the given bindings of its free variables.
func (e *Eng) RunClosure(fn *ssa.Function, args, binds []*Term, st *State) (outs []*Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				err = fmt.Errorf("analysis gave up in %s: %s", fname(fn), g.why)
				return
			}
			panic(r)
		}
	}()
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no body to analyse: %v", fn)
	}
	if st == nil {
		st = newState()
	}
	e.callFn(nil, st, fn, args, binds, func(st *State, rets []*Term) {
		o := &Outcome{Kind: "return", Raw: rets, St: st, Evs: st.ev.slice()}
		for _, r := range rets {
			o.Rets = append(o.Rets, e.view(st, r))
		}
		outs = append(outs, o)
	}, func(st *State) {
		outs = append(outs, &Outcome{Kind: "panic", St: st, Evs: st.ev.slice()})
	})
	return outs, nil
}

var rxTypeArgs = regexp.MustCompile(`\[[^\[\]]*\]`)

func fname(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := shortPath(fn.String())
	for {
		t := rxTypeArgs.ReplaceAllString(s, "")
		if t == s {
			return s
		}
		s = t
	}
}

func (e *Eng) callFn(parent *Frame, st *State, fn *ssa.Function, args, binds []*Term, k func(*State, []*Term), pk func(*State)) {
	e.fns[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: parent, unroll: map[*ssa.BasicBlock]int{}, k: k}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 60 {
		e.fail("call depth exceeded at %s", fname(fn))
	}
	fr.fargs = funcArgs(args) + e.staticBinds(binds)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in("p_"+p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.env[fv] = binds[i]
		}
	}
	if pk != nil {
		old := e.P.panicSink
		e.P.panicSink = pk
		defer func() { e.P.panicSink = old }()
	}
	e.block(fr, st, fn.Blocks[0], nil)
}

func funcArgs(args []*Term) string {
	s := ""
	for _, a := range args {
		if a.Op == OClosure {
			s += fmt.Sprintf("%d;", a.ID)
		}
	}
	return s
}

// jump transfers control to block b, coming from prev.
func (e *Eng) jump(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	for i := len(fr.loops) - 1; i >= 0; i-- {
		lr := fr.loops[i]
		if b == lr.L.header {
			fr.loops = fr.loops[:i+1]
			lr.onBack(fr, st, prev)
			return
		}
		if !lr.L.blocks[b] {
			fr.loops = fr.loops[:i]
			lr.onExit(fr, st, b, prev)
			return
		}
		break
	}
	e.block(fr, st, b, prev)
}

func (e *Eng) block(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if lb := e.P.loopAt(fr.fn, b); lb != nil {
		e.enterLoop(fr, st, b, prev, lb)
		return
	}
	e.phis(fr, st, b, prev)
	e.instrs(fr, st, b, 0)
}

func edgeIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (e *Eng) phis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	idx := edgeIndex(b, prev)
	var vals []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, e.val(fr, p.Edges[idx]))
	}
	for i, p := range ph {
		fr.env[p] = vals[i]
	}
}

func (e *Eng) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return mk(OClosure, "", 0, nil, x, nil, x.Type())
	case *ssa.Global:
		return mk(OGlob, "&"+shortPath(x.Pkg.Pkg.Path()+"."+x.Name()), 0, nil, nil, nil, x.Type())
	case *ssa.Builtin:
		return mk(OConst, "builtin:"+x.Name(), 0, nil, nil, nil, nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	e.fail("no value for %s in %s", v.Name(), fname(fr.fn))
	return nil
}

func (e *Eng) tick() {
	e.sites++
	e.budget--
	if e.budget < 0 {
		e.fail("analysis budget exhausted")
	}
}

func (e *Eng) instrs(fr *Frame, st *State, b *ssa.BasicBlock, from int) {
	for i := from; i < len(b.Instrs); i++ {
		e.tick()
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			o := mk(OObj, typeStr(x.Type().Underlying().(*types.Pointer).Elem()), e.next(), nil, nil, nil, x.Type())
			st.heap[o] = map[string]*Term{}
			fr.env[x] = o
		case *ssa.BinOp:
			if qs := e.fieldwise(fr, x); len(qs) > 0 {
				i, x := i, x
				e.allOf(fr, st, qs, func(fr *Frame, st *State, v bool) {
					fr.env[x] = cBool(v == (x.Op == token.EQL))
					e.instrs(fr, st, b, i+1)
				})
				return
			}
			fr.env[x] = e.binop(fr, st, x)
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				addr := e.val(fr, x.X)
				i, x := i, x
				e.load(fr, st, addr, x.Type(), x.Pos(), func(fr *Frame, st *State, v *Term) {
					fr.env[x] = v
					e.instrs(fr, st, b, i+1)
				})
				return
			case token.NOT:
				fr.env[x] = mkNot(e.val(fr, x.X))
			case token.ARROW:
				v := mk(OCall, "recv", e.next(), nil, nil, nil, nil, e.val(fr, x.X))
				if x.CommaOk {
					fr.env[x] = mk(OTuple, "", 0, nil, nil, nil, nil, mk(ORes, "0", 0, nil, nil, nil, nil, v), mk(ORes, "1", 0, nil, nil, nil, types.Typ[types.Bool], v))
				} else {
					fr.env[x] = v
				}
				st.emit(&Event{Kind: "recv", Raw: []*Term{e.val(fr, x.X)}, Res: v, Pos: x.Pos(), Fn: fr.fn})
			default:
				fr.env[x] = mk(OBin, x.Op.String(), 0, nil, nil, nil, x.Type(), e.val(fr, x.X))
			}
		case *ssa.ChangeType:
			fr.env[x] = e.changeType(e.val(fr, x.X), x.Type())
		case *ssa.Convert:
			fr.env[x] = mkConv(e.content(st, e.val(fr, x.X)), x.Type())
		case *ssa.MultiConvert:
			fr.env[x] = mkConv(e.content(st, e.val(fr, x.X)), x.Type())
		case *ssa.ChangeInterface:
			fr.env[x] = e.val(fr, x.X)
		case *ssa.MakeInterface:
			fr.env[x] = mkIface(x.X.Type(), e.val(fr, x.X))
		case *ssa.MakeClosure:
			var bs []*Term
			for _, v := range x.Bindings {
				bs = append(bs, e.val(fr, v))
			}
			fr.env[x] = mk(OClosure, "", 0, nil, x.Fn.(*ssa.Function), nil, x.Type(), bs...)
		case *ssa.MakeMap:
			o := mk(OObj, "map", e.next(), nil, nil, nil, x.Type())
			st.heap[o] = map[string]*Term{"#": tEmptyMap}
			fr.env[x] = o
		case *ssa.MakeSlice:
			n := e.val(fr, x.Len)
			o := mk(OObj, "slice", e.next(), nil, nil, nil, x.Type())
			if v, ok := n.intVal(); ok && v == 0 {
				fr.env[x] = mkLit()
			} else {
				st.heap[o] = map[string]*Term{"#": mk(OMk, typeStr(x.Type()), 0, nil, nil, nil, x.Type(), n)}
				fr.env[x] = o
			}
		case *ssa.MakeChan:
			fr.env[x] = mk(OCall, "chan", e.next(), nil, nil, nil, x.Type(), e.val(fr, x.Size))
		case *ssa.FieldAddr:
			p := e.val(fr, x.X)
			e.deref(fr, st, p, x.Pos())
			st0 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			fr.env[x] = addrOf(p, "."+st0.Field(x.Field).Name(), x.Type())
		case *ssa.Field:
			s := e.val(fr, x.X)
			st0 := x.X.Type().Underlying().(*types.Struct)
			fr.env[x] = mkFld(s, st0.Field(x.Field).Name(), x.Type())
		case *ssa.IndexAddr:
			p := e.val(fr, x.X)
			idx := e.val(fr, x.Index)
			if v, ok := idx.intVal(); ok {
				fr.env[x] = addrOf(p, "["+strconv.FormatInt(v, 10)+"]", x.Type())
			} else {
				fr.env[x] = mk(OAddr, "[?]", 0, nil, nil, nil, x.Type(), p, idx)
			}
		case *ssa.Index:
			fr.env[x] = e.index(st, e.val(fr, x.X), e.val(fr, x.Index), x.Type())
		case *ssa.Lookup:
			i, x := i, x
			e.lookup(fr, st, x, func(fr *Frame, st *State, v *Term) {
				fr.env[x] = v
				e.instrs(fr, st, b, i+1)
			})
			return
		case *ssa.MapUpdate:
			e.mapUpdate(fr, st, e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value), x.Pos())
		case *ssa.Range:
			m := e.val(fr, x.X)
			fr.env[x] = mk(OCall, "range", 0, nil, nil, nil, x.X.Type(), e.mapContent(st, m))
		case *ssa.Next:
			fr.env[x] = e.nextElem(fr, st, x)
		case *ssa.Slice:
			fr.env[x] = e.slice(fr, st, x)
		case *ssa.SliceToArrayPointer:
			fr.env[x] = e.val(fr, x.X)
		case *ssa.Extract:
			t := e.val(fr, x.Tuple)
			if t.Op == OTuple {
				fr.env[x] = t.A[x.Index]
			} else {
				fr.env[x] = mk(ORes, strconv.Itoa(x.Index), 0, nil, nil, nil, x.Type(), t)
			}
		case *ssa.TypeAssert:
			i, x := i, x
			e.typeAssert(fr, st, x, func(fr *Frame, st *State, v *Term) {
				fr.env[x] = v
				e.instrs(fr, st, b, i+1)
			})
			return
		case *ssa.Call:
			i, x := i, x
			e.call(fr, st, x.Common(), x.Pos(), x.Type(), func(fr *Frame, st *State, v *Term) {
				fr.env[x] = v
				e.instrs(fr, st, b, i+1)
			})
			return
		case *ssa.Go:
			fn, args := e.callee(fr, x.Common())
			st.emit(&Event{Kind: "go", Name: calleeName(fn), Args: e.views(st, args), Raw: args, Res: fn, St: st.clone(), Pos: x.Pos(), Fn: fr.fn})
		case *ssa.Defer:
			fn, args := e.callee(fr, x.Common())
			fr.defers = append(fr.defers, deferred{x.Common(), args, fn, x.Pos()})
			e.recovered(fr, st, fn, x.Pos())
		case *ssa.RunDefers:
			i := i
			e.runDefers(fr, st, func(fr *Frame, st *State) { e.instrs(fr, st, b, i+1) })
			return
		case *ssa.Send:
			st.emit(&Event{Kind: "send", Args: e.views(st, []*Term{e.val(fr, x.Chan), e.val(fr, x.X)}), Pos: x.Pos(), Fn: fr.fn})
		case *ssa.Store:
			e.store(fr, st, e.val(fr, x.Addr), e.val(fr, x.Val), x.Val.Type(), x.Pos())
		case *ssa.If:
			c := e.val(fr, x.Cond)
			e.branch(fr, st, c, func(fr *Frame, st *State, v bool) {
				if v {
					e.jump(fr, st, b.Succs[0], b)
				} else {
					e.jump(fr, st, b.Succs[1], b)
				}
			})
			return
		case *ssa.Jump:
			e.jump(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			e.paths++
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, e.val(fr, r))
			}
			fr.k(st, rets)
			return
		case *ssa.Panic:
			st.emit(&Event{Kind: "panic", Args: e.views(st, []*Term{e.val(fr, x.X)}), Pos: x.Pos(), Fn: fr.fn})
			if true {
				e.doPanic(st)
			}
			return
		default:
			e.fail("instruction %T not supported (%s)", x, fname(fr.fn))
		}
	}
}

// ---- branching ----

func (e *Eng) branch(fr *Frame, st *State, c *Term, k func(*Frame, *State, bool)) {
	c = e.simplify(st, c)
	if v, ok := st.decide(c); ok {
		k(fr, st, v)
		return
	}
	// boolean equality over two terms of bool type, has() over updated maps
	if c.Op == ONot {
		e.branch(fr, st, c.A[0], func(fr *Frame, st *State, v bool) { k(fr, st, !v) })
		return
	}
	if c.Op == OHas {
		e.hasBranch(fr, st, c.A[0], c.A[1], k)
		return
	}
	e.hoist(st, c)
	e.budget -= 5
	fr2, st2 := fr.clone(), st.clone()
	if st.assume(c, true) {
		k(fr, st, true)
	}
	if st2.assume(c, false) {
		k(fr2, st2, false)
	}
}

// fieldwise: the comparisons of fields that a comparison of structs amounts to.
func (e *Eng) fieldwise(fr *Frame, x *ssa.BinOp) (qs []*Term) {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return nil
	}
	if _, ok := x.X.Type().Underlying().(*types.Struct); !ok {
		return nil
	}
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	if a.Op != OStruct || b.Op != OStruct || len(a.A) != len(b.A) || strings.Join(a.Names, ",") != strings.Join(b.Names, ",") {
		return nil
	}
	for i := range a.A {
		q := mkEq(a.A[i], b.A[i])
		if q == tFalse {
			return nil
		}
		if q != tTrue {
			qs = append(qs, q)
		}
	}
	return qs
}

func (e *Eng) allOf(fr *Frame, st *State, qs []*Term, k func(*Frame, *State, bool)) {
	if len(qs) == 0 {
		k(fr, st, true)
		return
	}
	e.branch(fr, st, qs[0], func(fr *Frame, st *State, v bool) {
		if !v {
			k(fr, st, false)
			return
		}
		e.allOf(fr, st, qs[1:], k)
	})
}

// hoist moves a test that does not depend on the iteration of an active loop
// in front of that loop, so that all of its iterations agree on it.
func (e *Eng) hoist(st *State, c *Term) {
	for _, lr := range e.stack {
		if !lr.probing && lr.invariant(c) {
			panic(hoistReq{lr, c})
		}
	}
}

type hoistReq struct {
	lr *loopRun
	c  *Term
}

func (e *Eng) hasBranch(fr *Frame, st *State, m, key *Term, k func(*Frame, *State, bool)) {
	switch {
	case m == tEmptyMap:
		k(fr, st, false)
		return
	case ownKey(m, key):
		k(fr, st, true)
		return
	case m.Op == OBin && m.S == "mapupd":
		e.branch(fr, st, mkEq(m.A[1], key), func(fr *Frame, st *State, v bool) {
			if v {
				k(fr, st, true)
			} else {
				e.hasBranch(fr, st, m.A[0], key, k)
			}
		})
		return
	case m.Op == OBin && m.S == "mapdel":
		e.branch(fr, st, mkEq(m.A[1], key), func(fr *Frame, st *State, v bool) {
			if v {
				k(fr, st, false)
			} else {
				e.hasBranch(fr, st, m.A[0], key, k)
			}
		})
		return
	}
	c := mkHas(m, key)
	if v, ok := st.decide(c); ok {
		k(fr, st, v)
		return
	}
	e.hoist(st, c)
	e.budget -= 5
	fr2, st2 := fr.clone(), st.clone()
	st.assume(c, true)
	k(fr, st, true)
	st2.assume(c, false)
	k(fr2, st2, false)
}

// ownKey: key is a key of the map m itself, of which nothing else was changed
// since (finish checks that the loop changes no other entries).
func ownKey(m, key *Term) bool {
	if key.Op != OKey {
		return false
	}
	if key.A[0] == m {
		return true
	}
	if m.Op == OMix && m.A[1].Op == OColl && m.A[1].L == key.L && (m.A[0] == key.A[0] || m.A[0].Op == OIndex && m.A[0].A[0] == key.A[0]) {
		if key.L.own == nil {
			key.L.own = map[string]bool{}
		}
		key.L.own[m.A[1].S] = true
		return true
	}
	return false
}

var tEmptyMap = mk(OConst, "{}", 0, nil, nil, nil, nil)

func mkHas(m, key *Term) *Term {
	return mk(OHas, "", 0, nil, nil, nil, types.Typ[types.Bool], m, key)
}
func mkMapUpd(m, k, v *Term) *Term { return mk(OBin, "mapupd", 0, nil, nil, nil, nil, m, k, v) }
func mkMapDel(st *State, m, k *Term) *Term {
	if m.Op == OBin && m.S == "mapupd" && m.A[1] == k {
		if v, ok := st.decide(mkHas(m.A[0], k)); ok && !v || m.A[0] == tEmptyMap {
			return m.A[0]
		}
		return mkMapDel(st, m.A[0], k)
	}
	if m == tEmptyMap {
		return m
	}
	return mk(OBin, "mapdel", 0, nil, nil, nil, nil, m, k)
}

// simplify rewrites a condition using what is known in the state.
func (e *Eng) simplify(st *State, c *Term) *Term {
	if c.Op == ONot {
		return mkNot(e.simplify(st, c.A[0]))
	}
	if c.Op == OBin && c.S == "==" {
		a, b := e.resolve(st, c.A[0]), e.resolve(st, c.A[1])
		return mkEq(a, b)
	}
	if c.Op == OBin && c.S == "<" {
		return mkLt(e.resolve(st, c.A[0]), e.resolve(st, c.A[1]))
	}
	return c
}

func (e *Eng) resolve(st *State, t *Term) *Term {
	if v, ok := st.eq[t]; ok {
		return v
	}
	return t
}

func isEqConst(c *Term) bool { return c.Op == OBin && c.S == "==" && isConst(c.A[1]) }

// decide tells whether a condition is already determined by the state.
func (s *State) decide(c *Term) (bool, bool) {
	switch c {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	if c.Op == ONot {
		v, ok := s.decide(c.A[0])
		return !v, ok
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	if isEqConst(c) {
		a, k := c.A[0], c.A[1]
		if v, ok := s.eq[a]; ok {
			return v == k, true
		}
		if k == tNil {
			if s.nonNil(a) {
				return false, true
			}
		}
		if z, ok := s.zeroOf(a); ok && isConst(z) {
			return z == k, true
		}
		if a.Op == OLen && k.S == "0" {
			if s.nonEmpty(a.A[0]) {
				return false, true
			}
		}
	}
	if c.Op == OBin && c.S == "==" && !isConst(c.A[1]) {
		x, ok1 := s.eq[c.A[0]]
		y, ok2 := s.eq[c.A[1]]
		if ok1 && ok2 {
			return x == y, true
		}
		if ok1 {
			return s.decide(mkEq(c.A[1], x))
		}
		if ok2 {
			return s.decide(mkEq(c.A[0], y))
		}
	}
	if c.Op == OIs {
		x := c.A[0]
		if t, ok := s.typ[x]; ok {
			return t == c.S, true
		}
		if z, ok := s.zeroOf(x); ok && z == tNil {
			return false, true
		}
		if v, ok := s.facts[mkEq(x, tNil)]; ok && v {
			return false, true
		}
	}
	return false, false
}

// nonEmpty: a concatenation with a literal part is not empty.
func (s *State) nonEmpty(t *Term) bool {
	if t.Op == OCat {
		for _, x := range t.A {
			if x.Op == OLit && len(x.A) > 0 {
				return true
			}
		}
	}
	return false
}

func (s *State) nonNil(t *Term) bool {
	if nonNilTerm(t) {
		return true
	}
	if v, ok := s.facts[mkEq(t, tNil)]; ok && !v {
		return true
	}
	if _, ok := s.typ[t]; ok {
		return true
	}
	switch t.Op {
	case OElem: // elements of repeated message fields are always set
		return isPtr(t.T)
	case OIndex:
		return isPtr(t.T)
	case OFld: // the message inside a oneof wrapper is always set
		if t.A[0].Op == OTa && isPtr(t.T) {
			return true
		}
	case OIn:
		return strings.HasPrefix(t.S, "!")
	case OTa:
		return true
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// zeroOf: reading through a nil message yields zero values.
func (s *State) zeroOf(t *Term) (*Term, bool) {
	if t.Op == OFld {
		if v, ok := s.facts[mkEq(t.A[0], tNil)]; ok && v {
			if t.T != nil {
				return zero(t.T), true
			}
		}
		if z, ok := s.zeroOf(t.A[0]); ok && z == tNil && t.T != nil {
			return zero(t.T), true
		}
	}
	if v, ok := s.facts[mkEq(t, tNil)]; ok && v {
		return tNil, true
	}
	return nil, false
}

// assume adds a fact; false means it contradicts the state.
func (s *State) assume(c *Term, v bool) bool {
	if c.Op == ONot {
		return s.assume(c.A[0], !v)
	}
	if d, ok := s.decide(c); ok {
		if _, have := s.facts[c]; !have && !isConst(c) {
			s.facts[c] = v
		}
		return d == v
	}
	s.facts[c] = v
	if isEqConst(c) {
		if v {
			s.eq[c.A[0]] = c.A[1]
			if c.A[1] != tNil && c.A[1] != tFalse && c.A[1].S != "0" && c.A[1].S != `""` {
				s.through(c.A[0])
			}
		} else if c.A[1] == tNil || c.A[1] == tFalse || c.A[1].S == "0" || c.A[1].S == `""` {
			s.through(c.A[0])
		}
	}
	if c.Op == OIs && v {
		s.typ[c.A[0]] = c.S
		s.facts[mkEq(c.A[0], tNil)] = false
		s.through(c.A[0])
	}
	return true
}

// through: a non-zero field can only be read from a message that is there.
func (s *State) through(t *Term) {
	for {
		if t.Op == OLen || t.Op == OConv {
			t = t.A[0]
			continue
		}
		if t.Op != OFld {
			return
		}
		t = t.A[0]
		if t.Op == OTa {
			t = t.A[0]
			continue
		}
		if !nonNilTerm(t) && isPtr(t.T) {
			q := mkEq(t, tNil)
			if !isConst(q) {
				s.facts[q] = false
			}
		}
	}
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID }) }
