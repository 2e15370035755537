package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is one abstracted loop: a generic iteration over Domain.
type Loop struct {
	ID     int
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
	Domain *Term
	Kind   string // "", map, string
	cases  []*Case
	exits  []*exitInfo
	init   map[string]*Term // values of its variables (OLv) before the loop (viewed)
	own    map[string]bool  // maps whose entries are read under the loop's own key
}

func (l *Loop) name() string { return fmt.Sprintf("%d", l.ID) }

// Case is one way a complete iteration can go.
type Case struct {
	From, To int
	Facts    map[*Term]bool
	Evs      []*Event
	Raw      map[string][]*Term // values appended / stored, by accumulator
	Items    map[string][]*Term // the same, viewed
	Keys     map[string][]*Term // keys or indices they are stored under (viewed)
	Dels     map[string][]*Term // keys removed
	Heap     map[*Term]map[string]*Term
	St       *State
	Next     map[string]*Term // values of the loop's other variables after the iteration (viewed)
	Vals     []*Term          // values of the loop's exact slots after the iteration
}

type exitInfo struct {
	state     int
	All       []*Case
	Must      [][]*Case
	Exhausted bool
}

// LoopEv is the trace of a loop in the events of a path that went through it.
type LoopEv struct {
	L         *Loop
	Domain    *Term
	All       []*Case   // every iteration is one of these
	Must      [][]*Case // for each group, some iteration is one of these
	Exhausted bool      // every element of the domain was visited
	State     int
}

type slotClass int

const (
	cExact slotClass = iota
	cIdx
	cRev
	cSum
	cColl
	cUpd
	cMap
	cLv
)

type slot struct {
	key   string
	phi   *ssa.Phi
	base  *Term
	path  string
	class slotClass
	init  *Term
	ty    types.Type
	seen  map[*Term]bool
}

type exit struct {
	fr        *Frame
	st        *State
	target    *ssa.BasicBlock
	prev      *ssa.BasicBlock
	state     int
	exhausted bool
}

type loopRun struct {
	e       *Eng
	L       *Loop
	fr0     *Frame
	st0     *State
	start   int
	slots   []*slot
	states  [][]*Term // values of every slot (exact ones are state, others tokens)
	sig     map[string]int
	work    []int
	cur     int
	curHeap map[*Term]map[string]*Term
	cases   []*Case
	exits   []*exit
	panics  []*State
	changed bool
	probing bool // still finding out which variables change how
}

type loopBlocks struct {
	blocks map[*ssa.BasicBlock]bool
}

func (e *Eng) enterLoop(fr *Frame, st *State, b, prev *ssa.BasicBlock, lb *loopBlocks) {
	if !lb.blocks[prev] {
		fr.unroll[b] = 0
	}
	if fr.unroll[b] < 40 && e.concrete(fr, st, b, prev) {
		fr.unroll[b]++
		e.phis(fr, st, b, prev)
		e.instrs(fr, st, b, 0)
		return
	}
	if lb.blocks[prev] && fr.unroll[b] > 0 && fr.unroll[b] >= 40 {
		e.fail("loop unrolled too often in %s", fname(fr.fn))
	}
	if e.cfg.Peel && !lb.blocks[prev] && len(e.stack) > 0 && !strings.HasPrefix(b.Comment, "range") {
		e.phis(fr, st, b, prev)
		e.instrs(fr, st, b, 0)
		return
	}
	e.abstractLoop(fr, st, b, prev, lb, nil)
}

// concrete tells whether the loop condition is a constant on this visit.
func (e *Eng) concrete(fr *Frame, st *State, b, prev *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	f2, s2 := fr.clone(), st.clone()
	e.phis(f2, s2, b, prev)
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			f2.env[x] = e.binop(f2, s2, x)
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return false
			}
			base, path := splitAddr(e.val(f2, x.X))
			if base.Op == OAddr {
				return false
			}
			f2.env[x] = e.cell(s2, base, path, x.Type())
		case *ssa.FieldAddr:
			st0 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			f2.env[x] = addrOf(e.val(f2, x.X), "."+st0.Field(x.Field).Name(), x.Type())
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			f2.env[x] = mkLen(e.content(s2, e.val(f2, x.Call.Args[0])))
		case *ssa.Next:
			t := nextRune(e.val(f2, x.Iter), x, fr.unroll[b])
			if t == nil {
				return false
			}
			f2.env[x] = t
		case *ssa.Extract:
			t := f2.env[x.Tuple]
			if t == nil || t.Op != OTuple {
				return false
			}
			f2.env[x] = t.A[x.Index]
		case *ssa.If:
		default:
			return false
		}
	}
	if b, ok := iff.Cond.(*ssa.BinOp); !ok {
		if _, ok := iff.Cond.(*ssa.Extract); !ok {
			return false
		}
	} else if t, ok := b.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return false // flags do not bound the number of iterations
	}
	c := e.val(f2, iff.Cond)
	return c == tTrue || c == tFalse
}

// nextRune is the i-th step of a range over a constant string.
func nextRune(it *Term, x *ssa.Next, i int) *Term {
	if !x.IsString || len(it.A) == 0 {
		return nil
	}
	s, ok := it.A[0].strVal()
	if !ok {
		return nil
	}
	for j, r := range s {
		if i == 0 {
			return mk(OTuple, "", 0, nil, nil, nil, nil, tTrue, cInt(int64(j)), cInt(int64(r)))
		}
		i--
	}
	return mk(OTuple, "", 0, nil, nil, nil, nil, tFalse, cInt(0), cInt(0))
}

func (e *Eng) abstractLoop(fr *Frame, st *State, b, prev *ssa.BasicBlock, lb *loopBlocks, hoisted []*Term) {
	if len(hoisted) > 12 {
		e.fail("too many loop-invariant tests in %s", fname(fr.fn))
	}
	classes := map[string]*slot{}
	var lr *loopRun
	probing := true
	for attempt := 0; ; attempt++ {
		if attempt > 25 {
			e.fail("loop in %s does not stabilise", fname(fr.fn))
		}
		e.nloops++
		e.P.loopSeq++
		L := &Loop{ID: e.P.loopSeq, header: b, blocks: lb.blocks, fn: fr.fn}
		lr = &loopRun{e: e, L: L, fr0: fr.clone(), st0: st.clone(), start: e.P.inst, sig: map[string]int{}, probing: probing}
		h := lr.explore(b, prev, classes)
		if h != nil {
			e.branch(fr, st, h, func(fr *Frame, st *State, _ bool) {
				e.abstractLoop(fr.clone(), st, b, prev, lb, append(append([]*Term{}, hoisted...), h))
			})
			return
		}
		if !lr.changed {
			if probing {
				probing = false
				continue
			}
			break
		}
	}
	lr.finish()
}

func (lr *loopRun) explore(b, prev *ssa.BasicBlock, classes map[string]*slot) (h *Term) {
	e := lr.e
	n := len(e.stack)
	defer func() {
		e.stack = e.stack[:n]
		if r := recover(); r != nil {
			if hr, ok := r.(hoistReq); ok && hr.lr == lr {
				h = hr.c
				return
			}
			panic(r)
		}
	}()
	// slots: phis, then the memory cells known to change
	idx := edgeIndex(b, prev)
	for i, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		key := fmt.Sprintf("%d:%s", i, p.Comment)
		s := classes[key]
		if s == nil {
			s = &slot{key: key, phi: p, ty: p.Type(), seen: map[*Term]bool{}, class: stepClass(p, lr.L.blocks)}
			classes[key] = s
		}
		s.init = e.val(lr.fr0, p.Edges[idx])
		if c := e.content(lr.st0, s.init); c != s.init && c.Op == OLit && len(c.A) == 0 {
			s.init = c // nothing that could be shared
		}
		lr.slots = append(lr.slots, s)
	}
	var keys []string
	for k, s := range classes {
		if s.phi == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := classes[k]
		s.init = e.cell(lr.st0, s.base, s.path, s.ty)
		lr.slots = append(lr.slots, s)
	}
	var vals []*Term
	for _, s := range lr.slots {
		vals = append(vals, lr.token(s))
	}
	e.stack = append(e.stack, lr)
	lr.stateOf(vals)
	for len(lr.work) > 0 && !lr.changed {
		i := lr.work[0]
		lr.work = lr.work[1:]
		lr.cur = i
		fr, st := lr.fr0.clone(), lr.st0.clone()
		fr.loops = append(fr.loops, lr)
		for j, s := range lr.slots {
			if s.phi != nil {
				fr.env[s.phi] = lr.states[i][j]
			} else {
				if st.heap[s.base] == nil {
					st.heap[s.base] = map[string]*Term{}
				}
				st.heap[s.base][s.path] = lr.states[i][j]
			}
		}
		lr.curHeap = st.clone().heap
		st.ev = nil
		e.instrs(fr, st, b, 0)
	}
	if lr.changed {
		// remember newly discovered cells
		for _, s := range lr.slots {
			classes[s.key] = s
		}
	}
	return nil
}

// stepClass: a variable that every iteration increments (or decrements) by one.
func stepClass(p *ssa.Phi, in map[*ssa.BasicBlock]bool) slotClass {
	c := cExact
	for i, pred := range p.Block().Preds {
		if !in[pred] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return cExact
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return cExact
		}
		n := cExact
		switch b.Op.String() {
		case "+":
			n = cIdx
		case "-":
			n = cRev
		}
		if n == cExact || c != cExact && c != n {
			return cExact
		}
		c = n
	}
	return c
}

func (lr *loopRun) token(s *slot) *Term {
	L := lr.L
	coll := mk(OColl, s.key, 0, L, nil, nil, s.ty)
	switch s.class {
	case cExact:
		return s.init
	case cIdx:
		return mkAdd(mk(OIdx, "", 0, L, nil, nil, types.Typ[types.Int]), s.init)
	case cRev:
		return mk(OBin, "rev", 0, nil, nil, nil, types.Typ[types.Int], s.init, mk(OIdx, "", 0, L, nil, nil, types.Typ[types.Int]))
	case cSum:
		return mkAdd(coll, s.init)
	case cColl:
		return mkCat(s.init, coll)
	case cUpd, cMap:
		return mk(OMix, "", 0, nil, nil, nil, s.ty, s.init, coll)
	}
	return mk(OLv, s.key, 0, L, nil, nil, s.ty)
}

func (lr *loopRun) stateOf(vals []*Term) int {
	var b strings.Builder
	for i, s := range lr.slots {
		if s.class == cExact {
			fmt.Fprintf(&b, "%d,", vals[i].ID)
		}
	}
	k := b.String()
	if i, ok := lr.sig[k]; ok {
		return i
	}
	if len(lr.states) > 24 {
		lr.e.fail("loop in %s has too many states", fname(lr.L.fn))
	}
	i := len(lr.states)
	lr.sig[k] = i
	full := make([]*Term, len(vals))
	for j, s := range lr.slots {
		if s.class == cExact {
			full[j] = vals[j]
		} else {
			full[j] = lr.token(s)
		}
	}
	lr.states = append(lr.states, full)
	lr.work = append(lr.work, i)
	return i
}

func (lr *loopRun) variant(t *Term) bool {
	return t.has(func(x *Term) bool {
		if x.L != nil && x.L.ID >= lr.L.ID {
			return true
		}
		switch x.Op {
		case OElem, OKey, OVal, OIdx: // of an ended loop whose results are visited
			if !lr.st0.bound[x.L] && !lr.active(x.L) {
				return true
			}
		}
		return x.Inst > lr.start && (x.Op == OCall || x.Op == OObj || x.Op == OMk)
	})
}
func (lr *loopRun) active(l *Loop) bool {
	for _, r := range lr.e.stack {
		if r.L == l {
			return true
		}
	}
	return false
}

func (lr *loopRun) invariant(t *Term) bool { return !lr.variant(t) }

func constLike(t *Term) bool {
	switch t.Op {
	case OConst, OZero, OGlob:
		return true
	case OClosure:
		return len(t.A) == 0
	case OIface:
		return constLike(t.A[0])
	case OLit:
		return len(t.A) == 0
	}
	return false
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func segs(t *Term) []*Term {
	switch t.Op {
	case OCat:
		return t.A
	case OConst:
		if t.isNil() {
			return nil
		}
	case OLit:
		if len(t.A) == 0 {
			return nil
		}
	}
	return []*Term{t}
}

// appended: v is cur followed by items
func appended(cur, v *Term) ([]*Term, bool) {
	a, b := segs(cur), segs(v)
	if len(b) < len(a) {
		return nil, false
	}
	var extra []*Term
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		// the last literal of cur was extended
		if i == len(a)-1 && a[i].Op == OLit && b[i].Op == OLit && len(b[i].A) > len(a[i].A) {
			for j := range a[i].A {
				if a[i].A[j] != b[i].A[j] {
					return nil, false
				}
			}
			extra = append(extra, b[i].A[len(a[i].A):]...)
			continue
		}
		return nil, false
	}
	for _, s := range b[len(a):] {
		if s.Op == OLit {
			extra = append(extra, s.A...)
		} else {
			extra = append(extra, mk(OBin, "spread", 0, nil, nil, nil, nil, s))
		}
	}
	return extra, true
}

// onBack is called when an iteration has completed.
func (lr *loopRun) onBack(fr *Frame, st *State, prev *ssa.BasicBlock) {
	if lr.changed {
		return
	}
	e := lr.e
	idx := edgeIndex(lr.L.header, prev)
	for _, s := range lr.slots { // booleans are split into their two values
		if s.phi == nil {
			continue
		}
		v := e.val(fr, s.phi.Edges[idx])
		if isBool(s.ty) && !isConst(v) && s.class == cExact {
			if _, isConstEdge := s.phi.Edges[idx].(*ssa.Const); !isConstEdge {
				edge := s.phi.Edges[idx]
				e.branch(fr, st, v, func(fr *Frame, st *State, b bool) {
					fr.env[edge] = cBool(b)
					lr.onBack(fr, st, prev)
				})
				return
			}
		}
	}
	cs := &Case{From: lr.cur, Facts: map[*Term]bool{}, Raw: map[string][]*Term{}, Items: map[string][]*Term{}, Keys: map[string][]*Term{}, Dels: map[string][]*Term{}, Heap: map[*Term]map[string]*Term{}, St: st}
	for f, v := range st.facts {
		if _, ok := lr.st0.facts[f]; !ok {
			cs.Facts[f] = v
		}
	}
	lr.cond(cs.Facts)
	cs.Evs = st.ev.slice()
	vals := make([]*Term, len(lr.slots))
	known := map[string]bool{}
	for i, s := range lr.slots {
		var v *Term
		if s.phi != nil {
			v = e.val(fr, s.phi.Edges[idx])
		} else {
			v = e.cell(st, s.base, s.path, s.ty)
			known[fmt.Sprintf("%d%s", s.base.ID, s.path)] = true
		}
		vals[i] = v
		lr.classify(s, lr.states[lr.cur][i], v, st, cs)
	}
	// memory that changed
	for b, cells := range st.heap {
		if b.Op == OObj && b.Inst > lr.start {
			if lr.curHeap[b] == nil {
				cs.Heap[b] = cp(cells)
				continue
			}
		}
		if w, ok := st.imp[b]; ok && lr.curHeap[b] == nil && sameCells(w, cells) {
			cs.Heap[b] = cp(cells)
			continue
		}
		if lr.variant(b) {
			continue
		}
		hc := lr.curHeap[b]
		ps := map[string]bool{}
		for p := range cells {
			ps[p] = true
		}
		for p := range hc {
			ps[p] = true
		}
		for p := range ps {
			if known[fmt.Sprintf("%d%s", b.ID, p)] {
				continue
			}
			if v, ok := hc[p]; ok && v == cells[p] {
				continue // if parts of it changed, they are among the cells
			}
			old := &State{heap: lr.curHeap}
			var ty types.Type
			if v, ok := cells[p]; ok {
				ty = v.T
			}
			if t := cellType(b.T, p); t != nil {
				ty = t
			}
			ov, nv := e.cell(old, b, p, ty), e.cell(st, b, p, ty)
			if p == "#" {
				ov = hc["#"]
				if ov == nil {
					if b.Op == OObj {
						continue
					}
					ov = b
				}
			}
			if ov == nv {
				continue
			}
			ns := &slot{key: fmt.Sprintf("m%d%s", b.ID, p), base: b, path: p, ty: ty, init: ov, seen: map[*Term]bool{}}
			lr.guess(ns, ov, nv)
			lr.slots = append(lr.slots, ns)
			lr.changed = true
		}
	}
	if lr.changed {
		return
	}
	cs.Vals = vals
	cs.Next = map[string]*Term{}
	if lr.L.init == nil {
		lr.L.init = map[string]*Term{}
	}
	for i, s := range lr.slots {
		if t := lr.token(s); t.Op == OLv {
			cs.Next[s.key] = e.view(st, vals[i])
			lr.L.init[s.key] = e.view(lr.st0, s.init)
		}
	}
	cs.To = lr.stateOf(vals)
	lr.cases = append(lr.cases, cs)
}

func (lr *loopRun) guess(s *slot, cur, v *Term) {
	if constLike(cur) && constLike(v) && cur != tEmptyMap {
		s.class = cExact
		return
	}
	if v == mkAdd(cur, cInt(1)) && v != cur && s.ty != nil && !isString(s.ty) {
		s.class = cIdx
		return
	}
	if v == mkAdd(cur, cInt(-1)) && v != cur && s.ty != nil && !isString(s.ty) {
		s.class = cRev
		return
	}
	if items, ok := appended(cur, v); ok && len(items) > 0 && (v.Op == OLit || v.Op == OCat) {
		s.class = cColl
		return
	}
	if _, _, _, ok := mapChain(cur, v); ok {
		s.class = cMap
		return
	}
	if _, _, ok := updChain(cur, v); ok {
		s.class = cUpd
		return
	}
	s.class = cLv
}

func mapChain(cur, v *Term) (keys, vals, dels []*Term, ok bool) {
	for v != cur {
		if v.Op != OBin {
			return nil, nil, nil, false
		}
		switch v.S {
		case "mapupd":
			keys = append(keys, v.A[1])
			vals = append(vals, v.A[2])
		case "mapdel":
			dels = append(dels, v.A[1])
		default:
			return nil, nil, nil, false
		}
		v = v.A[0]
	}
	return keys, vals, dels, true
}

func updChain(cur, v *Term) (idx, vals []*Term, ok bool) {
	for v != cur {
		if v.Op != OUpd {
			return nil, nil, false
		}
		idx = append(idx, v.A[1])
		vals = append(vals, v.A[2])
		v = v.A[0]
	}
	return idx, vals, true
}

func (lr *loopRun) classify(s *slot, cur, v *Term, st *State, cs *Case) {
	e := lr.e
	widen := func(c slotClass) { s.class = c; lr.changed = true }
	switch s.class {
	case cExact:
		if v == cur {
			return
		}
		if constLike(cur) && constLike(v) && cur != tEmptyMap {
			s.seen[v] = true
			if len(s.seen) > 6 {
				// a counter with constant start
				if a, ok := cur.intVal(); ok {
					if b, ok := v.intVal(); ok && (b == a+1 || b == a-1) {
						widen(cIdx)
						if b == a-1 {
							s.class = cRev
						}
						return
					}
				}
				widen(cLv)
				return
			}
			if a, ok := cur.intVal(); ok {
				if b, ok := v.intVal(); ok {
					if !isEnum(s.ty) {
						if b == a+1 {
							widen(cIdx)
							return
						} else if b == a-1 {
							widen(cRev)
							return
						}
					}
				}
			}
			return
		}
		old := s.class
		lr.guess(s, cur, v)
		if s.class == old {
			s.class = cLv
		}
		lr.changed = true
	case cIdx:
		if v != mkAdd(cur, cInt(1)) {
			if _, ok := lr.delta(cur, v); ok || v == cur {
				widen(cSum)
			} else {
				widen(cLv)
			}
		}
	case cRev:
		if v != mkAdd(cur, cInt(-1)) {
			widen(cLv)
		}
	case cSum:
		if v == cur {
			return
		}
		d, ok := lr.delta(cur, v)
		if !ok {
			widen(cLv)
			return
		}
		cs.Raw[s.key] = append(cs.Raw[s.key], d)
		cs.Items[s.key] = append(cs.Items[s.key], d)
	case cColl:
		items, ok := appended(cur, v)
		if !ok {
			widen(cLv)
			return
		}
		for _, it := range items {
			cs.Raw[s.key] = append(cs.Raw[s.key], it)
			cs.Items[s.key] = append(cs.Items[s.key], e.view(st, it))
		}
	case cUpd:
		is, vs, ok := updChain(cur, v)
		if !ok {
			widen(cLv)
			return
		}
		for i := range is {
			cs.Raw[s.key] = append(cs.Raw[s.key], vs[i])
			cs.Items[s.key] = append(cs.Items[s.key], e.view(st, vs[i]))
			cs.Keys[s.key] = append(cs.Keys[s.key], is[i])
		}
	case cMap:
		ks, vs, ds, ok := mapChain(cur, v)
		if !ok {
			widen(cLv)
			return
		}
		for i := range ks {
			cs.Raw[s.key] = append(cs.Raw[s.key], vs[i])
			cs.Items[s.key] = append(cs.Items[s.key], e.view(st, vs[i]))
			cs.Keys[s.key] = append(cs.Keys[s.key], e.view(st, ks[i]))
		}
		for _, d := range ds {
			cs.Dels[s.key] = append(cs.Dels[s.key], e.view(st, d))
		}
	}
}

func isEnum(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil
}

func (lr *loopRun) delta(cur, v *Term) (*Term, bool) {
	for d := int64(-3); d <= 3; d++ {
		if v == mkAdd(cur, cInt(d)) {
			return cInt(d), true
		}
	}
	if v.Op == OBin && v.S == "+" {
		if v.A[0] == cur {
			return v.A[1], true
		}
		if v.A[1] == cur {
			return v.A[0], true
		}
	}
	return nil, false
}

// cond recognises the loop condition among facts, removes it and tells
// whether it says that the domain is exhausted.
func (lr *loopRun) cond(facts map[*Term]bool) (exhausted bool) {
	L := lr.L
	var fs []*Term
	for f := range facts {
		fs = append(fs, f)
	}
	sortTerms(fs)
	for _, f := range fs {
		v := facts[f]
		if f.Op != OBin {
			continue
		}
		if f.S == "more" && f.L == L {
			delete(facts, f)
			if !v {
				exhausted = true
			}
			continue
		}
		if f.S != "<" {
			continue
		}
		if d, n, ok := lr.overLen(f); ok {
			if n > 0 {
				d = mkSlice(d, cInt(n), tNil)
			}
			if L.Domain == nil || L.Domain == d {
				L.Domain = d
				delete(facts, f)
				if !v {
					exhausted = true
				}
			}
			continue
		}
		// counting down
		if f.A[0].Op == OBin && f.A[0].S == "rev" && f.A[0].A[1].L == L && f.A[1].S == "0" && isConst(f.A[1]) {
			in := f.A[0].A[0]
			if in.Op == OBin && in.S == "+" && in.A[1].S == "-1" && in.A[0].Op == OLen {
				L.Domain = in.A[0].A[0]
				delete(facts, f)
				if v {
					exhausted = true
				}
			}
		}
	}
	return
}

// overLen: i+n < len(s)
func (lr *loopRun) overLen(f *Term) (*Term, int64, bool) {
	i, n := f.A[0], int64(0)
	if i.Op == OBin && i.S == "+" {
		v, ok := i.A[1].intVal()
		if !ok {
			return nil, 0, false
		}
		n, i = v, i.A[0]
	}
	if i.Op != OIdx || i.L != lr.L || n < 0 {
		return nil, 0, false
	}
	if f.A[1].Op == OLen && lr.invariant(f.A[1]) {
		return f.A[1].A[0], n, true
	}
	if lr.invariant(f.A[1]) && n == 0 {
		return mk(OBin, "upto", 0, nil, nil, nil, nil, f.A[1]), 0, true
	}
	return nil, 0, false
}

func (lr *loopRun) onExit(fr *Frame, st *State, target, prev *ssa.BasicBlock) {
	if lr.changed {
		return
	}
	nf := map[*Term]bool{}
	for f, v := range st.facts {
		if _, ok := lr.st0.facts[f]; !ok {
			nf[f] = v
			delete(st.facts, f)
		}
	}
	ex := lr.cond(nf)
	for f, v := range nf {
		st.facts[f] = v
	}
	lr.exits = append(lr.exits, &exit{fr, st, target, prev, lr.cur, ex})
}

func (lr *loopRun) finish() {
	e, L := lr.e, lr.L
	L.cases = lr.cases
	if L.cases == nil {
		L.cases = []*Case{}
	}
	for k := range L.own {
		for _, cs := range L.cases {
			for _, ks := range [][]*Term{cs.Keys[k], cs.Dels[k]} {
				for _, t := range ks {
					if t.Op != OKey || t.L != L {
						e.fail("a loop over a map reads entries that it may have changed before in %s", fname(L.fn))
					}
				}
			}
		}
	}
	n := len(lr.states)
	reach := func(skip func(*Case) bool, from int) map[int]bool {
		seen := map[int]bool{from: true}
		w := []int{from}
		for len(w) > 0 {
			i := w[0]
			w = w[1:]
			for _, c := range lr.cases {
				if c.From == i && !seen[c.To] && (skip == nil || !skip(c)) {
					seen[c.To] = true
					w = append(w, c.To)
				}
			}
		}
		return seen
	}
	from0 := reach(nil, 0)
	hasColl := false
	for _, s := range lr.slots {
		if s.class == cColl || s.class == cUpd || s.class == cMap || s.class == cSum {
			hasColl = true
		}
	}
	for _, ps := range lr.panics {
		p2 := ps
		old := p2.ev.slice()
		p2.ev = lr.st0.ev
		p2.emit(&Event{Kind: "loop", Loop: &LoopEv{L: L, Domain: L.Domain, All: lr.cases}, Fn: L.fn, Pos: L.header.Instrs[0].Pos()})
		for _, ev := range old {
			p2.emit(ev)
		}
		e.doPanic(p2)
	}
	for i, x := range lr.exits {
		if !from0[x.state] {
			continue
		}
		toX := map[int]bool{}
		for s := 0; s < n; s++ {
			if reach(nil, s)[x.state] {
				toX[s] = true
			}
		}
		info := &exitInfo{state: x.state, Exhausted: x.exhausted}
		for _, c := range lr.cases {
			if from0[c.From] && toX[c.To] {
				info.All = append(info.All, c)
			}
		}
		if x.state != 0 {
			groups := map[[2]int][]*Case{}
			var order [][2]int
			for _, c := range info.All {
				if c.From != c.To {
					k := [2]int{c.From, c.To}
					if groups[k] == nil {
						order = append(order, k)
					}
					groups[k] = append(groups[k], c)
				}
			}
			for _, k := range order {
				k := k
				if !reach(func(c *Case) bool { return c.From == k[0] && c.To == k[1] }, 0)[x.state] {
					info.Must = append(info.Must, groups[k])
				}
			}
		}
		L.exits = append(L.exits, info)
		_ = i
		ev := &Event{Kind: "loop", Pos: loopPos(L), Fn: L.fn, Loop: &LoopEv{L: L, Domain: L.Domain, All: info.All, Must: info.Must, Exhausted: x.exhausted, State: x.state}}
		st := x.st
		own := st.ev.slice()
		st.ev = lr.st0.ev
		st.emit(ev)
		for _, o := range own {
			st.emit(o)
		}
		fr := x.fr
		fr.loops = append([]*loopRun(nil), lr.fr0.loops...)
		// values that depend on how the loop ended
		no := len(L.exits)
		f := func(t *Term) *Term {
			if t.L != L {
				if t.Op == OMix && len(t.A) == 2 && t.A[1].Op == OColl && t.A[1].L == L && x.exhausted {
					for _, s := range lr.slots {
						if s.class == cUpd && s.key == t.A[1].S && lr.fullMap(s, info) {
							return mk(OColl, s.key, no, L, nil, nil, t.T)
						}
					}
				}
				return nil
			}
			switch t.Op {
			case OColl:
				if t.Inst == 0 {
					return mk(OColl, t.S, no, L, nil, nil, t.T)
				}
			case OIdx:
				if x.exhausted && L.Domain != nil && L.Kind == "" {
					return mkLen(L.Domain)
				}
			}
			return nil
		}
		if hasColl || x.exhausted {
			for k, v := range fr.env {
				if v != nil {
					fr.env[k] = v.subst(f)
				}
			}
			for _, cells := range st.heap {
				for p, v := range cells {
					cells[p] = v.subst(f)
				}
			}
		}
		if !x.exhausted {
			st.bind(L)
		}
		if x.exhausted { // nothing is known about an element of a further iteration
			for k := range st.sub {
				if k.L == L {
					delete(st.sub, k)
				}
			}
		}
		e.jump(fr, st, x.target, x.prev)
	}
}

func loopPos(L *Loop) (p tokenPos) {
	for _, in := range L.header.Instrs {
		if in.Pos() > 0 {
			return in.Pos()
		}
	}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if in.Pos() > 0 && (p == 0 || in.Pos() < p) {
				p = in.Pos()
			}
		}
	}
	return p
}

// fullMap: every iteration stores exactly one value at its own index, and the
// slice has the length of the domain.
func (lr *loopRun) fullMap(s *slot, info *exitInfo) bool {
	if lr.L.Domain == nil || lr.L.Kind != "" || mkLen(s.init) != mkLen(lr.L.Domain) {
		return false
	}
	for _, c := range info.All {
		ks := c.Keys[s.key]
		if len(ks) != 1 || ks[0].Op != OIdx || ks[0].L != lr.L {
			return false
		}
	}
	return true
}

func (e *Eng) doPanic(st *State) {
	if n := len(e.stack); n > 0 {
		e.stack[n-1].panics = append(e.stack[n-1].panics, st)
		return
	}
	if e.P.panicSink != nil {
		e.P.panicSink(st)
	}
}

// collInfo yields the loop exit an accumulated value belongs to.
func collInfo(t *Term) *exitInfo {
	if t.Op != OColl || t.Inst == 0 || t.L == nil || t.Inst > len(t.L.exits) {
		return nil
	}
	return t.L.exits[t.Inst-1]
}

func sameCells(a, b map[string]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// cellType is the declared type of a field of an object.
func cellType(t types.Type, path string) types.Type {
	if t == nil || path == "" || path == "#" {
		return nil
	}
	t = derefType(t)
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var next types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				next = st.Field(i).Type()
			}
		}
		if next == nil {
			return nil
		}
		t = next
	}
	return t
}
