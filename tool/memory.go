package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// addrOf builds the address of path p below pointer (or slice) term b.
func addrOf(b *Term, p string, ty types.Type) *Term {
	if b.Op == OAddr && len(b.A) == 1 {
		return mk(OAddr, b.S+p, 0, nil, nil, nil, ty, b.A[0])
	}
	if b.Op == OAddr && len(b.A) == 2 {
		// below an element with a symbolic index
		return mk(OAddr, p, 0, nil, nil, nil, ty, b)
	}
	return mk(OAddr, p, 0, nil, nil, nil, ty, b)
}

func splitAddr(a *Term) (base *Term, path string) {
	if a.Op == OAddr && len(a.A) == 1 {
		return a.A[0], a.S
	}
	return a, ""
}

func tailPath(p string) (string, string) { // ".a.b" -> "a", ".b"
	i := strings.IndexAny(p[1:], ".[")
	if i < 0 {
		return p, ""
	}
	return p[:i+1], p[i+1:]
}

// project reads path p out of a value.
func (e *Eng) project(st *State, v *Term, p string, ty types.Type) *Term {
	for p != "" {
		h, t := tailPath(p)
		var hty types.Type
		if t == "" {
			hty = ty
		}
		if h[0] == '.' {
			v = mkFld(v, h[1:], hty)
		} else {
			n, _ := strconv.ParseInt(strings.Trim(h, "[]"), 10, 64)
			v = e.index(st, v, cInt(n), hty)
		}
		p = t
	}
	return v
}

// deref records a dereference of a pointer that might be nil.
func (e *Eng) deref(fr *Frame, st *State, p *Term, pos token.Pos) {
	b, _ := splitAddr(p)
	if b.Op == OAddr || b.Op == OObj || nonNilTerm(b) || st.nonNil(b) || strings.HasPrefix(b.S, "&") && b.Op == OGlob {
		return
	}
	if !isPtr(b.T) && b != tNil {
		return
	}
	if z, ok := st.zeroOf(b); ok && z == tNil || b == tNil {
		st.emit(&Event{Kind: "nilderef", Name: "certain", Args: e.views(st, []*Term{b}), Raw: []*Term{b}, Pos: pos, Fn: fr.fn})
		return
	}
	st.emit(&Event{Kind: "nilderef", Args: e.views(st, []*Term{b}), Raw: []*Term{b}, Pos: pos, Fn: fr.fn})
	st.facts[mkEq(b, tNil)] = false
}

func under(p, q string) bool { // q strictly below p
	return len(q) > len(p) && strings.HasPrefix(q, p) && (q[len(p)] == '.' || q[len(p)] == '[')
}

// cell reads base+path out of memory; it does not fork.
func (e *Eng) cell(st *State, base *Term, path string, ty types.Type) *Term {
	cells := st.heap[base]
	if c, ok := cells["#"]; ok {
		if _, isArr := arrayOf(base); isArr {
			return e.project(st, c, path, ty)
		}
	}
	if v, ok := cells[path]; ok {
		newer := false // a whole write removes the parts: those there are came later
		if ty != nil {
			for p := range cells {
				newer = newer || under(path, p)
			}
		}
		if !newer {
			return v
		}
	}
	// an ancestor was written as a whole
	best := ""
	var bv *Term
	for p, v := range cells {
		if under(p, path) && (bv == nil || len(p) > len(best)) {
			best, bv = p, v
		}
	}
	if bv == nil {
		if v, ok := cells["~"]; ok {
			best, bv = "", v
		}
	}
	// parts of an aggregate were written
	if ty != nil {
		if s, ok := ty.Underlying().(*types.Struct); ok {
			part := false
			for p := range cells {
				if under(path, p) && len(p) > len(best) {
					part = true
				}
			}
			if part {
				var names []string
				var vs []*Term
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					v := e.cell(st, base, path+"."+f.Name(), f.Type())
					if f.Name() == "state" || f.Name() == "sizeCache" || f.Name() == "unknownFields" {
						continue
					}
					names = append(names, f.Name())
					vs = append(vs, v)
				}
				return mk(OStruct, typeStr(ty), 0, nil, nil, names, ty, vs...)
			}
		}
		if a, ok := ty.Underlying().(*types.Array); ok && a.Len() <= 64 {
			part := false
			for p := range cells {
				if under(path, p) {
					part = true
				}
			}
			if part {
				var vs []*Term
				for i := int64(0); i < a.Len(); i++ {
					vs = append(vs, e.cell(st, base, path+"["+strconv.FormatInt(i, 10)+"]", a.Elem()))
				}
				return mkLit(vs...)
			}
		}
	}
	if bv != nil {
		return e.project(st, bv, path[len(best):], ty)
	}
	// never written
	if base.Op == OObj {
		if v, ok := e.P.initHeap[base]; ok && len(v) > 0 && len(cells) == 0 {
			tmp := &State{heap: map[*Term]map[string]*Term{base: v}}
			return e.cell(tmp, base, path, ty)
		}
		if ty == nil {
			return mk(OZero, "?", 0, nil, nil, nil, nil)
		}
		if b, ok := base.T.Underlying().(*types.Pointer); ok && path != "" && !strings.HasPrefix(path, "#") {
			_ = b
		}
		return zero(ty)
	}
	if base.Op == OGlob && strings.HasPrefix(base.S, "&") {
		if v, ok := e.P.globals[base]; ok {
			if vv, ok := v[path]; ok {
				return vv
			}
			tmp := &State{heap: map[*Term]map[string]*Term{base: v}}
			if len(v) > 0 {
				return e.cell(tmp, base, path, ty)
			}
		}
		var gt types.Type
		if p, ok := base.T.Underlying().(*types.Pointer); ok {
			gt = p.Elem()
		}
		return e.project(st, mk(OGlob, base.S[1:], 0, nil, nil, nil, gt), path, ty)
	}
	if path == "" {
		return mk(ODeref, "", 0, nil, nil, nil, ty, base)
	}
	return e.project(st, base, path, ty)
}

// load reads memory; generic elements of accumulated slices are resolved to
// each of the values that were put there.
func (e *Eng) load(fr *Frame, st *State, addr *Term, ty types.Type, pos token.Pos, k func(*Frame, *State, *Term)) {
	base, path := splitAddr(addr)
	if base.Op == OAddr && len(base.A) == 2 { // below s[i]
		e.loadIndexed(fr, st, base.A[0], base.A[1], nil, func(fr *Frame, st *State, v *Term) {
			k(fr, st, e.project(st, v, path, ty))
		})
		return
	}
	if addr.Op == OAddr && len(addr.A) == 2 {
		e.loadIndexed(fr, st, addr.A[0], addr.A[1], ty, k)
		return
	}
	if strings.HasPrefix(path, "[") {
		h, t := tailPath(path)
		if _, isArr := arrayOf(base); !isArr || st.heap[base]["#"] != nil {
			n, _ := strconv.ParseInt(strings.Trim(h, "[]"), 10, 64)
			e.loadIndexed(fr, st, base, cInt(n), nil, func(fr *Frame, st *State, v *Term) {
				k(fr, st, e.project(st, v, t, ty))
			})
			return
		}
	}
	if path == "" {
		e.deref(fr, st, addr, pos)
	}
	k(fr, st, e.cell(st, base, path, ty))
}

func arrayOf(base *Term) (*types.Array, bool) {
	if base.T == nil {
		return nil, false
	}
	p, ok := base.T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return a, ok
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (e *Eng) loadIndexed(fr *Frame, st *State, s, idx *Term, ty types.Type, k func(*Frame, *State, *Term)) {
	c := e.content(st, s)
	if ty == nil {
		ty = elemType(s.T)
	}
	if ty == nil {
		ty = elemType(c.T)
	}
	v := e.index(st, c, idx, ty)
	e.alternatives(fr, st, v, k)
}

// alternatives resolves a generic element of an accumulated slice to each of
// the values the accumulating loop put there.
func (e *Eng) alternatives(fr *Frame, st *State, v *Term, k func(*Frame, *State, *Term)) {
	if v.Op != OElem {
		k(fr, st, v)
		return
	}
	if s, ok := st.sub[v]; ok {
		k(fr, st, s)
		return
	}
	alts, expandable := elemAlts(v.A[0], v)
	if !expandable {
		k(fr, st, v)
		return
	}
	for _, a := range alts {
		fr2, st2 := fr.clone(), st.clone()
		if a.cs != nil {
			if st2.bound[a.l] || a.cs.mentions(a.l) { // its generic element is in use for another element
				a = e.P.rename(a)
			}
			st2.bind(a.l)
			if !st2.importCase(a.cs) {
				continue
			}
		}
		st2.sub[v] = a.v
		e.budget--
		e.alternatives(fr2, st2, a.v, func(fr *Frame, st *State, r *Term) {
			st.sub[v] = r
			k(fr, st, r)
		})
	}
}

type alt struct {
	v  *Term
	cs *Case
	l  *Loop
}

func (s *State) bind(l *Loop) {
	if !s.bound[l] {
		s.bound = cp(s.bound)
		s.bound[l] = true
	}
}

// rename gives an alternative an element and objects of its own.
func (p *Program) rename(a alt) alt {
	p.loopSeq++
	l := *a.l
	l.ID = p.loopSeq
	objs := map[*Term]*Term{}
	for b := range a.cs.Heap {
		p.inst++
		objs[b] = mk(b.Op, b.S, p.inst, b.L, b.Fn, b.Names, b.T, b.A...)
	}
	f := func(t *Term) *Term {
		if o, ok := objs[t]; ok {
			return o
		}
		if t.L == a.l && (t.Op == OElem || t.Op == OKey || t.Op == OVal || t.Op == OIdx || t.Op == OLv) {
			return mk(t.Op, t.S, t.Inst, &l, nil, nil, t.T, t.A...)
		}
		return nil
	}
	cs := *a.cs
	cs.Facts = map[*Term]bool{}
	for t, v := range a.cs.Facts {
		cs.Facts[t.subst(f)] = v
	}
	cs.Heap = map[*Term]map[string]*Term{}
	for b, cells := range a.cs.Heap {
		n := map[string]*Term{}
		for k, v := range cells {
			n[k] = v.subst(f)
		}
		cs.Heap[objs[b]] = n
	}
	return alt{a.v.subst(f), &cs, &l}
}

// mentions: the case depends on a variable of the loop, which has another
// value after it.
func (cs *Case) mentions(l *Loop) bool {
	for f := range cs.Facts {
		if f.has(func(x *Term) bool { return x.Op == OLv && x.L == l }) {
			return true
		}
	}
	return false
}

func elemAlts(c, v *Term) ([]alt, bool) {
	switch c.Op {
	case OLit:
		var out []alt
		for _, x := range c.A {
			out = append(out, alt{x, nil, nil})
		}
		return out, true
	case OCat, OMix:
		var out []alt
		for _, s := range c.A {
			a, ok := elemAlts(s, v)
			if !ok {
				a = []alt{{mk(OElem, "", 0, v.L, nil, nil, v.T, s), nil, nil}}
			}
			out = append(out, a...)
		}
		return out, true
	case OColl:
		if c.L == nil || c.L.cases == nil {
			return nil, false
		}
		var out []alt
		cases := c.L.cases
		if info := collInfo(c); info != nil {
			cases = info.All
		}
		for _, cs := range cases {
			for _, x := range cs.Raw[c.S] {
				out = append(out, alt{x, cs, c.L})
			}
		}
		return out, true
	case OMk:
		if ty := elemType(c.T); ty != nil {
			return []alt{{zero(ty), nil, nil}}, true
		}
	}
	return nil, false
}

func (s *State) importCase(cs *Case) bool {
	for f, v := range cs.Facts {
		if !s.assume(f, v) {
			return false
		}
	}
	for b, cells := range cs.Heap {
		if _, ok := s.heap[b]; !ok {
			s.heap[b] = cp(cells)
			n := cp(s.imp)
			n[b] = cp(cells)
			s.imp = n
		}
	}
	return true
}

// content yields the sequence or mapping a slice, string or map value stands for.
func (e *Eng) content(st *State, t *Term) *Term {
	if t.Op == OObj {
		if c, ok := st.heap[t]["#"]; ok {
			return c
		}
	}
	return t
}

func (e *Eng) index(st *State, c, idx *Term, ty types.Type) *Term {
	c = e.content(st, c)
	if v, ok := idx.intVal(); ok {
		switch c.Op {
		case OLit:
			if v >= 0 && int(v) < len(c.A) {
				return c.A[v]
			}
		case OCat:
			if c.A[0].Op == OLit && int(v) < len(c.A[0].A) {
				return c.A[0].A[v]
			}
		case OSlice:
			if o, ok := c.A[1].intVal(); ok {
				return e.index(st, c.A[0], cInt(v+o), ty)
			}
		case OMk:
			if et := elemType(c.T); et != nil {
				return zero(et)
			}
		}
	}
	if c.Op == OUpd {
		if c.A[1] == idx {
			return c.A[2]
		}
		_, ok1 := c.A[1].intVal()
		_, ok2 := idx.intVal()
		if ok1 && ok2 {
			return e.index(st, c.A[0], idx, ty)
		}
	}
	// the element of the current iteration
	if idx.Op == OIdx {
		return mk(OElem, "", 0, idx.L, nil, nil, ty, c)
	}
	if idx.Op == OBin && idx.S == "+" && idx.A[0].Op == OIdx {
		if n, ok := idx.A[1].intVal(); ok && n > 0 {
			return mk(OElem, "", 0, idx.A[0].L, nil, nil, ty, mkSlice(c, cInt(n), tNil))
		}
	}
	if idx.Op == OBin && idx.S == "rev" && idx.A[0] == mkAdd(mkLen(c), cInt(-1)) {
		return mk(OElem, "", 0, idx.A[1].L, nil, nil, ty, c)
	}
	return mk(OIndex, "", 0, nil, nil, nil, ty, c, idx)
}

func mkSlice(c, lo, hi *Term) *Term {
	l, ok1 := lo.intVal()
	if lo.isNil() {
		l, ok1 = 0, true
	}
	if ok1 && l == 0 && hi.isNil() {
		return c
	}
	if c.Op == OLit && ok1 {
		h, ok2 := hi.intVal()
		if hi.isNil() {
			h, ok2 = int64(len(c.A)), true
		}
		if ok2 && l >= 0 && l <= h && int(h) <= len(c.A) {
			return mkLit(c.A[l:h]...)
		}
	}
	if c.Op == OSlice && hi.isNil() && c.A[2].isNil() {
		return mkSlice(c.A[0], mkAdd(c.A[1], lo), tNil)
	}
	if lo.isNil() {
		lo = cInt(0)
	}
	return mk(OSlice, "", 0, nil, nil, nil, c.T, c, lo, hi)
}

func (e *Eng) slice(fr *Frame, st *State, x *ssa.Slice) *Term {
	s := e.val(fr, x.X)
	lo, hi := tNil, tNil
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
		base, path := splitAddr(s)
		v := e.cell(st, base, path, pt.Elem())
		if v.Op == OZero {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok && a.Len() <= 64 {
				var vs []*Term
				for i := int64(0); i < a.Len(); i++ {
					vs = append(vs, zero(a.Elem()))
				}
				v = mkLit(vs...)
			}
		}
		if base.Op == OObj && path == "" && lo.isNil() && hi.isNil() && (v.Op == OLit || st.heap[base]["#"] != nil) {
			// the slice is the array itself
			if len(st.heap[base]) != 1 || st.heap[base]["#"] == nil {
				st.heap[base] = map[string]*Term{"#": v}
			}
			return base
		}
		r := mkSlice(v, lo, hi)
		if r.Op == OLit { // keep the identity of the backing array
			o := mk(OObj, "slice", e.next(), nil, nil, nil, x.Type())
			st.heap[o] = map[string]*Term{"#": r}
			return o
		}
		return r
	}
	return mkSlice(e.content(st, s), lo, hi)
}

func (e *Eng) store(fr *Frame, st *State, addr, v *Term, ty types.Type, pos token.Pos) {
	base, path := splitAddr(addr)
	if addr.Op == OAddr && len(addr.A) == 2 { // s[i] = v
		o := addr.A[0]
		if o.Op == OObj {
			if c, ok := st.heap[o]["#"]; ok {
				st.heap[o]["#"] = mkUpd(c, addr.A[1], v)
				return
			}
			if _, ok := arrayOf(o); ok {
				st.heap[o]["~"] = mk(OUpd, "", 0, nil, nil, nil, nil, e.cell(st, o, "", o.T.Underlying().(*types.Pointer).Elem()), addr.A[1], v)
				return
			}
		}
		st.emit(&Event{Kind: "store", Name: "[]", Args: e.views(st, []*Term{o, addr.A[1], v}), Raw: []*Term{o, addr.A[1], v}, Pos: pos, Fn: fr.fn})
		return
	}
	if base.Op == OAddr && len(base.A) == 2 {
		st.emit(&Event{Kind: "store", Name: "[]" + path, Args: e.views(st, []*Term{base.A[0], base.A[1], v}), Raw: []*Term{base.A[0], base.A[1], v}, Pos: pos, Fn: fr.fn})
		return
	}
	if strings.HasPrefix(path, "[") {
		if c, ok := st.heap[base]["#"]; ok {
			h, t := tailPath(path)
			n, _ := strconv.ParseInt(strings.Trim(h, "[]"), 10, 64)
			if t == "" {
				st.heap[base]["#"] = mkUpd(c, cInt(n), v)
				return
			}
		}
	}
	cells := st.heap[base]
	if cells == nil {
		cells = map[string]*Term{}
		st.heap[base] = cells
	}
	for p := range cells {
		if under(path, p) || path == "" && p != "~" {
			delete(cells, p)
		}
	}
	cells[path] = v
	if base.Op != OObj {
		if path == "" {
			e.deref(fr, st, addr, pos)
		}
		st.emit(&Event{Kind: "store", Name: path, Args: e.views(st, []*Term{base, v}), Raw: []*Term{base, v}, Pos: pos, Fn: fr.fn})
	}
}

func mkUpd(c, i, v *Term) *Term {
	if n, ok := i.intVal(); ok && c.Op == OLit && n >= 0 && int(n) < len(c.A) {
		a := append([]*Term{}, c.A...)
		a[n] = v
		return mkLit(a...)
	}
	if n, ok := i.intVal(); ok && c.Op == OMk {
		if l, ok := c.A[0].intVal(); ok && l <= 64 && n < l {
			if et := elemType(c.T); et != nil {
				a := make([]*Term, l)
				for i := range a {
					a[i] = zero(et)
				}
				a[n] = v
				return mkLit(a...)
			}
		}
	}
	if c.Op == OUpd && c.A[1] == i {
		c = c.A[0]
	}
	return mk(OUpd, "", 0, nil, nil, nil, c.T, c, i, v)
}

// ---- maps ----

func (e *Eng) mapContent(st *State, m *Term) *Term {
	if m.isNil() {
		return tEmptyMap
	}
	if m.Op == OObj {
		return e.content(st, m)
	}
	if c, ok := st.heap[m]["#"]; ok {
		return c
	}
	return m
}

func (e *Eng) setMap(fr *Frame, st *State, m, c *Term) {
	if st.heap[m] == nil {
		st.heap[m] = map[string]*Term{}
	}
	st.heap[m]["#"] = c
}

func (e *Eng) mapUpdate(fr *Frame, st *State, m, k, v *Term, pos token.Pos) {
	c := e.mapContent(st, m)
	st.emit(&Event{Kind: "mapset", Args: e.views(st, []*Term{m, k, v}), Raw: []*Term{m, k, v}, Pos: pos, Fn: fr.fn})
	e.setMap(fr, st, m, mkMapUpd(c, k, v))
}

func (e *Eng) mapDelete(fr *Frame, st *State, m, k *Term, pos token.Pos) {
	c := e.mapContent(st, m)
	st.emit(&Event{Kind: "mapdel", Args: e.views(st, []*Term{m, k}), Raw: []*Term{m, k}, Pos: pos, Fn: fr.fn})
	e.setMap(fr, st, m, mkMapDel(st, c, k))
}

func (e *Eng) lookup(fr *Frame, st *State, x *ssa.Lookup, k func(*Frame, *State, *Term)) {
	m, key := e.val(fr, x.X), e.val(fr, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		k(fr, st, e.index(st, m, key, x.Type()))
		return
	}
	c := e.mapContent(st, m)
	e.hasBranch(fr, st, c, key, func(fr *Frame, st *State, has bool) {
		var v *Term
		if has {
			v = e.mapGet(st, c, key, mt.Elem())
			if v.Op == OLookup && e.P.onlyTrue(mt) {
				v = tTrue
			}
		} else {
			v = zero(mt.Elem())
		}
		if x.CommaOk {
			v = mk(OTuple, "", 0, nil, nil, nil, nil, v, cBool(has))
		}
		k(fr, st, v)
	})
}

// onlyTrue: maps of this type are sets: the code stores nothing but true in them,
// and nothing else fills them (no decoder sees a field of this type).
func (p *Program) onlyTrue(mt *types.Map) bool {
	b, ok := mt.Elem().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool {
		return false
	}
	k := types.TypeString(mt, nil)
	if v, ok := p.setTypes[k]; ok {
		return v
	}
	res := true
	for fn := range p.allFns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if up, ok := in.(*ssa.MapUpdate); ok && types.Identical(up.Map.Type().Underlying(), mt) {
					c, ok := up.Value.(*ssa.Const)
					res = res && ok && c.Value != nil && c.Value.ExactString() == "true"
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Exported() && types.Identical(st.Field(i).Type().Underlying(), mt) {
						res = false
					}
				}
			}
		}
	}
	if p.setTypes == nil {
		p.setTypes = map[string]bool{}
	}
	p.setTypes[k] = res
	return res
}

// mapGet yields the value stored under a key known to be present.
func (e *Eng) mapGet(st *State, c, key *Term, ty types.Type) *Term {
	for c.Op == OBin && (c.S == "mapupd" || c.S == "mapdel") {
		eq := mkEq(c.A[1], key)
		if v, ok := st.decide(eq); ok {
			if v && c.S == "mapupd" {
				return c.A[2]
			}
			c = c.A[0]
			continue
		}
		break
	}
	if ownKey(c, key) {
		return mk(OVal, "", 0, key.L, nil, nil, ty, key.A[0])
	}
	return mk(OLookup, "", 0, nil, nil, nil, ty, c, key)
}

func (e *Eng) nextElem(fr *Frame, st *State, x *ssa.Next) *Term {
	it := e.val(fr, x.Iter)
	if t := nextRune(it, x, fr.unroll[x.Block()]-1); t != nil {
		return t
	}
	if len(fr.loops) == 0 {
		e.fail("iteration outside of a loop in %s", fname(fr.fn))
	}
	L := fr.loops[len(fr.loops)-1].L
	c := it.A[0]
	L.Domain, L.Kind = c, "map"
	more := mk(OBin, "more", 0, L, nil, nil, types.Typ[types.Bool])
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
		kt = nil
	}
	if x.IsString {
		L.Kind = "string"
	} else if mt, ok := it.T.Underlying().(*types.Map); ok {
		kt, vt = mt.Key(), mt.Elem()
	}
	key := mk(OKey, "", 0, L, nil, nil, kt, c)
	val := mk(OVal, "", 0, L, nil, nil, vt, c)
	return mk(OTuple, "", 0, nil, nil, nil, nil, more, key, val)
}

// ---- values ----

func (e *Eng) changeType(t *Term, to types.Type) *Term {
	switch t.Op {
	case OClosure, OConst, OObj, OLit, OCat:
		return t
	}
	if sameClassOrSame(t.T, to) {
		return t
	}
	return t
}

func sameClassOrSame(a, b types.Type) bool { return true }

func (e *Eng) binop(fr *Frame, st *State, x *ssa.BinOp) *Term {
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		if a.Op == OObj && b.isNil() || b.Op == OObj && a.isNil() {
			return cBool(x.Op == token.NEQ)
		}
		a, b = e.content2(st, a), e.content2(st, b)
		if b.isNil() || a.isNil() { // slices: an accumulated slice compared with nil
			o := a
			if a.isNil() {
				o = b
			}
			if o.Op == OLit && len(o.A) == 0 {
				return mkBin(x.Op, mk(OBin, "isnil", 0, nil, nil, nil, types.Typ[types.Bool], o), tTrue, x.Type())
			}
		}
		// comparing structs by value
		if a.Op == OStruct && b.Op == OStruct && len(a.A) == len(b.A) {
			r := tTrue
			for i := range a.A {
				q := mkEq(a.A[i], b.A[i])
				if q == tFalse {
					r = tFalse
					break
				}
				if q != tTrue {
					r = nil
					break
				}
			}
			if r != nil {
				if x.Op == token.NEQ {
					return mkNot(r)
				}
				return r
			}
		}
	}
	return mkBin(x.Op, a, b, x.X.Type())
}

// content2: only slices have their content compared, maps and pointers have identity
func (e *Eng) content2(st *State, t *Term) *Term { return t }

func (e *Eng) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, k func(*Frame, *State, *Term)) {
	v := e.val(fr, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	ts := typeStr(x.AssertedType)
	done := func(fr *Frame, st *State, ok bool) {
		var r *Term
		if ok {
			if v.Op == OIface && !toIface {
				r = v.A[0]
			} else if toIface {
				r = v
			} else {
				r = mk(OTa, ts, 0, nil, nil, nil, x.AssertedType, v)
			}
		} else {
			r = zero(x.AssertedType)
		}
		if x.CommaOk {
			k(fr, st, mk(OTuple, "", 0, nil, nil, nil, nil, r, cBool(ok)))
			return
		}
		if !ok {
			st.emit(&Event{Kind: "panic", Name: "type assertion", Args: e.views(st, []*Term{v}), Pos: x.Pos(), Fn: fr.fn})
			if true {
				e.doPanic(st)
			}
			return
		}
		k(fr, st, r)
	}
	if v.isNil() {
		done(fr, st, false)
		return
	}
	if v.Op == OIface {
		if toIface {
			done(fr, st, types.Implements(v.T, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			done(fr, st, v.S == ts)
		}
		return
	}
	if toIface {
		e.branch(fr, st, mkNot(mkEq(v, tNil)), done)
		return
	}
	e.branch(fr, st, mk(OIs, ts, 0, nil, nil, nil, types.Typ[types.Bool], v), done)
}

// ---- views ----

func (e *Eng) views(st *State, a []*Term) []*Term {
	out := make([]*Term, len(a))
	for i, t := range a {
		out[i] = e.view(st, t)
	}
	return out
}

// view replaces references to memory by what is stored there.
func (e *Eng) view(st *State, t *Term) *Term {
	busy := map[*Term]bool{}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	obj := func(b *Term) *Term {
		if c, ok := st.heap[b]["#"]; ok && len(st.heap[b]) == 1 {
			return rec(c)
		}
		pt, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			return b
		}
		v := rec(e.cell(st, b, "", pt.Elem()))
		if v.Op == OStruct {
			return mk(ONew, typeStr(pt.Elem()), 0, nil, nil, v.Names, b.T, v.A...)
		}
		if v.Op == OZero {
			return mk(ONew, typeStr(pt.Elem()), 0, nil, nil, nil, b.T)
		}
		return mk(OBin, "ref", 0, nil, nil, nil, b.T, v)
	}
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if busy[t] {
			return t
		}
		busy[t] = true
		var r *Term
		switch t.Op {
		case OObj:
			r = obj(t)
		case OAddr:
			if len(t.A) == 1 {
				b, p := splitAddr(t)
				if b.Op == OObj && t.T != nil {
					if pt, ok := t.T.Underlying().(*types.Pointer); ok {
						v := rec(e.cell(st, b, p, pt.Elem()))
						if v.Op == OStruct || v.Op == OZero {
							r = mk(ONew, typeStr(pt.Elem()), 0, nil, nil, v.Names, t.T, v.A...)
						} else {
							r = mk(OBin, "ref", 0, nil, nil, nil, t.T, v)
						}
						break
					}
				}
			}
			r = t
		default:
			ch := false
			a := make([]*Term, len(t.A))
			copy(a, t.A)
			// the arguments of a call and the owner of a field are as they were when the value arose
			if t.Op != OCall && t.Op != OFld {
				for i, x := range t.A {
					a[i] = rec(x)
					ch = ch || a[i] != x
				}
			}
			r = t
			if ch {
				r = rebuild(t, a)
			}
			// memory behind a symbolic pointer that was changed
			if cells := st.heap[t]; len(cells) > 0 && t.Op != OConst {
				if c, ok := cells["#"]; ok && len(cells) == 1 {
					r = rec(c)
				} else {
					var names []string
					for p := range cells {
						names = append(names, p)
					}
					sort.Strings(names)
					as := []*Term{r}
					for i, p := range names {
						as = append(as, rec(cells[p]))
						names[i] = strings.TrimPrefix(p, ".")
					}
					r = mk(OWith, "", 0, nil, nil, names, t.T, as...)
				}
			}
		}
		busy[t] = false
		memo[t] = r
		return r
	}
	return rec(t)
}
