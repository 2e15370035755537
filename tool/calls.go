package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func calleeName(f *Term) string {
	if f == nil {
		return "?"
	}
	if f.Op == OClosure {
		return fname(f.Fn)
	}
	return f.String()
}

// callee evaluates the function and the arguments of a call.
func (e *Eng) callee(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return e.val(fr, c.Value), args
}

func (e *Eng) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, rt types.Type, k func(*Frame, *State, *Term)) {
	fn, args := e.callee(fr, c)
	e.invoke(fr, st, c, fn, args, pos, rt, k)
}

func (e *Eng) invoke(fr *Frame, st *State, c *ssa.CallCommon, fn *Term, args []*Term, pos token.Pos, rt types.Type, k func(*Frame, *State, *Term)) {
	if c.IsInvoke() {
		recv := args[0]
		if recv.Op == OIface {
			if m := e.P.prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				args = append([]*Term{recv.A[0]}, args[1:]...)
				e.static(fr, st, m, nil, args, pos, rt, k)
				return
			}
		}
		if t, ok := st.typ[recv]; ok { // type established by a type switch
			if ct := e.P.typeByName[t]; ct != nil {
				if m := e.P.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
					args = append([]*Term{mk(OTa, t, 0, nil, nil, nil, ct, recv)}, args[1:]...)
					e.static(fr, st, m, nil, args, pos, rt, k)
					return
				}
			}
		}
		if ct := e.P.soleImpl(c.Value.Type()); ct != nil {
			if m := e.P.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil && len(m.Blocks) > 0 {
				e.deref2(fr, st, recv, pos)
				args = append([]*Term{mk(OTa, typeStr(ct), 0, nil, nil, nil, ct, recv)}, args[1:]...)
				e.static(fr, st, m, nil, args, pos, rt, k)
				return
			}
		}
		it := typeStr(c.Value.Type())
		if i := strings.IndexByte(it, '['); i >= 0 {
			it = it[:i]
		}
		name := it + "." + c.Method.Name()
		if !strings.HasPrefix(name, "types.Logger") && it != "error" && !e.quietRecv(it) {
			e.deref2(fr, st, recv, pos)
		}
		if o, ok := e.cfg.Opaque[name]; ok {
			e.opaque(fr, st, name, args, pos, rt, k, &o)
			return
		}
		e.opaque(fr, st, name, args, pos, rt, k, nil)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(fr, st, e.builtin(fr, st, b.Name(), args, c, pos, rt))
		return
	}
	if fn.Op == OClosure {
		e.static(fr, st, fn.Fn, fn.A, args, pos, rt, k)
		return
	}
	if z, ok := st.zeroOf(fn); ok && z == tNil || fn.isNil() {
		st.emit(&Event{Kind: "panic", Name: "nil function", Pos: pos, Fn: fr.fn})
		if true {
			e.doPanic(st)
		}
		return
	}
	r := mk(OCall, "dyncall", e.next(), nil, nil, nil, rt, append([]*Term{fn}, args...)...)
	st.emit(&Event{Kind: "dyncall", Name: fn.String(), Args: e.views(st, args), Raw: append([]*Term{fn}, args...), Res: r, Pos: pos, Fn: fr.fn})
	// an unknown function may write through the pointers it is given
	for i, a := range args {
		if base, _ := splitAddr(a); base.Op != OObj || a.T == nil {
			continue
		}
		pt, ok := a.T.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if sty, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for j := 0; j < sty.NumFields(); j++ {
				fd := sty.Field(j)
				v := mk(OCall, "left."+fd.Name(), 0, nil, nil, nil, fd.Type(), r, cInt(int64(i)))
				e.store(fr, st, addrOf(a, "."+fd.Name(), types.NewPointer(fd.Type())), v, fd.Type(), pos)
			}
		}
	}
	k(fr, st, tuple(r, rt))
}

func (e *Eng) quietRecv(it string) bool { return false }

// deref2 records a method call on an interface value that might be nil
func (e *Eng) deref2(fr *Frame, st *State, p *Term, pos token.Pos) {
	if p == tNil {
		st.emit(&Event{Kind: "nilderef", Name: "certain", Args: []*Term{p}, Raw: []*Term{p}, Pos: pos, Fn: fr.fn})
	} else if z, ok := st.zeroOf(p); ok && z == tNil {
		st.emit(&Event{Kind: "nilderef", Name: "certain", Args: e.views(st, []*Term{p}), Raw: []*Term{p}, Pos: pos, Fn: fr.fn})
	}
}

func tuple(r *Term, rt types.Type) *Term {
	if t, ok := rt.(*types.Tuple); ok {
		if t.Len() == 0 {
			return mk(OTuple, "", 0, nil, nil, nil, nil)
		}
		var a []*Term
		for i := 0; i < t.Len(); i++ {
			a = append(a, mk(ORes, strconv.Itoa(i), 0, nil, nil, nil, t.At(i).Type(), r))
		}
		return mk(OTuple, "", 0, nil, nil, nil, nil, a...)
	}
	return r
}

func isRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func fnPkg(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

// noReturn: calls that end the program or the goroutine.
func noReturn(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "syscall.Exit":
		return true
	}
	for _, p := range []string{"log.Fatal", "log.Panic", "(*log.Logger).Fatal", "(*log.Logger).Panic"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// join: errors.Join is nil exactly if all of its arguments are.
func (e *Eng) join(fr *Frame, st *State, l *Term, i int, some bool, pos token.Pos, rt types.Type, k func(*Frame, *State, *Term)) {
	if i == len(l.A) {
		if !some {
			k(fr, st, tNil)
			return
		}
		r := mk(OCall, "errors.Join", 0, nil, nil, nil, rt, l)
		st.assume(mkEq(r, tNil), false)
		k(fr, st, r)
		return
	}
	e.branch(fr, st, mkEq(l.A[i], tNil), func(fr *Frame, st *State, isNil bool) {
		e.join(fr, st, l, i+1, some || !isNil, pos, rt, k)
	})
}

func (e *Eng) static(fr *Frame, st *State, fn *ssa.Function, binds, args []*Term, pos token.Pos, rt types.Type, k func(*Frame, *State, *Term)) {
	name := fname(fn)
	if fn.Synthetic == "package initializer" { // initialised separately
		k(fr, st, mk(OTuple, "", 0, nil, nil, nil, nil))
		return
	}
	if o, ok := e.cfg.Opaque[name]; ok {
		e.opaque(fr, st, name, args, pos, rt, k, &o)
		return
	}
	if noReturn(name) {
		st.emit(&Event{Kind: "panic", Name: name, Args: e.views(st, args), Pos: pos, Fn: fr.fn})
		e.doPanic(st)
		return
	}
	if e.pbGetter(fr, st, fn, args, rt, k) {
		return
	}
	if (name == "slices.Clone" || name == "golang.org/x/exp/slices.Clone") && len(args) == 1 { // the same elements in memory of its own
		c := e.content(st, args[0])
		if c == tNil {
			k(fr, st, tNil)
			return
		}
		o := mk(OObj, "slice", e.next(), nil, nil, nil, rt)
		st.heap[o] = map[string]*Term{"#": c}
		k(fr, st, o)
		return
	}
	if name == "errors.Join" && len(args) == 1 {
		if l := strip(e.view(st, args[0])); l.Op == OLit {
			e.join(fr, st, l, 0, false, pos, rt, k)
			return
		}
	}
	wrapper := fn.Synthetic != "" && len(fn.Blocks) > 0 && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound"))
	if len(fn.Blocks) == 0 || !(isRepo(fn) || wrapper || inlineLib[name]) || e.P.generated(fn) && !e.cfg.Inline[name] && !wrapper {
		e.opaque(fr, st, name, args, pos, rt, k, nil)
		return
	}
	// recursion is cut
	fa := funcArgs(args) + e.staticBinds(binds)
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn && f.fargs == fa || e.cfg.Cut[name] {
			r := mk(OCall, "rec:"+name, e.next(), nil, nil, nil, rt, args...)
			st.emit(&Event{Kind: "rec", Name: name, Args: e.views(st, args), Raw: args, Res: r, Pos: pos, Fn: fr.fn})
			e.recEffects(st, fn, r)
			k(fr, st, tuple(r, rt))
			return
		}
	}
	e.callFn(fr, st, fn, args, binds, func(st *State, rets []*Term) {
		fr2 := fr.clone()
		var v *Term
		if len(rets) == 1 {
			v = rets[0]
		} else {
			v = mk(OTuple, "", 0, nil, nil, nil, nil, rets...)
		}
		k(fr2, st, v)
	}, nil)
}

// staticBinds identifies a function value made by package initialisation.
func (e *Eng) staticBinds(binds []*Term) string {
	s := ""
	for _, b := range binds {
		if e.P.initHeap[b] == nil {
			return ""
		}
		s += fmt.Sprintf("|%d", b.ID)
	}
	return s
}

// recEffects forgets what a recursive call may have changed: fields and maps
// written anywhere below the function.
func (e *Eng) recEffects(st *State, fn *ssa.Function, r *Term) {
	mod := e.P.modSet(fn)
	for b, cells := range st.heap {
		for p := range cells {
			if p == "#" {
				if b.Op == OObj && b.S == "slice" {
					continue
				}
				if mod.maps {
					if e.balanced(st, b) {
						continue
					}
					if !mod.mapTypes[typeStr(b.T)] {
						continue
					}
					cells[p] = mk(OMut, "", 0, nil, nil, nil, cells[p].T, cells[p], r)
				}
				continue
			}
			last := p[strings.LastIndexByte(p, '.')+1:]
			owner := typeStr(derefType(b.T))
			if strings.Count(p, ".") == 1 && mod.fields[owner+"."+last] {
				cells[p] = mk(OMut, p, 0, nil, nil, nil, cells[p].T, cells[p], r)
			}
		}
	}
}

func (e *Eng) balanced(st *State, m *Term) bool {
	if m.Op == OFld && e.cfg.BalancedMaps[m.S] {
		return true
	}
	// held in a field of a struct in memory
	for _, cells := range st.heap {
		for p, v := range cells {
			if v == m && e.cfg.BalancedMaps[p[strings.LastIndexByte(p, '.')+1:]] {
				return true
			}
		}
	}
	return false
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// pbGetter: generated accessors read a field and accept a nil message.
func (e *Eng) pbGetter(fr *Frame, st *State, fn *ssa.Function, args []*Term, rt types.Type, k func(*Frame, *State, *Term)) bool {
	if !e.P.generated(fn) || fn.Signature.Recv() == nil || !strings.HasPrefix(fn.Name(), "Get") || len(args) != 1 {
		return false
	}
	f := fn.Name()[3:]
	sty := derefType(fn.Signature.Recv().Type())
	x := args[0]
	if x.isNil() {
		k(fr, st, zero(rt))
		return true
	}
	if z, ok := st.zeroOf(x); ok && z == tNil {
		k(fr, st, zero(rt))
		return true
	}
	if ft := fieldType(sty, f); ft != nil {
		b, p := splitAddr(x)
		k(fr, st, e.cell(st, b, p+"."+f, ft))
		return true
	}
	// accessor of a oneof variant
	of, wt := e.P.oneof(sty, f)
	if of == "" {
		return false
	}
	b, p := splitAddr(x)
	w := e.cell(st, b, p+"."+of, fieldType(sty, of))
	ts := typeStr(wt)
	done := func(fr *Frame, st *State, ok bool) {
		if !ok {
			k(fr, st, zero(rt))
			return
		}
		var pv *Term
		if w.Op == OIface {
			pv = w.A[0]
		} else {
			pv = mk(OTa, ts, 0, nil, nil, nil, wt, w)
		}
		wb, wp := splitAddr(pv)
		k(fr, st, e.cell(st, wb, wp+"."+f, rt))
	}
	if w.isNil() {
		done(fr, st, false)
	} else if w.Op == OIface {
		done(fr, st, w.S == ts)
	} else {
		e.branch(fr, st, mk(OIs, ts, 0, nil, nil, nil, types.Typ[types.Bool], w), done)
	}
	return true
}

var purePkgs = map[string]bool{"fmt": true, "errors": true, "strings": true, "unicode": true, "unicode/utf8": true, "strconv": true, "bytes": true, "slices": true, "golang.org/x/exp/slices": true, "path": true, "path/filepath": true}

var pureFns = map[string]bool{
	"proto.Equal": true, "crypto/sha256.Sum256": true, "(encoding/binary.bigEndian).AppendUint64": true, "(encoding/binary.littleEndian).AppendUint64": true,
	"(encoding/binary.bigEndian).AppendUint32": true, "(encoding/binary.bigEndian).AppendUint16": true, "encoding/binary.AppendUvarint": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*strings.Replacer).Replace": true, "encoding/hex.EncodeToString": true,
	"error.Error": true, "context.WithValue": true, "encoding/json.MarshalIndent": true, "encoding/json.Marshal": true,
	"relation_graph.GoalTree.GetResult": true, "proto.Clone": true, "gopkg.in/yaml.v3.NewDecoder": true,
	"crypto/md5.Sum": true, "crypto/sha1.Sum": true,
}

// opaque records a call that is not looked into.
func (e *Eng) opaque(fr *Frame, st *State, name string, args []*Term, pos token.Pos, rt types.Type, k func(*Frame, *State, *Term), o *Opaque) {
	if strings.HasPrefix(name, "types.Logger.") || strings.HasPrefix(name, "(*types.NoopLogger)") {
		k(fr, st, mk(OTuple, "", 0, nil, nil, nil, nil))
		return
	}
	if p := runeTests[name]; p != nil && len(args) == 1 {
		if v, ok := e.resolve(st, args[0]).intVal(); ok {
			k(fr, st, cBool(p(rune(v))))
			return
		}
	}
	pure := o != nil && o.Pure
	if o == nil {
		pure = e.isPure(name)
	}
	vargs := e.views(st, args)
	var r *Term
	if pure {
		r = mk(OCall, name, 0, nil, nil, nil, rt, vargs...)
		e.sites++
	} else {
		r = mk(OCall, name, e.next(), nil, nil, nil, rt, vargs...)
		st.emit(&Event{Kind: "call", Name: name, Args: vargs, Raw: args, Res: r, Pos: pos, Fn: fr.fn})
		if o == nil {
			e.havoc(st, name, args, r)
		}
	}
	if o != nil && o.NonNil {
		if _, ok := rt.(*types.Tuple); !ok {
			st.facts[mkEq(r, tNil)] = false
		}
	}
	k(fr, st, tuple(r, rt))
}

// runeTests are decided for known characters.
var runeTests = map[string]func(rune) bool{"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsControl": unicode.IsControl}

func (e *Eng) isPure(name string) bool {
	if pureFns[name] {
		return true
	}
	n := strings.TrimLeft(name, "(*")
	if i := strings.LastIndexByte(n, '.'); i > 0 {
		pkg := n[:i]
		if strings.HasSuffix(pkg, ")") {
			pkg = strings.TrimSuffix(pkg, ")")
			if j := strings.LastIndexByte(pkg, '.'); j > 0 {
				pkg = pkg[:j]
			}
		}
		if purePkgs[pkg] && !writes(name) {
			return true
		}
		m := n[i+1:]
		// constructors and descriptions of library values
		if pkg == "rcdb" && (strings.HasPrefix(m, "New") && m != "NewMemKV" && m != "NewLevelDB" || m == "IderFromNodeKeyer" || m == "ProtoMarshaler" || m == "IsEmpty" || m == "Value" || m == "ToBytes" || m == "Append") {
			return true
		}
		if strings.HasPrefix(name, "rcdb.Iterator.") {
			return false
		}
		if n == "reflect.DeepEqual" {
			return true
		}
		if m == "String" || m == "Validate" || m == "GetSource" || m == "GetDest" || m == "Id" && pkg == "rcdb" || m == "Error" {
			return true
		}
	}
	return false
}

// writes: functions of otherwise pure packages that change or print something.
func writes(name string) bool {
	m := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(name, "(*") {
		return m != "Len" && m != "String" && m != "Bytes" && m != "Cap"
	}
	return strings.HasPrefix(m, "Print") || strings.HasPrefix(m, "Fprint") || strings.Contains(m, "scan") || strings.Contains(m, "Sort") || m == "Reverse"
}

// sorts: the call only puts a slice in another order. The order of the elements
// of a sequence is not part of what is decided.
func sorts(name string, args []*Term) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc",
		"golang.org/x/exp/slices.Sort", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
	default:
		return false
	}
	for _, a := range args {
		if a.Op != OClosure || a.Fn == nil {
			continue
		}
		for _, b := range a.Fn.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go:
					return false
				}
			}
		}
	}
	return true
}

// havoc: a library may change what it is handed a pointer to.
func (e *Eng) havoc(st *State, name string, args []*Term, r *Term) {
	if strings.HasPrefix(name, "(*sync.") || strings.Contains(name, "Repository.") || strings.HasPrefix(name, "(*rcdb.") || strings.HasPrefix(name, "rcdb.") || sorts(name, args) {
		return
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OObj {
			for p, v := range st.heap[t] {
				rec(v)
				if p == "#" {
					st.heap[t]["#"] = mk(OMut, "", 0, nil, nil, nil, v.T, e.view(st, v), r)
				}
			}
			if _, ok := st.heap[t]["#"]; !ok {
				st.heap[t] = map[string]*Term{"~": mk(OMut, "", 0, nil, nil, nil, derefType(t.T), r)}
			}
			return
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	for _, a := range args {
		rec(a)
	}
}

// recovered: a deferred function that recovers gives its function one more way to end:
// a panic right after this point, after which the function returns what its results
// then hold. A panic turned into an error says nothing beyond the panic; only an
// answer does.
func (e *Eng) recovered(fr *Frame, st *State, fn *Term, pos token.Pos) {
	if fn == nil || fn.Fn == nil || fr.fn.Recover == nil || len(fr.loops) > 0 || !recovers(fn.Fn) {
		return
	}
	f2, s2 := fr.clone(), st.clone()
	k := fr.k
	f2.k = func(st *State, rets []*Term) {
		if n := len(rets); n > 0 && isErrorType(fr.fn.Signature.Results().At(n-1).Type()) {
			if v, ok := st.decide(e.simplify(st, mkEq(e.view(st, rets[n-1]), tNil))); !ok || !v {
				return
			}
		}
		k(st, rets)
	}
	s2.panicking = true
	s2.emit(&Event{Kind: "recovered", Pos: pos, Fn: fr.fn})
	e.runDefers(f2, s2, func(fr *Frame, st *State) { e.instrs(fr, st, fr.fn.Recover, 0) })
}

func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (e *Eng) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	e.invoke(fr, st, d.call, d.fn, d.args, d.pos, d.call.Signature().Results(), func(fr *Frame, st *State, _ *Term) {
		e.runDefers(fr, st, k)
	})
}

func (e *Eng) builtin(fr *Frame, st *State, name string, args []*Term, c *ssa.CallCommon, pos token.Pos, rt types.Type) *Term {
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := e.mapContent(st, args[0])
			if m == tEmptyMap {
				return cInt(0)
			}
			return mkLen(m)
		}
		return mkLen(e.content(st, args[0]))
	case "cap":
		return mk(OBin, "cap", 0, nil, nil, nil, types.Typ[types.Int], e.content(st, args[0]))
	case "append":
		a := e.content(st, args[0])
		b := e.content(st, args[1])
		if isString(args[1].T) {
			b = mkConv(args[1], rt)
		}
		r := mkCat(a, b)
		if r == b && b.Op != OLit && b.Op != OColl && b != tNil && !isString(args[1].T) { // a copy
			o := mk(OObj, "slice", e.next(), nil, nil, nil, rt)
			st.heap[o] = map[string]*Term{"#": b}
			return o
		}
		if r.T == nil {
			r.T = rt
		}
		return r
	case "copy":
		d := args[0]
		src := e.content(st, args[1])
		if d.Op == OObj {
			if c, ok := st.heap[d]["#"]; ok {
				if mkLen(c) == mkLen(src) {
					st.heap[d]["#"] = src
				} else {
					st.heap[d]["#"] = mk(OMut, "copy", 0, nil, nil, nil, c.T, c, src)
				}
				return mkLen(src)
			}
		}
		st.emit(&Event{Kind: "store", Name: "copy", Args: e.views(st, args), Raw: args, Pos: pos, Fn: fr.fn})
		return mkLen(src)
	case "delete":
		e.mapDelete(fr, st, args[0], args[1], pos)
		return mk(OTuple, "", 0, nil, nil, nil, nil)
	case "close":
		st.emit(&Event{Kind: "close", Args: e.views(st, args), Pos: pos, Fn: fr.fn})
		return mk(OTuple, "", 0, nil, nil, nil, nil)
	case "print", "println":
		return mk(OTuple, "", 0, nil, nil, nil, nil)
	case "min", "max":
		return mk(OBin, name, 0, nil, nil, nil, rt, args...)
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if args[0].Op == OObj && args[0].S == "map" {
			st.heap[args[0]]["#"] = tEmptyMap
			return mk(OTuple, "", 0, nil, nil, nil, nil)
		}
	case "recover":
		if st.panicking {
			st.panicking = false
			v := in("!panic", rt)
			st.assume(mkEq(v, tNil), false)
			return v
		}
		return tNil
	}
	e.fail("builtin %s not supported", name)
	return nil
}
