package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of an abstract value (a "provenance term").
type Op uint8

const (
	OConst   Op = iota // S: literal
	OIn                // S: name of a symbolic input
	OFld               // S: field, A[0]: pointer or struct
	ODeref             // whole value behind pointer A[0]
	OObj               // allocation: S type, Inst
	OAddr              // address A[0] + path S (+ symbolic index A[1])
	OStruct            // struct value: Names/A
	ONew               // viewed object: S type, Names/A
	OZero              // zero value of a struct/array type S
	OLit               // slice literal A
	OCat               // concatenation of slices A
	OCall              // call: S name, A args, Inst>0 when impure
	ORes               // i-th result (S) of A[0]
	OIs                // type test: A[0], S type
	OTa                // type assertion: A[0], S type
	OIface             // interface value: S concrete type, A[0]
	OBin               // S operator
	ONot               //
	OLen               //
	OConv              // S type
	OElem              // generic element of A[0] in loop L
	OKey               // generic key of map A[0] in loop L
	OVal               // generic value of map A[0] in loop L
	OIdx               // iteration index of loop L
	OLv                // loop-variant value S of loop L
	OColl              // slice accumulated by loop L in variable S
	OIndex             // A[0][A[1]]
	OSlice             // A[0][A[1]:A[2]]
	OClosure           // Fn with bindings A
	OLookup            // A[0][A[1]] of a map, S version
	OHas               // A[1] in A[0], S version
	OGlob              // value of package variable S
	OTuple             // A
	OMk                // make([]T, A[0]) : Inst
	OMut               // contents of A[0] after call A[1]
	OUpd               // A[0] with element A[1] replaced by A[2]
	OMix               // A[0] with the changes A[1] made by a loop
	OWith              // A[0] with fields Names replaced by A[1:]
)

// Term is a hash-consed abstract value.
type Term struct {
	ID    int
	Op    Op
	S     string
	A     []*Term
	Names []string
	T     types.Type
	L     *Loop
	Fn    *ssa.Function
	Inst  int
	str   string
}

type interner struct {
	m map[string]*Term
	n int
}

var terms = &interner{m: map[string]*Term{}}

func mk(op Op, s string, inst int, l *Loop, fn *ssa.Function, names []string, ty types.Type, a ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(inst))
	if l != nil {
		b.WriteString("|L")
		b.WriteString(strconv.Itoa(l.ID))
	}
	if fn != nil {
		fmt.Fprintf(&b, "|%p", fn)
	}
	for _, n := range names {
		b.WriteByte('.')
		b.WriteString(n)
	}
	for _, x := range a {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.ID))
	}
	if op == OIn && ty != nil {
		b.WriteString("|T")
		b.WriteString(typeStr(ty))
	}
	k := b.String()
	if t, ok := terms.m[k]; ok {
		if t.T == nil {
			t.T = ty
		}
		return t
	}
	terms.n++
	t := &Term{ID: terms.n, Op: op, S: s, A: a, Names: names, T: ty, L: l, Fn: fn, Inst: inst}
	terms.m[k] = t
	return t
}

func cBool(b bool) *Term {
	return mk(OConst, strconv.FormatBool(b), 0, nil, nil, nil, types.Typ[types.Bool])
}
func cInt(i int64) *Term {
	return mk(OConst, strconv.FormatInt(i, 10), 0, nil, nil, nil, types.Typ[types.Int])
}
func cStr(s string) *Term {
	return mk(OConst, strconv.Quote(s), 0, nil, nil, nil, types.Typ[types.String])
}

var tNil = mk(OConst, "nil", 0, nil, nil, nil, nil)
var tTrue, tFalse = cBool(true), cBool(false)

func in(name string, ty types.Type) *Term { return mk(OIn, name, 0, nil, nil, nil, ty) }

func isConst(t *Term) bool  { return t.Op == OConst }
func (t *Term) isNil() bool { return t == tNil }

func (t *Term) intVal() (int64, bool) {
	if t.Op != OConst {
		return 0, false
	}
	v, err := strconv.ParseInt(t.S, 10, 64)
	return v, err == nil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if isAgg(c.Type()) {
			return zero(c.Type())
		}
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return zero(c.Type())
		}
		if _, ok := c.Type().(*types.TypeParam); ok {
			return mk(OZero, typeStr(c.Type()), 0, nil, nil, nil, c.Type())
		}
		return tNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.String:
		return mk(OConst, strconv.Quote(constant.StringVal(c.Value)), 0, nil, nil, nil, c.Type())
	case constant.Int:
		return mk(OConst, c.Value.ExactString(), 0, nil, nil, nil, c.Type())
	default:
		return mk(OConst, c.Value.ExactString(), 0, nil, nil, nil, c.Type())
	}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsNumeric != 0:
			return cInt(0)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk(OZero, typeStr(t), 0, nil, nil, nil, t)
	}
	return tNil
}

const modPath = "github.com/sourcenetwork/zanzi"
const rcPath = "github.com/sourcenetwork/raccoondb"

func shortPath(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/store/", "")
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath, "zanzi")
	s = strings.ReplaceAll(s, rcPath, "rcdb")
	s = strings.ReplaceAll(s, "google.golang.org/protobuf/", "")
	return s
}

func typeStr(t types.Type) string {
	return shortPath(types.TypeString(t, func(p *types.Package) string { return p.Path() }))
}

// ---- constructors with normalisation ----

func structNames(t types.Type) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n := make([]string, s.NumFields())
	for i := range n {
		n[i] = s.Field(i).Name()
	}
	return n
}

func fieldType(t types.Type, f string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return nil
}

func mkFld(x *Term, f string, ty types.Type) *Term {
	switch x.Op {
	case OStruct, ONew:
		for i, n := range x.Names {
			if n == f {
				return x.A[i]
			}
		}
		if ty == nil {
			ty = fieldType(x.T, f)
		}
		if ty != nil {
			return zero(ty)
		}
	case OZero:
		if ty == nil {
			ty = fieldType(x.T, f)
		}
		if ty != nil {
			return zero(ty)
		}
	case OWith:
		for i, n := range x.Names {
			if n == f {
				return x.A[i+1]
			}
		}
		return mkFld(x.A[0], f, ty)
	case ODeref:
		return mkFld(x.A[0], f, ty)
	}
	if ty == nil {
		ty = fieldType(x.T, f)
	}
	return mk(OFld, f, 0, nil, nil, nil, ty, x)
}

func mkNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.Op == ONot {
		return t.A[0]
	}
	return mk(ONot, "", 0, nil, nil, nil, types.Typ[types.Bool], t)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func nonNilTerm(t *Term) bool {
	switch t.Op {
	case OObj, OIface, OClosure, OAddr, ONew, OStruct, OMk, OUpd:
		return true
	case OLit:
		return true
	case OGlob:
		return t.T != nil && (isErrorType(t.T) || types.Implements(t.T, errorIface))
	case OCall:
		return nonNilCalls[t.S]
	}
	return false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var nonNilCalls = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "strings.NewReader": true,
	"gopkg.in/yaml.v3.NewDecoder": true, "crypto/sha256.New": true,
	"github.com/awalterschulze/gographviz.NewGraph": true,
	"types/known/timestamppb.Now":                   true, "rcdb.NewMemKV": true, "go.uber.org/zap.S": true,
	"google.golang.org/grpc.NewServer": true,
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isConst(a) && isConst(b) {
		return tFalse // distinct constants (interned)
	}
	if isConst(a) {
		a, b = b, a
	}
	if b.isNil() {
		if nonNilTerm(a) {
			return tFalse
		}
	}
	if n, ok := b.intVal(); ok {
		if m, ok := atLeast(a); ok && m > n {
			return tFalse
		}
	}
	if isConst(b) {
		// boolean comparison
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return mkNot(a)
		}
		if a.Op == OConv && len(a.A) == 1 && isConst(b) && (a.A[0].T == nil || sameClass(a.A[0].T, a.T)) {
			return mkEq(a.A[0], b)
		}
		// len(s)==0 for strings
		if a.Op == OLen && b.S == "0" && isString(a.A[0].T) {
			return mkEq(a.A[0], cStr(""))
		}
		return mk(OBin, "==", 0, nil, nil, nil, types.Typ[types.Bool], a, b)
	}
	if a.Op == OObj && b.Op == OObj {
		return tFalse
	}
	if a.Op == OIface && b.Op == OIface {
		if a.S != b.S {
			return tFalse
		}
		return mkEq(a.A[0], b.A[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OBin, "==", 0, nil, nil, nil, types.Typ[types.Bool], a, b)
}

func sameClass(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	return ok1 && ok2 && x.Info() == y.Info()
}

// atLeast: a lower bound of a number built from counters and constants.
func atLeast(t *Term) (int64, bool) {
	if v, ok := t.intVal(); ok {
		return v, true
	}
	switch {
	case t.Op == OIdx || t.Op == OLen:
		return 0, true
	case t.Op == OBin && t.S == "+":
		x, ok1 := atLeast(t.A[0])
		y, ok2 := atLeast(t.A[1])
		return x + y, ok1 && ok2
	}
	return 0, false
}

func mkLt(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return cBool(x < y)
		}
		if b.Op == OLen {
			if x == 0 {
				return mkNot(mkEq(b, cInt(0)))
			}
			if x < 0 {
				return tTrue
			}
		}
	}
	if y, ok := b.intVal(); ok && a.Op == OLen {
		if y == 1 {
			return mkEq(a, cInt(0))
		}
		if y <= 0 {
			return tFalse
		}
	}
	if x, ok := a.intVal(); ok {
		if m, ok := atLeast(b); ok && x < m {
			return tTrue
		}
	}
	if y, ok := b.intVal(); ok {
		if m, ok := atLeast(a); ok && m >= y {
			return tFalse
		}
	}
	if a == b {
		return tFalse
	}
	return mk(OBin, "<", 0, nil, nil, nil, types.Typ[types.Bool], a, b)
}

func mkAdd(a, b *Term) *Term {
	x, ok1 := a.intVal()
	y, ok2 := b.intVal()
	if ok1 && ok2 {
		return cInt(x + y)
	}
	if ok1 {
		a, b = b, a
		x, ok1, y, ok2 = y, ok2, x, ok1
	}
	if ok2 {
		if y == 0 {
			return a
		}
		if a.Op == OBin && a.S == "+" {
			if z, ok := a.A[1].intVal(); ok {
				return mkAdd(a.A[0], cInt(z+y))
			}
		}
	}
	return mk(OBin, "+", 0, nil, nil, nil, a.T, a, b)
}

func mkBin(op token.Token, a, b *Term, ty types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkNot(mkLt(a, b))
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.ADD:
		if isString(ty) {
			return mkStrCat(a, b)
		}
		return mkAdd(a, b)
	case token.SUB:
		if y, ok := b.intVal(); ok {
			return mkAdd(a, cInt(-y))
		}
	}
	if isConst(a) && isConst(b) {
		x, ok1 := a.intVal()
		y, ok2 := b.intVal()
		if ok1 && ok2 {
			switch op {
			case token.SUB:
				return cInt(x - y)
			case token.MUL:
				return cInt(x * y)
			case token.QUO:
				if y != 0 {
					return cInt(x / y)
				}
			}
		}
		if op == token.AND || op == token.OR {
			if a == tTrue || a == tFalse {
				if op == token.AND {
					return cBool(a == tTrue && b == tTrue)
				}
				return cBool(a == tTrue || b == tTrue)
			}
		}
	}
	return mk(OBin, op.String(), 0, nil, nil, nil, ty, a, b)
}

func mkStrCat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		ps := []*Term{t}
		if t.Op == OBin && t.S == "cat" {
			ps = t.A
		}
		for _, p := range ps {
			if n := len(parts); n > 0 && isConst(p) && isConst(parts[n-1]) {
				x, _ := strconv.Unquote(parts[n-1].S)
				y, _ := strconv.Unquote(p.S)
				parts[n-1] = cStr(x + y)
			} else if isConst(p) && p.S == `""` {
				continue
			} else {
				parts = append(parts, p)
			}
		}
	}
	add(a)
	add(b)
	switch len(parts) {
	case 0:
		return cStr("")
	case 1:
		return parts[0]
	}
	return mk(OBin, "cat", 0, nil, nil, nil, types.Typ[types.String], parts...)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case OLit:
		return cInt(int64(len(t.A)))
	case OConst:
		if t.isNil() {
			return cInt(0)
		}
		if s, err := strconv.Unquote(t.S); err == nil {
			return cInt(int64(len(s)))
		}
	case OConv:
		if isString(t.T) || isString(t.A[0].T) {
			return mkLen(t.A[0])
		}
	case OMk:
		return t.A[0]
	case OUpd, OMix:
		if t.T == nil || !isMapType(t.T) {
			return mkLen(t.A[0])
		}
	case OColl:
		if info := collInfo(t); info != nil && info.Exhausted && t.L.Domain != nil && t.L.Kind == "" {
			one := true
			for _, c := range info.All {
				if len(c.Raw[t.S]) != 1 || c.Raw[t.S][0].Op == OBin && c.Raw[t.S][0].S == "spread" {
					one = false
				}
			}
			if one {
				return mkLen(t.L.Domain)
			}
		}
	case OCat:
		n := int64(0)
		all := true
		for _, s := range t.A {
			if v, ok := mkLen(s).intVal(); ok {
				n += v
			} else {
				all = false
			}
		}
		if all {
			return cInt(n)
		}
	}
	return mk(OLen, "", 0, nil, nil, nil, types.Typ[types.Int], t)
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func mkCat(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.isNil() || (s.Op == OLit && len(s.A) == 0) {
			continue
		}
		if s.Op == OCat {
			out = append(out, s.A...)
			continue
		}
		if s.Op == OLit && len(out) > 0 && out[len(out)-1].Op == OLit {
			l := out[len(out)-1]
			out[len(out)-1] = mkLit(append(append([]*Term{}, l.A...), s.A...)...)
			continue
		}
		out = append(out, s)
	}
	// merge adjacent literals
	var m []*Term
	for _, s := range out {
		if n := len(m); n > 0 && m[n-1].Op == OLit && s.Op == OLit {
			m[n-1] = mkLit(append(append([]*Term{}, m[n-1].A...), s.A...)...)
		} else {
			m = append(m, s)
		}
	}
	switch len(m) {
	case 0:
		return mkLit()
	case 1:
		return m[0]
	}
	return mk(OCat, "", 0, nil, nil, nil, nil, m...)
}

func mkLit(a ...*Term) *Term { return mk(OLit, "", 0, nil, nil, nil, nil, a...) }

func mkConv(t *Term, to types.Type) *Term {
	if t.T != nil && types.Identical(t.T, to) {
		return t
	}
	if isConst(t) {
		if _, ok := t.intVal(); ok {
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return t
			}
		}
		if isString(to) && strings.HasPrefix(t.S, `"`) {
			return t
		}
		if t.isNil() || t == tTrue || t == tFalse {
			return t
		}
	}
	if t.Op == OConv && len(t.A) == 1 && lossless(t) && t.A[0].T != nil && types.Identical(t.A[0].T.Underlying(), to.Underlying()) {
		return t.A[0]
	}
	return mk(OConv, typeStr(to), 0, nil, nil, nil, to, t)
}

// lossless: the conversion keeps apart what was apart.
func lossless(t *Term) bool {
	from, to := t.A[0].T, t.T
	if from == nil || to == nil {
		return true
	}
	f, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsUntyped != 0 {
		return true
	}
	if f.Info()&types.IsInteger == 0 {
		return f.Info()&types.IsNumeric == 0 || b.Info()&types.IsInteger == 0
	}
	if b.Info()&types.IsInteger == 0 {
		return false
	}
	return intWidth(b) >= intWidth(f)
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func mkIface(ct types.Type, v *Term) *Term {
	return mk(OIface, typeStr(ct), 0, nil, nil, nil, ct, v)
}

// ---- traversal ----

func (t *Term) has(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) contains(s *Term) bool { return t.has(func(x *Term) bool { return x == s }) }

// subst replaces sub-terms bottom-up, renormalising.
func (t *Term) subst(f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		if r := f(x); r != nil {
			memo[x] = r
			return r
		}
		ch := false
		a := make([]*Term, len(x.A))
		for i, y := range x.A {
			a[i] = rec(y)
			if a[i] != y {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, a)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func rebuild(x *Term, a []*Term) *Term {
	switch x.Op {
	case OFld:
		return mkFld(a[0], x.S, x.T)
	case ONot:
		return mkNot(a[0])
	case OLen:
		return mkLen(a[0])
	case OConv:
		return mkConv(a[0], x.T)
	case OTa:
		if a[0].Op == OIface && a[0].S == x.S {
			return a[0].A[0]
		}
	case OIs:
		return isT(a[0], x.S)
	case OCat:
		return mkCat(a...)
	case OBin:
		switch x.S {
		case "==":
			return mkEq(a[0], a[1])
		case "<":
			return mkLt(a[0], a[1])
		case "+":
			return mkAdd(a[0], a[1])
		}
	}
	return mk(x.Op, x.S, x.Inst, x.L, x.Fn, x.Names, x.T, a...)
}

// ---- printing ----

func (t *Term) String() string {
	if t.str == "" {
		t.str = t.render()
		if len(t.str) > 260 { // terms share structure, their text does not
			t.str = t.str[:200] + "…‹" + strconv.Itoa(int(t.ID)) + "›"
		}
	}
	return t.str
}

func joinTerms(a []*Term) string {
	s := make([]string, len(a))
	for i, x := range a {
		s[i] = x.String()
	}
	return strings.Join(s, ", ")
}

func (t *Term) render() string {
	switch t.Op {
	case OConst:
		return t.S
	case OIn:
		return t.S
	case OFld:
		return t.A[0].String() + "." + t.S
	case ODeref:
		return "*" + t.A[0].String()
	case OObj:
		return fmt.Sprintf("obj#%d<%s>", t.Inst, t.S)
	case OAddr:
		s := "&" + t.A[0].String() + "." + t.S
		if len(t.A) > 1 {
			s += "[" + t.A[1].String() + "]"
		}
		return s
	case OStruct, ONew:
		var b strings.Builder
		if t.Op == ONew {
			b.WriteByte('&')
		}
		b.WriteString(t.S)
		b.WriteByte('{')
		for i, n := range t.Names {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(n + ":" + t.A[i].String())
		}
		b.WriteByte('}')
		return b.String()
	case OZero:
		return t.S + "{}"
	case OLit:
		return "[" + joinTerms(t.A) + "]"
	case OCat:
		return "cat(" + joinTerms(t.A) + ")"
	case OCall:
		s := t.S + "(" + joinTerms(t.A) + ")"
		switch t.S {
		case "rcdb.NewRaccoonStore":
			return "graphstore"
		case "rcdb.NewObjStore":
			return "objstore"
		}
		if t.Inst > 0 {
			s += "@" + strconv.Itoa(t.Inst)
		}
		return s
	case ORes:
		return t.A[0].String() + "#" + t.S
	case OIs:
		return "is(" + t.A[0].String() + ", " + t.S + ")"
	case OTa:
		return t.A[0].String() + ".(" + t.S + ")"
	case OIface:
		return t.A[0].String()
	case OBin:
		if t.S == "cat" {
			s := make([]string, len(t.A))
			for i, x := range t.A {
				s[i] = x.String()
			}
			return "(" + strings.Join(s, "+") + ")"
		}
		if len(t.A) != 2 {
			n := ""
			if t.L != nil {
				n = t.L.name()
			}
			return t.S + n + "(" + joinTerms(t.A) + ")"
		}
		return "(" + t.A[0].String() + " " + t.S + " " + t.A[1].String() + ")"
	case ONot:
		return "!" + t.A[0].String()
	case OLen:
		return "len(" + t.A[0].String() + ")"
	case OConv:
		return t.S + "(" + t.A[0].String() + ")"
	case OElem:
		return "elem" + t.L.name() + "(" + t.A[0].String() + ")"
	case OKey:
		return "key" + t.L.name() + "(" + t.A[0].String() + ")"
	case OVal:
		return "val" + t.L.name() + "(" + t.A[0].String() + ")"
	case OIdx:
		return "i" + t.L.name()
	case OLv:
		return "var" + t.L.name() + "(" + t.S + ")"
	case OColl:
		return "collected" + t.L.name() + "(" + t.S + ")"
	case OIndex:
		return t.A[0].String() + "[" + t.A[1].String() + "]"
	case OSlice:
		return t.A[0].String() + "[" + t.A[1].String() + ":" + t.A[2].String() + "]"
	case OClosure:
		s := "func " + shortPath(t.Fn.String())
		if len(t.A) > 0 {
			s += "{" + joinTerms(t.A) + "}"
		}
		return s
	case OLookup:
		return "lookup" + t.S + "(" + joinTerms(t.A) + ")"
	case OHas:
		return "has" + t.S + "(" + joinTerms(t.A) + ")"
	case OGlob:
		return t.S
	case OTuple:
		return "(" + joinTerms(t.A) + ")"
	case OMk:
		return fmt.Sprintf("make#%d(%s)", t.Inst, t.A[0])
	case OMut:
		return "after(" + joinTerms(t.A) + ")"
	case OUpd:
		return "upd(" + joinTerms(t.A) + ")"
	case OMix:
		return "mix(" + joinTerms(t.A) + ")"
	case OWith:
		var b strings.Builder
		b.WriteString(t.A[0].String() + " with {")
		for i, n := range t.Names {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(n + ":" + t.A[i+1].String())
		}
		return b.String() + "}"
	}
	return "?"
}

func sortedFacts(m map[*Term]bool) []string {
	var s []string
	for t, v := range m {
		if v {
			s = append(s, t.String())
		} else {
			s = append(s, "!"+t.String())
		}
	}
	sort.Strings(s)
	return s
}

// strVal is the value of a string constant.
func (t *Term) strVal() (string, bool) {
	if t.Op != OConst || !strings.HasPrefix(t.S, `"`) {
		return "", false
	}
	s, err := strconv.Unquote(t.S)
	return s, err == nil
}

// each visits every subterm.
func (t *Term) each(f func(*Term)) { t.has(func(x *Term) bool { f(x); return false }) }

// walk visits a term and its parts.
func (t *Term) walk(f func(*Term)) {
	seen := map[*Term]bool{}
	var v func(*Term)
	v = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		f(x)
		for _, a := range x.A {
			v(a)
		}
	}
	v(t)
}
