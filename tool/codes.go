package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// Codes: how a sequence of bytes is put together from strings, and whether
// the strings can be told from the bytes.

type seg struct {
	kind  byte // c constant, f fixed width, v variable, d decimal number, q quoted or otherwise self-delimiting, x unknown
	b     string
	n     int
	val   *Term // what it determines
	len   *Term // the string whose length it is
	inner []seg
}

func (s seg) String() string {
	switch s.kind {
	case 'c':
		return strconv.Quote(s.b)
	case 'v':
		return s.val.String()
	case 'x':
		return "?" + s.b
	}
	w := ""
	if s.len != nil {
		w = "len " + s.len.String()
	} else if s.val != nil {
		w = s.val.String()
	} else {
		w = segStr(s.inner)
	}
	if s.kind == 'f' {
		return fmt.Sprintf("<%d bytes of %s>", s.n, w)
	}
	return string(s.kind) + "(" + w + ")"
}

func segStr(ss []seg) string {
	var o []string
	for _, s := range ss {
		o = append(o, s.String())
	}
	return strings.Join(o, " ")
}

func unknown(why string) []seg { return []seg{{kind: 'x', b: why}} }
func konst(s string) []seg     { return []seg{{kind: 'c', b: s}} }

type coder struct {
	c   *Check
	st  *State
	evs []*Event
}

// hashes that are collision resistant, and their width.
var hashWidth = map[string]int{"crypto/sha256.Sum256": 32, "crypto/sha512.Sum512": 64, "crypto/sha512.Sum384": 48, "crypto/sha512.Sum512_256": 32, "crypto/sha256.New": 32, "crypto/sha512.New": 64, "crypto/sha512.New384": 48, "crypto/sha512.New512_256": 32}

func strVal(t *Term) (string, bool) {
	if t.Op == OConst && strings.HasPrefix(t.S, `"`) {
		s, err := strconv.Unquote(t.S)
		return s, err == nil
	}
	return "", false
}

func stringy(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// bytes: how the value of t is put together.
func (k coder) bytes(t *Term) []seg {
	switch t.Op {
	case OIface:
		return k.bytes(t.A[0])
	case OConv:
		if stringy(t.T) && stringy(t.A[0].T) {
			return k.bytes(t.A[0])
		}
		return unknown(fmt.Sprintf("conversion %s %v %v", t, t.T, t.A[0].T))
	case OConst:
		if t == tNil {
			return nil
		}
		if s, ok := strVal(t); ok {
			return konst(s)
		}
		return unknown(t.String())
	case OLit:
		var out []seg
		for _, x := range t.A {
			out = append(out, k.number(x, 1)...)
		}
		return out
	case OCat:
		var out []seg
		for _, x := range t.A {
			out = append(out, k.bytes(x)...)
		}
		return out
	case OBin:
		switch {
		case (t.S == "+" || t.S == "cat") && stringy(t.T):
			var out []seg
			for _, x := range t.A {
				out = append(out, k.bytes(x)...)
			}
			return out
		case t.S == "ref":
			return k.bytes(t.A[0])
		}
	case OZero, ONew:
		if strings.HasSuffix(t.S, "bytes.Buffer") || strings.HasSuffix(t.S, "strings.Builder") {
			return nil
		}
		return unknown(t.String())
	case OMk:
		if n, ok := t.A[0].intVal(); ok {
			return konst(strings.Repeat("\x00", int(n)))
		}
		return unknown(t.String())
	case OSlice:
		if len(t.A) == 3 && (t.A[2] == tNil || t.A[2] == mkLen(t.A[0])) && (t.A[1] == tNil || t.A[1] == cInt(0)) {
			return k.bytes(t.A[0])
		}
		return unknown(t.String())
	case OMut:
		if len(t.A) == 1 { // an object after a call
			r := strip(t.A[0])
			return append(append([]seg{}, k.bytes(strip(r.A[0]))...), k.written(r.S, r.A)...)
		}
		if len(t.A) == 2 && t.A[1].Op == OCall {
			r := t.A[1]
			for _, w := range []int{2, 4, 8} {
				if strings.HasSuffix(r.S, fmt.Sprintf(").PutUint%d", 8*w)) && mkLen(t.A[0]) == cInt(int64(w)) {
					return k.number(r.A[2], w)
				}
			}
		}
		return unknown(t.String())
	case OCall:
		return k.call(t)
	case ORes:
		if t.S == "0" && t.A[0].Op == OCall && strings.HasSuffix(t.A[0].S, ".Write") {
			return unknown(t.String())
		}
	}
	if stringy(t.T) {
		return []seg{{kind: 'v', val: t}}
	}
	return unknown(t.String())
}

// number: an integer in w bytes.
func (k coder) number(t *Term, w int) []seg {
	if t.Op == OIface {
		return k.number(t.A[0], w)
	}
	if v, ok := t.intVal(); ok {
		b := make([]byte, w)
		for i := range b {
			b[w-1-i] = byte(v >> (8 * i))
		}
		return konst(string(b))
	}
	x := t
	for x.Op == OConv {
		x = x.A[0]
	}
	if x.Op == OLen {
		if w < 4 || narrow(t) {
			return unknown("a length in " + strconv.Itoa(w) + " bytes or less")
		}
		return []seg{{kind: 'f', n: w, len: x.A[0]}}
	}
	if w < 4 || narrow(t) { // only if every value of the type fits
		if !k.small(x.T) {
			return unknown("truncated " + x.String())
		}
	}
	return []seg{{kind: 'f', n: w, val: x}}
}

// narrow: a conversion to less than 32 bits on the way.
func narrow(t *Term) bool {
	for t.Op == OConv {
		if b, ok := t.T.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8, types.Int8, types.Uint16, types.Int16:
				return true
			}
		}
		t = t.A[0]
	}
	return false
}

// small: a byte, or an enumeration all of whose values fit one.
func (k coder) small(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	cnt := 0
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), t) {
			v, exact := constant.Int64Val(c.Val())
			if !exact || v < 0 || v > 255 {
				return false
			}
			cnt++
		}
	}
	return cnt > 0
}

func fixedWidth(ss []seg) (int, bool) {
	n := 0
	for _, s := range ss {
		switch s.kind {
		case 'c':
			n += len(s.b)
		case 'f':
			n += s.n
		default:
			return 0, false
		}
	}
	return n, true
}

func (k coder) call(t *Term) []seg {
	name := t.S
	args := t.A
	switch {
	case hashWidth[name] > 0 && strings.Contains(name, ".Sum"):
		return []seg{{kind: 'f', n: hashWidth[name], inner: k.bytes(args[0])}}
	case strings.HasSuffix(name, "hash.Hash.Sum"):
		h := strip(args[0])
		w := hashWidth[h.S]
		if h.Op != OCall || w == 0 {
			return unknown("hash " + h.String())
		}
		in := k.writes(h, t)
		return append(append([]seg{}, k.bytes(args[1])...), seg{kind: 'f', n: w, inner: in})
	case strings.HasSuffix(name, ".EncodeToString"):
		in := k.bytes(args[len(args)-1])
		n, ok := fixedWidth(in)
		if !ok {
			return []seg{{kind: 'v', val: t, inner: in}}
		}
		return []seg{{kind: 'f', n: 2 * n, inner: in}}
	case strings.Contains(name, "Endian).AppendUint"):
		w, _ := strconv.Atoi(name[strings.LastIndex(name, "Uint")+4:])
		return append(append([]seg{}, k.bytes(args[1])...), k.number(args[2], w/8)...)
	case name == "encoding/binary.AppendUvarint":
		ss := k.number(args[1], 8)
		for i := range ss {
			ss[i].kind = map[bool]byte{true: 'q', false: 'x'}[ss[i].kind == 'f' || ss[i].kind == 'c']
		}
		return append(append([]seg{}, k.bytes(args[0])...), ss...)
	case name == "strings.Join" || name == "bytes.Join":
		l := strip(args[0])
		if l.Op != OLit {
			return unknown(t.String())
		}
		var out []seg
		for i, x := range l.A {
			if i > 0 {
				out = append(out, k.bytes(args[1])...)
			}
			out = append(out, k.bytes(x)...)
		}
		return out
	case name == "fmt.Sprintf" || name == "fmt.Append" || name == "fmt.Sprint":
		return k.format(name, args)
	case name == "strconv.Itoa":
		return k.decimal(args[0])
	case name == "strconv.FormatInt" || name == "strconv.FormatUint":
		return k.decimal(args[0])
	case name == "strconv.Quote":
		return []seg{{kind: 'q', val: args[0]}}
	case (strings.HasSuffix(name, ").Bytes") || strings.HasSuffix(name, ").String")) && (strings.Contains(name, "bytes.Buffer") || strings.Contains(name, "strings.Builder")):
		return k.bytes(strip(args[0]))
	case name == "bytes.Clone" || name == "slices.Clone" || name == "strings.Clone":
		return k.bytes(args[0])
	}
	if stringy(t.T) && (t.Inst == 0 && len(t.A) == 0 || strings.HasPrefix(name, "rec:")) {
		return []seg{{kind: 'v', val: t}}
	}
	return unknown(t.String())
}

func (k coder) decimal(t *Term) []seg {
	x := t
	for x.Op == OConv || x.Op == OIface {
		x = x.A[0]
	}
	if v, ok := x.intVal(); ok {
		return konst(strconv.FormatInt(v, 10))
	}
	if narrow(t) {
		return unknown("truncated " + x.String())
	}
	if x.Op == OLen {
		return []seg{{kind: 'd', len: x.A[0]}}
	}
	return []seg{{kind: 'd', val: x}}
}

// format: what the formatting functions put together.
func (k coder) format(name string, args []*Term) []seg {
	if strings.HasSuffix(name, "print") || strings.HasSuffix(name, "Append") {
		l := strip(args[len(args)-1])
		if l.Op != OLit {
			return unknown(name)
		}
		var out []seg
		for _, x := range l.A {
			if !stringy(strip(x).T) && strip(x).Op != OConst {
				return unknown(name)
			}
			out = append(out, k.bytes(x)...)
		}
		return out
	}
	f, ok := strVal(strip(args[0]))
	var l *Term = mk(OLit, "", 0, nil, nil, nil, nil)
	if len(args) > 1 && args[1] != tNil {
		l = strip(args[1])
	}
	if !ok || l.Op != OLit {
		return unknown(name)
	}
	var out []seg
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, konst(string(f[i]))...)
			continue
		}
		i++
		w := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			w = 10*w + int(f[i]-'0')
			i++
		}
		if i >= len(f) {
			return unknown(f)
		}
		if f[i] == '%' {
			out = append(out, konst("%")...)
			continue
		}
		if n >= len(l.A) {
			return unknown(f)
		}
		x := l.A[n]
		n++
		for x.Op == OIface {
			x = x.A[0]
		}
		switch {
		case strings.IndexByte("svq", f[i]) >= 0 && w != 0:
			return unknown(f)
		case f[i] == 'q':
			out = append(out, seg{kind: 'q', val: x})
		case strings.IndexByte("sv", f[i]) >= 0 && stringy(x.T) && (isString(x.T) || f[i] == 's'):
			out = append(out, k.bytes(x)...)
		case strings.IndexByte("dv", f[i]) >= 0 && !stringy(x.T):
			if _, ok := x.T.Underlying().(*types.Basic); !ok {
				return unknown(f)
			}
			out = append(out, k.decimal(x)...)
		case f[i] == 'x' && stringy(x.T) && w == 0:
			in := k.bytes(x)
			if m, ok := fixedWidth(in); ok {
				out = append(out, seg{kind: 'f', n: 2 * m, inner: in})
			} else {
				out = append(out, seg{kind: 'v', val: x})
			}
		default:
			return unknown(f)
		}
	}
	return out
}

// written: what a call to write appends to its first argument.
func (k coder) written(name string, args []*Term) []seg {
	m := name[strings.LastIndexByte(name, '.')+1:]
	switch {
	case m == "Write" && name != "encoding/binary.Write", m == "WriteString":
		return k.bytes(args[1])
	case m == "WriteByte":
		return k.number(args[1], 1)
	case m == "Fprintf":
		return k.format("fmt.Sprintf", args[1:])
	case m == "Fprint":
		return k.format("fmt.Sprint", args[1:])
	case name == "encoding/binary.Write":
		x := args[2]
		for x.Op == OIface {
			x = x.A[0]
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint64, types.Int64:
				return k.number(x, 8)
			case types.Uint32, types.Int32:
				return k.number(x, 4)
			case types.Uint8:
				return k.number(x, 1)
			}
		}
		return unknown("binary.Write of " + x.String())
	case m == "Grow":
		return nil
	}
	return unknown(name)
}

// writes: what was written to h before the call until.
func (k coder) writes(h, until *Term) []seg {
	var out []seg
	for _, e := range k.evs {
		if e.Res == until {
			return out
		}
		if e.Kind == "loop" {
			touched := false
			walkEvs([]*Event{e}, Ctx{}, nil, nil, func(w where) {
				for _, a := range w.ev.Args {
					touched = touched || w.ev.Kind == "call" && a.has(func(t *Term) bool { return t == h })
				}
			})
			if touched {
				out = append(out, unknown("written in a loop")...)
			}
			continue
		}
		if e.Kind != "call" || e.Res == h || len(e.Args) == 0 {
			continue
		}
		if strip(e.Args[0]) == h {
			m := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
			switch m {
			case "Reset":
				out = nil
			case "Sum", "Size", "BlockSize":
			default:
				out = append(out, k.written(e.Name, e.Args)...)
			}
			continue
		}
		for _, a := range e.Args {
			if a.has(func(t *Term) bool { return t == h }) {
				out = append(out, unknown(e.Name)...)
			}
		}
	}
	return out
}

// decode: what can be told from the bytes; self: also if anything follows them.
func decode(ss []seg) (known map[*Term]bool, self bool, err string) {
	known, self = map[*Term]bool{}, true
	lens := map[*Term]bool{}
	for i, s := range ss {
		switch s.kind {
		case 'c':
		case 'f', 'q', 'd':
			if s.kind == 'd' {
				if i+1 == len(ss) {
					self = false
				} else if n := ss[i+1]; n.kind != 'c' || n.b == "" || n.b[0] >= '0' && n.b[0] <= '9' {
					return known, false, "a number runs into " + n.String()
				}
			}
			if s.len != nil {
				lens[strip(s.len)] = true
			}
			if s.val != nil {
				known[strip(s.val)] = true
			}
			if s.inner != nil {
				in, _, e := decode(s.inner)
				if e != "" {
					return known, false, e
				}
				for t := range in {
					known[t] = true
				}
			}
		case 'v':
			if !lens[strip(s.val)] {
				self = false
				if _, ok := fixedWidth(ss[i+1:]); !ok {
					return known, false, fmt.Sprintf("the end of %s cannot be told", s.val)
				}
			}
			known[strip(s.val)] = true
			if s.inner != nil {
				in, _, e := decode(s.inner)
				if e != "" {
					return known, false, e
				}
				for t := range in {
					known[t] = true
				}
			}
		default:
			return known, false, "not understood: " + s.String()
		}
	}
	return known, self, ""
}

// disjoint: no string of one code is, or starts with, one of the other.
func disjoint(a, b []seg) bool {
	type pos struct {
		b    int
		s    *seg
		head bool
	}
	flat := func(ss []seg) (out []pos) {
		for i := range ss {
			switch s := &ss[i]; s.kind {
			case 'c':
				for j := 0; j < len(s.b); j++ {
					out = append(out, pos{b: int(s.b[j])})
				}
			case 'f':
				for j := 0; j < s.n; j++ {
					out = append(out, pos{-1, s, j == 0})
				}
			default:
				return
			}
		}
		return
	}
	x, y := flat(a), flat(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].b >= 0 && y[i].b >= 0 && x[i].b != y[i].b {
			return true
		}
		if x[i].head && y[i].head && x[i].s.n == y[i].s.n && x[i].s.inner != nil && y[i].s.inner != nil && disjoint(x[i].s.inner, y[i].s.inner) {
			return true
		}
	}
	return false
}

func sameCode(a, b []seg) bool { return segStr(a) == segStr(b) }
