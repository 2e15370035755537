package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "Lexing and parsing of relation expressions against the documented grammar. Lexer: the goroutine started by Parse is analysed from the memory it starts with; its main loop keeps one position (all position variables are shown equal at its head); every iteration and every way out is compared with the token the grammar defines at that position, decided from the conditions on the characters there (maximal identifiers, longest operator, whole-word _this), with its text and where it leaves the position. Parser: the recursive nonterminal is analysed with its recursive calls kept as calls; on every path term, operator and tail are compared with what the token kinds tested on that path define, its loop must consume one operator and one term per iteration, stop only where none follows, and build the tree to the left. Parse must collect every token, and accept exactly if there is no lexing error, the expression parses, and nothing but the end of input is left.", checkC19)
}

const exprParse = "relation_expression_parser.Parse"

// ---- lexer ----

// lexemes of the documented language which are not words, longest first.
var lexemes = []struct{ role, text string }{
	{"arrow", "->"}, {"group begin", "("}, {"group end", ")"}, {"union", "+"}, {"difference", "-"}, {"intersection", "&"},
}

// scanner relates the terms of one iteration to positions in the input.
type scanner struct {
	c     *Check
	input *Term
	main  *Loop
	class map[string]string // position variables of the main loop -> representative
	p     *Term             // the position at the head of the loop
	roles map[string]*Term
	fn    *ssa.Function
}

// at is a path's view: positions by name.
type scanAt struct {
	*scanner
	st   *State
	evs  []*Event
	memo map[*Term]string
}

func (s *scanner) at(st *State, evs []*Event) *scanAt {
	return &scanAt{s, st, evs, map[*Term]string{}}
}

func (s *scanner) canon(t *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.Op == OLv && x.L == s.main {
			if r, ok := s.class[x.S]; ok && r != x.S {
				return mk(OLv, r, 0, s.main, nil, nil, x.T)
			}
		}
		return nil
	})
}

// decoded: is t the i-th result of decoding the rune of the input at x?
func (s *scanner) decoded(t *Term, i string) (*Term, bool) {
	if t.Op == ORes && t.S == i && t.A[0].Op == OCall && (t.A[0].S == "unicode/utf8.DecodeRuneInString" || t.A[0].S == "unicode/utf8.DecodeRune") {
		return s.suffix(t.A[0].A[0])
	}
	return nil, false
}

// suffix: is t the input from position x?
func (s *scanner) suffix(t *Term) (*Term, bool) {
	t = strip(t)
	if t == s.input {
		return cInt(0), true
	}
	if t.Op == OSlice && strip(t.A[0]) == s.input && t.A[2].isNil() {
		return t.A[1], true
	}
	return nil, false
}

// pos names a position: p, then a for every rune stepped over and r<loop> for
// every loop that steps over runes.
func (s *scanAt) pos(t *Term) string {
	if k, ok := s.memo[t]; ok {
		return k
	}
	s.memo[t] = "?" + t.String()
	k := s.pos1(s.canon(t))
	s.memo[t] = k
	return k
}

func (s *scanAt) pos1(t *Term) string {
	if t == s.p {
		return "p"
	}
	if t.Op == OBin && t.S == "+" {
		for i := 0; i < 2; i++ {
			if x, ok := s.decoded(t.A[1-i], "1"); ok && (s.canon(x) == t.A[i]) {
				return s.pos(t.A[i]) + "a"
			}
		}
		if n, ok := t.A[1].intVal(); ok && n > 0 && n < 8 {
			k := s.pos(t.A[0])
			for i := int64(0); i < n; i++ {
				if !s.narrow(k) {
					return "?" + t.String()
				}
				k += "a"
			}
			return k
		}
	}
	if t.Op == OLv && t.L != s.main && t.L != nil {
		if in := t.L.init[t.S]; in != nil && s.runs(t) {
			return s.pos(in) + fmt.Sprintf("r%d.", t.L.ID)
		}
	}
	return "?" + t.String()
}

// narrow: the rune at k is known to be one byte long.
func (s *scanAt) narrow(k string) bool {
	r, ok := s.runeAt(k)
	return ok && r < utf8.RuneSelf
}

// runs: every iteration of t's loop steps over one rune.
func (s *scanAt) runs(t *Term) bool {
	for _, cs := range t.L.cases {
		n := cs.Next[t.S]
		if n == nil {
			return false
		}
		n = s.canon(n)
		if !(n.Op == OBin && n.S == "+") {
			return false
		}
		ok := false
		for i := 0; i < 2; i++ {
			if x, is := s.decoded(n.A[1-i], "1"); is && x == n.A[i] && x == t {
				ok = true
			}
		}
		if d, is := n.A[1].intVal(); is && d == 1 && n.A[0] == t {
			// one byte: the rune must be known to be one
			in := &scanAt{s.scanner, cs.St, cs.Evs, map[*Term]string{t: "q"}}
			ok = in.narrow("q")
		}
		if !ok {
			return false
		}
	}
	return true
}

// a test of the input at a named position.
type runeFact struct {
	k    string // position
	what string // end, rune, IsLetter, ...
	r    rune
	s    string
	to   string
}

// reads a fact about the input.
func (s *scanAt) test(f *Term, v bool) (runeFact, bool, bool) {
	f = s.canon(f)
	one := func(t *Term) (string, bool) { // the rune (or byte) at a position
		t = strip(t)
		if x, ok := s.decoded(t, "0"); ok {
			return s.pos(x), true
		}
		if t.Op == OIndex && strip(t.A[0]) == s.input {
			return s.pos(t.A[1]), true
		}
		if t.Op == OIndex && t.A[1] == cInt(0) {
			if x, ok := s.suffix(t.A[0]); ok {
				return s.pos(x), true
			}
		}
		return "", false
	}
	switch {
	case isEqTerm(f):
		for i := 0; i < 2; i++ {
			a, b := f.A[i], f.A[1-i]
			if a.Op == OLen && strip(a.A[0]) == s.input {
				return runeFact{k: s.pos(b), what: "end"}, v, true
			}
			if a.Op == OLen && b == cInt(0) {
				if x, ok := s.suffix(a.A[0]); ok {
					return runeFact{k: s.pos(x), what: "end"}, v, true
				}
			}
			if n, ok := b.intVal(); ok {
				if k, ok := one(a); ok {
					if strip(a).Op == OIndex && n >= utf8.RuneSelf {
						continue
					}
					return runeFact{k: k, what: "rune", r: rune(n)}, v, true
				}
			}
			if c, ok := strVal(b); ok && a.Op == OSlice && strip(a.A[0]) == s.input {
				if a.A[2].isNil() {
					return runeFact{k: s.pos(a.A[1]), what: "rest", s: c}, v, true
				}
				return runeFact{k: s.pos(a.A[1]), what: "text", s: c, to: s.pos(a.A[2])}, v, true
			}
		}
	case f.Op == OBin && f.S == "<" && f.A[1].Op == OLen && strip(f.A[1].A[0]) == s.input:
		return runeFact{k: s.pos(f.A[0]), what: "end"}, !v, true // positions do not exceed the length
	case f.Op == OCall && len(f.A) == 1 && strings.HasPrefix(f.S, "unicode.Is"):
		if k, ok := one(f.A[0]); ok {
			return runeFact{k: k, what: f.S[len("unicode."):]}, v, true
		}
	case f.Op == OCall && f.S == "strings.HasPrefix":
		if c, ok := strVal(f.A[1]); ok {
			if x, ok := s.suffix(f.A[0]); ok {
				return runeFact{k: s.pos(x), what: "prefix", s: c}, v, true
			}
		}
	}
	return runeFact{}, false, false
}

func isEqTerm(t *Term) bool { return t.Op == OBin && t.S == "==" && len(t.A) == 2 }

func (s *scanAt) facts(k string, f func(runeFact, bool)) {
	for t, v := range s.st.facts {
		if rf, v, ok := s.test(t, v); ok {
			if rf.k == k {
				f(rf, v)
			}
			if rf.what == "prefix" && v { // what it says about later positions
				j := rf.k
				for i, r := range rf.s {
					if r >= utf8.RuneSelf {
						break
					}
					if i > 0 {
						j += "a"
					}
					if j == k {
						f(runeFact{k: k, what: "rune", r: r}, true)
					}
				}
			}
		}
	}
}

func (s *scanAt) runeAt(k string) (r rune, ok bool) {
	s.facts(k, func(f runeFact, v bool) {
		if f.what == "rune" && v && f.r >= 0 {
			r, ok = f.r, true
		}
	})
	return
}

func identRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }

var runePred = map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace}

// end: is position k the end of the input?
func (s *scanAt) end(k string) tri {
	r := tU
	s.facts(k, func(f runeFact, v bool) {
		switch {
		case f.what == "end":
			r = boolTri(v, true)
		case v && (f.what == "rune" && f.r >= 0 || f.what == "prefix" && f.s != "" || runePred[f.what] != nil):
			if r == tU {
				r = tF
			}
		}
	})
	return r
}

// is: does the rune at k satisfy pred, one of the classes that do not overlap
// with each other?
func (s *scanAt) pred(k, name string) tri {
	if s.end(k) == tT {
		return tF
	}
	if r, ok := s.runeAt(k); ok {
		return boolTri(runePred[name](r), true)
	}
	res := tU
	s.facts(k, func(f runeFact, v bool) {
		switch {
		case f.what == name:
			res = boolTri(v, true)
		case runePred[f.what] != nil && v && res == tU:
			res = tF // no rune is two of letter, digit and space
		}
	})
	return res
}

func (s *scanAt) rune(k string, c rune) tri {
	if s.end(k) == tT {
		return tF
	}
	res := tU
	s.facts(k, func(f runeFact, v bool) {
		switch {
		case f.what == "rune" && f.r == c:
			res = boolTri(v, true)
		case f.what == "rune" && v && f.r != c && res == tU:
			res = tF
		case f.what == "prefix" && !v && f.s == string(c):
			res = tF
		case runePred[f.what] != nil && v != runePred[f.what](c) && res == tU:
			res = tF
		}
	})
	return res
}

func (s *scanAt) ident(k string) tri {
	return or3(s.pred(k, "IsLetter"), s.pred(k, "IsDigit"), s.rune(k, '_'))
}

func or3(ts ...tri) tri {
	r := tF
	for _, t := range ts {
		if t == tT {
			return tT
		}
		if t == tU {
			r = tU
		}
	}
	return r
}

func and3(ts ...tri) tri {
	r := tT
	for _, t := range ts {
		if t == tF {
			return tF
		}
		if t == tU {
			r = tU
		}
	}
	return r
}

// prefix: does text begin at k?
func (s *scanAt) prefix(k, text string) tri {
	res := tU
	s.facts(k, func(f runeFact, v bool) {
		if f.what == "prefix" && f.s == text || f.what == "prefix" && strings.HasPrefix(text, f.s) && !v {
			res = boolTri(v, true)
		}
		if f.what == "prefix" && v && strings.HasPrefix(f.s, text) {
			res = tT
		}
	})
	if res != tU {
		return res
	}
	res = tT
	for _, r := range text {
		res = and3(res, s.rune(k, r))
		k += "a"
	}
	return res
}

// steps splits a position into its steps from p.
func (s *scanAt) steps(k string, f func(at string, loop int) bool) bool {
	if !strings.HasPrefix(k, "p") {
		return false
	}
	at, rest := "p", k[1:]
	for rest != "" {
		if rest[0] == 'a' {
			if !f(at, 0) {
				return false
			}
			at, rest = at+"a", rest[1:]
			continue
		}
		i := strings.IndexByte(rest, '.')
		n := 0
		fmt.Sscanf(rest[1:i], "%d", &n)
		if !f(at, n) {
			return false
		}
		at, rest = at+rest[:i+1], rest[i+1:]
	}
	return true
}

func (s *scanAt) loop(id int) (l *Loop) {
	for _, ev := range s.evs {
		if ev.Kind == "loop" && ev.Loop.L.ID == id {
			l = ev.Loop.L
		}
	}
	return
}

// every: all runes stepped over from p to k satisfy the class.
func (s *scanAt) every(k string, class func(*scanAt, string) tri) bool {
	return s.steps(k, func(at string, loop int) bool {
		if loop == 0 {
			return class(s, at) == tT
		}
		l := s.loop(loop)
		if l == nil {
			return false
		}
		for _, cs := range l.cases {
			ok := false
			for key := range cs.Next { // the variable that runs
				v := mk(OLv, key, 0, l, nil, nil, types.Typ[types.Int])
				if !s.runs(v) {
					continue
				}
				in := &scanAt{s.scanner, cs.St, cs.Evs, map[*Term]string{v: "q"}}
				if class(in, "q") == tT {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	})
}

// word is what the grammar defines at the head position.
func (s *scanAt) word() (kind, text string, ok bool) {
	for _, l := range lexemes {
		switch s.prefix("p", l.text) {
		case tT:
			return l.role, l.text, true
		case tU:
			return "", "", false
		}
	}
	for _, k := range []struct {
		name string
		v    tri
	}{{"word", s.ident("p")}, {"space", s.pred("p", "IsSpace")}, {"end", s.end("p")}} {
		switch k.v {
		case tT:
			return k.name, "", true
		case tU:
			return "", "", false
		}
	}
	return "error", "", true
}

// role: a token of this role has this kind, and no other role has it.
func (s *scanner) role(name string, kind *Term) bool {
	if kind == nil || !isConst(kind) {
		return false
	}
	for r, k := range s.roles {
		if r == name && k != kind || r != name && k == kind {
			return false
		}
	}
	s.roles[name] = kind
	return true
}

// step judges what happens at one position: the tokens sent, and next, the
// position after it (empty if the lexer ends).
func (s *scanAt) step(sends []*Event, next string, pos string) {
	c := s.c
	rule := "C19.token"
	for t, v := range s.st.facts {
		if f, v, ok := s.test(t, v); ok && v && f.what == "rune" && f.r < 0 {
			return // no rune is negative
		}
	}
	kind, text, ok := s.word()
	desc := s.brief()
	who := fname(s.fn)
	if !c.req(ok, rule, who, pos, "the path does not decide which token stands at the position: %s", desc) {
		return
	}
	if kind == "space" {
		c.req(len(sends) == 0 && next != "" && next != "p" && s.every(next, func(x *scanAt, k string) tri { return x.pred(k, "IsSpace") }),
			rule, who, pos, "white space must be skipped, and nothing else: %d tokens, continues at %s: %s", len(sends), next, desc)
		return
	}
	if !c.req(len(sends) == 1, rule, who, pos, "%d tokens where the grammar has one (%s): %s", len(sends), kind, desc) {
		return
	}
	tok := strip(sends[0].Args[1])
	typ, lex := tokenParts(tok)
	if kind == "end" || kind == "error" {
		c.req(next == "", rule, who, c.posOf(sends[0]), "the lexer goes on after %s", kind)
		c.req(s.role(kind, typ), rule, who, c.posOf(sends[0]), "kind %s of the token for %s is also used otherwise: %v", show(typ), kind, s.roles)
		return
	}
	if !c.req(next != "", rule, who, c.posOf(sends[0]), "the lexer ends after %s: %s", kind, desc) {
		return
	}
	to := "p"
	role := kind
	if kind == "word" {
		to = next
		ok := s.every(to, func(x *scanAt, k string) tri { return x.ident(k) }) && to != "p" && s.ident(to) == tF
		c.req(ok, rule, who, c.posOf(sends[0]), "an identifier must extend over all identifier characters and no others; it ends at %s: %s", to, desc)
		this := tU
		s.facts("p", func(f runeFact, v bool) {
			if f.what == "text" && f.s == "_this" && f.to == to {
				this = boolTri(v, true)
			}
		})
		switch this {
		case tT:
			role = "this"
		case tF:
			role = "identifier"
		default:
			// undecided unless one of its runes tells
			if s.rune("p", '_') == tF {
				role = "identifier"
			} else {
				c.req(false, rule, who, c.posOf(sends[0]), "the word is not compared with _this: %s", desc)
				return
			}
		}
	} else {
		for range text {
			to += "a"
		}
		c.req(next == to, rule, who, c.posOf(sends[0]), "after %s the lexer continues at %s: %s", kind, next, desc)
	}
	c.req(s.role(role, typ), rule, who, c.posOf(sends[0]), "the token for %s has kind %s, which stands for something else as well: %v", role, show(typ), s.roles)
	good := lex != nil && lex.Op == OSlice && strip(lex.A[0]) == s.input && s.pos(lex.A[1]) == "p" && s.pos(lex.A[2]) == to
	if cs, ok := strValOpt(lex); ok {
		good = cs == text && text != "" || cs == "_this" && role == "this"
	}
	if kind != "word" {
		good = true // only the text of words is used
	}
	c.req(good, rule, who, c.posOf(sends[0]), "the text of the token is %s: %s", show(lex), desc)
}

func strValOpt(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return strVal(t)
}

func show(t *Term) string {
	if t == nil {
		return "nothing"
	}
	return t.String()
}

func (s *scanAt) brief() string {
	var fs []string
	for t, v := range s.st.facts {
		if f, v, ok := s.test(t, v); ok {
			x := fmt.Sprintf("%s at %s", f.what, f.k)
			switch f.what {
			case "rune":
				x = fmt.Sprintf("%s is %q", f.k, f.r)
			case "text", "prefix":
				x = fmt.Sprintf("text at %s is %q", f.k, f.s)
			}
			if !v {
				x = "not " + x
			}
			fs = append(fs, x)
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, ", ")
}

// tokenParts: the kind (of a named integer type) and the text of a token.
func tokenParts(t *Term) (kind, text *Term) {
	st, ok := tokenStruct(t.T)
	if !ok {
		return
	}
	kf, tf := tokenFields(st)
	return partOf(t, kf), partOf(t, tf)
}

func tokenStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func tokenFields(st *types.Struct) (kind, text string) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		b, ok := f.Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		if _, named := f.Type().(*types.Named); named && b.Info()&types.IsInteger != 0 && kind == "" {
			kind = f.Name()
		}
		if b.Info()&types.IsString != 0 && text == "" {
			text = f.Name()
		}
	}
	return
}

// partOf: a field of a viewed struct.
func partOf(t *Term, name string) *Term {
	t = strip(t)
	if t.Op == ONew || t.Op == OStruct {
		for i, n := range t.Names {
			if n == name {
				return t.A[i]
			}
		}
		return nil
	}
	if t.Op == OZero {
		return nil
	}
	return fld(t, name)
}

// congruent partitions the variables of a loop into classes that are equal at
// every visit of its head.
func congruent(l *Loop) map[string]string {
	class := map[string]string{}
	by := map[string][]string{}
	var keys []string
	for k, t := range l.init {
		keys = append(keys, k)
		by[t.String()] = append(by[t.String()], k)
	}
	sort.Strings(keys)
	for _, ks := range by {
		sort.Strings(ks)
		for _, k := range ks {
			class[k] = ks[0]
		}
	}
	for {
		sub := func(t *Term) *Term {
			return t.subst(func(x *Term) *Term {
				if x.Op == OLv && x.L == l {
					if r, ok := class[x.S]; ok && r != x.S {
						return mk(OLv, r, 0, l, nil, nil, x.T)
					}
				}
				return nil
			})
		}
		sig := map[string][]string{}
		for _, k := range keys {
			s := class[k]
			for _, cs := range l.cases {
				n := cs.Next[k]
				if n == nil {
					n = mk(OLv, k, 0, l, nil, nil, nil)
				}
				s += fmt.Sprintf("|%d", sub(n).ID)
			}
			sig[s] = append(sig[s], k)
		}
		next := map[string]string{}
		changed := false
		for _, ks := range sig {
			for _, k := range ks {
				next[k] = ks[0]
				if next[k] != class[k] {
					changed = true
				}
			}
		}
		class = next
		if !changed {
			return class
		}
	}
}

// lexer judges the goroutine that sends the tokens; it returns the kinds of
// the tokens by role, and the channel.
func (c *Check) lexer(goEv *Event, input *Term) (roles map[string]*Term, ch *Term) {
	const rule = "C19.lexer"
	if !c.req(goEv.Res != nil && goEv.Res.Op == OClosure, rule, exprParse, c.posOf(goEv), "the goroutine is not a known function") {
		return nil, nil
	}
	f := goEv.Res.Fn
	cfg := stdConfig()
	cfg.Peel = true
	st := goEv.St.clone()
	st.ev = nil
	outs := c.runClosure(f, cfg, goEv.Raw, goEv.Res.A, st)
	roles = map[string]*Term{}
	seen := map[*Loop]bool{}
	for _, o := range outs {
		if !c.req(o.Kind == "return", rule, fname(f), c.fpos(f), "the lexer may panic: %s", o.brief()) {
			continue
		}
		var main *Event
		var after []*Event
		closed := 0
		okOrder := true
		for _, ev := range o.Evs {
			switch ev.Kind {
			case "loop":
				if main == nil {
					main = ev
				} else {
					after = append(after, ev)
				}
			case "send":
				if main == nil || closed > 0 {
					okOrder = false
				}
				after = append(after, ev)
			case "close":
				closed++
				if ch == nil {
					ch = ev.Args[0]
				}
				okOrder = okOrder && ch == ev.Args[0]
			}
		}
		c.req(okOrder && closed == 1, rule, fname(f), c.fpos(f), "the channel of tokens must be closed once, after the last token: %s", o.brief())
		if !c.req(main != nil, rule, fname(f), c.fpos(f), "no loop over the input: %s", o.brief()) {
			continue
		}
		L := main.Loop.L
		s := &scanner{c: c, input: input, main: L, class: congruent(L), roles: roles, fn: f}
		s.p = c.headPos(s)
		if !c.req(s.p != nil, rule, fname(f), c.fpos(f), "the position at the head of the loop is not a single one that starts at 0: %v", L.init) {
			return
		}
		if !seen[L] {
			seen[L] = true
			c.req(len(L.cases) >= 6, rule, fname(f), c.fpos(f), "the loop has %d kinds of iterations", len(L.cases))
			for _, cs := range L.cases {
				x := s.at(cs.St, cs.Evs)
				next := x.pos(mk(OLv, s.p.S, 0, L, nil, nil, s.p.T))
				if n := cs.Next[s.p.S]; n != nil {
					next = x.pos(n)
				}
				var sends []*Event
				walkEvs(cs.Evs, cs.ctx(), nil, cs, func(w where) {
					if w.ev.Kind == "send" {
						sends = append(sends, w.ev)
						c.req(len(w.in) == 0 && w.ev.Args[0] == ch, rule, fname(f), c.posOf(w.ev), "tokens are sent in an inner loop or on another channel")
					}
					if w.ev.Kind == "close" {
						c.req(false, rule, fname(f), c.posOf(w.ev), "the channel is closed and the lexer continues")
					}
				})
				x.step(sends, next, c.fpos(f))
			}
		}
		x := s.at(o.St, o.Evs)
		var sends []*Event
		walkEvs(after, o.ctx(), nil, nil, func(w where) {
			if w.ev.Kind == "send" {
				sends = append(sends, w.ev)
				c.req(len(w.in) == 0 && w.ev.Args[0] == ch, rule, fname(f), c.posOf(w.ev), "tokens are sent in an inner loop or on another channel")
			}
		})
		x.step(sends, "", c.fpos(f))
	}
	for _, r := range []string{"arrow", "group begin", "group end", "union", "difference", "intersection", "identifier", "this", "end", "error"} {
		c.req(roles[r] != nil, rule, fname(f), c.fpos(f), "no token for %s", r)
	}
	return roles, ch
}

// headPos: the position variable, the one under which the input is read.
func (c *Check) headPos(s *scanner) *Term {
	uses := map[string]int{}
	for _, cs := range s.main.cases {
		for f := range cs.St.facts {
			s.canon(f).walk(func(t *Term) {
				if x, ok := s.suffix(t); ok && x.Op == OLv && x.L == s.main {
					uses[x.S]++
				}
				if t.Op == OIndex && strip(t.A[0]) == s.input && t.A[1].Op == OLv && t.A[1].L == s.main {
					uses[t.A[1].S]++
				}
			})
		}
	}
	best := ""
	for k, n := range uses {
		if best == "" || n > uses[best] || n == uses[best] && k < best {
			best = k
		}
	}
	if best == "" || s.main.init[best] != cInt(0) {
		return nil
	}
	return mk(OLv, best, 0, s.main, nil, nil, types.Typ[types.Int])
}

// ---- parser ----

// grammar decides, on one path, what the grammar defines for a list of tokens.
type grammar struct {
	c     *Check
	roles map[string]*Term
	kind  string // field of a token
	text  string
	nts   map[string]int // nonterminals: expressions -> which result is the tree, and below
	err   int
	tree  int
	tail  int
	ops   map[string]*Term
	tokT  types.Type
}

func (g *grammar) from(x *Term, k int64) *Term { return mkSlice(x, cInt(k), tNil) }

// base: x as base[off:].
func base(x *Term) (*Term, int64) {
	if x.Op == OSlice && x.A[2].isNil() {
		if n, ok := x.A[1].intVal(); ok {
			return x.A[0], n
		}
	}
	return x, 0
}

// lengths: what the facts say about the length of b, from all of them.
func lengths(st *State, b *Term) (lo, hi int64) {
	lo, hi = 0, math.MaxInt64
	atLeast := func(n int64) { lo = max(lo, n) }
	atMost := func(n int64) { hi = min(hi, n) }
	// len(b[j:]) = len(b)-j
	lenOf := func(t *Term) (int64, bool) {
		if t.Op != OLen {
			return 0, false
		}
		c, j := base(t.A[0])
		return j, c == b
	}
	var not []int64
	for f, v := range st.facts {
		switch {
		case isEqTerm(f):
			for i := 0; i < 2; i++ {
				j, ok := lenOf(f.A[i])
				m, ok2 := f.A[1-i].intVal()
				switch {
				case !ok || !ok2:
				case v: // len(b) = j+m
					atLeast(j + m)
					atMost(j + m)
				case m == 0: // len(b) > j
					atLeast(j + 1)
				default:
					not = append(not, j+m)
				}
			}
		case f.Op == OBin && f.S == "<":
			if j, ok := lenOf(f.A[0]); ok {
				if m, ok := f.A[1].intVal(); ok {
					if v { // len(b) < j+m
						atMost(j + m - 1)
					} else {
						atLeast(j + m)
					}
				}
			}
			if j, ok := lenOf(f.A[1]); ok {
				if m, ok := f.A[0].intVal(); ok {
					if v { // len(b) > j+m
						atLeast(j + m + 1)
					} else {
						atMost(j + m)
					}
				}
			}
		}
	}
	sort.Slice(not, func(i, k int) bool { return not[i] < not[k] })
	for _, n := range not {
		if n == lo {
			lo++
		}
	}
	for i := len(not) - 1; i >= 0; i-- {
		if not[i] == hi {
			hi--
		}
	}
	return
}

// impossible: the facts contradict each other about the length of a list.
func impossible(st *State) bool {
	seen := map[*Term]bool{}
	for f := range st.facts {
		f.walk(func(t *Term) {
			if t.Op == OLen {
				b, _ := base(t.A[0])
				seen[b] = true
			}
		})
	}
	for b := range seen {
		if lo, hi := lengths(st, b); lo > hi {
			return true
		}
	}
	return false
}

// has: does x have more than k tokens?
func (g *grammar) has(st *State, x *Term, k int64) tri {
	b, off := base(x)
	lo, hi := lengths(st, b)
	switch {
	case lo > off+k:
		return tT
	case hi <= off+k:
		return tF
	}
	return tU
}

// is: does x have a token k, of this role?
func (g *grammar) is(st *State, x *Term, k int64, role string) tri {
	h := g.has(st, x, k)
	if h != tT {
		return h
	}
	v, ok := st.decide(mkEq(g.part(x, k, g.kind), g.roles[role]))
	return boolTri(v, ok)
}

func (g *grammar) part(x *Term, k int64, f string) *Term {
	b, off := base(x)
	return fld(mk(OIndex, "", 0, nil, nil, nil, g.tokT, b, cInt(off+k)), f)
}

type parsed struct {
	v     tri
	stuck bool // an identifier and an arrow, but no identifier: no parse goes on from there
	tree  string
	tail  *Term
}

// term: what the grammar defines for a term at the beginning of x.
func (g *grammar) term(st *State, x *Term) parsed {
	switch g.is(st, x, 0, "this") {
	case tT:
		return parsed{v: tT, tree: "this", tail: g.from(x, 1)}
	case tU:
		if g.has(st, x, 0) == tU {
			return parsed{v: tU}
		}
	}
	switch g.is(st, x, 0, "identifier") {
	case tT:
		cu := parsed{v: tT, tree: "cu " + g.part(x, 0, g.text).String(), tail: g.from(x, 1)}
		switch g.is(st, x, 1, "arrow") {
		case tU:
			if g.is(st, x, 2, "identifier") != tF {
				return parsed{v: tU}
			}
			return cu
		case tF:
			return cu
		}
		switch g.is(st, x, 2, "identifier") {
		case tT:
			return parsed{v: tT, tree: "ttu " + g.part(x, 0, g.text).String() + " " + g.part(x, 2, g.text).String(), tail: g.from(x, 3)}
		case tF:
			cu.stuck = true
			return cu
		}
		return parsed{v: tU}
	}
	switch g.is(st, x, 0, "group begin") {
	case tT:
		for n := range g.nts {
			call := g.call(n, g.from(x, 1))
			v, ok := st.decide(mkEq(call(g.err), tNil))
			if !ok {
				continue
			}
			if !v {
				return parsed{v: tF}
			}
			return parsed{v: g.is(st, call(g.tail), 0, "group end"), tree: call(g.tree).String(), tail: g.from(call(g.tail), 1)}
		}
		return parsed{v: tU}
	}
	// nothing else begins a term
	v := tF
	for _, r := range []string{"this", "identifier", "group begin"} {
		if g.is(st, x, 0, r) == tU {
			v = tU
		}
	}
	return parsed{v: v}
}

func (g *grammar) call(n string, x *Term) func(int) *Term {
	return func(i int) *Term {
		f := g.c.P.Fn(n)
		rt := f.Signature.Results()
		return resN(mk(OCall, n, 0, nil, nil, nil, rt, x), i, rt.At(i).Type())
	}
}

// op: does x begin with an operator, and which?
func (g *grammar) op(st *State, x *Term) (tri, *Term) {
	v := tF
	for _, r := range []string{"union", "intersection", "difference"} {
		switch g.is(st, x, 0, r) {
		case tT:
			return tT, g.ops[r]
		case tU:
			v = tU
		}
	}
	return v, nil
}

// show: a tree built by the code, in the notation of parsed.tree.
func (g *grammar) show(t *Term) string {
	t = strip(t)
	node := partOf(t, "Node")
	if t.Op != ONew && t.Op != OStruct || node == nil {
		return t.String()
	}
	node = strip(node)
	if op := partOf(node, "OpNode"); strings.Contains(node.S, "_OpNode") && op != nil {
		return "(" + g.show(part0(op, "Left")) + " " + show(part0(op, "Operator")) + " " + g.show(part0(op, "Right")) + ")"
	}
	r := part0(part0(node, "Rule"), "Rule")
	if !strings.HasPrefix(node.S, "domain.RelationExpressionTree_Rule") {
		return t.String()
	}
	switch strings.TrimPrefix(r.S, "domain.") {
	case "Rule_This":
		return "this"
	case "Rule_Cu":
		return "cu " + show(part0(part0(r, "Cu"), "TargetRelation"))
	case "Rule_Ttu":
		return "ttu " + show(part0(part0(r, "Ttu"), "TuplesetRelation")) + " " + show(part0(part0(r, "Ttu"), "ComputedUsersetRelation"))
	}
	return t.String()
}

func part0(t *Term, f string) *Term {
	r := partOf(t, f)
	if r == nil {
		if strings.HasPrefix(f, "Operator") {
			return cInt(0)
		}
		return cStr("")
	}
	return strip(r)
}

// expression judges a nonterminal: term, then operators and terms.
func (g *grammar) expression(f *ssa.Function) {
	c := g.c
	const rule = "C19.expression"
	var names []string
	for n := range g.nts {
		names = append(names, n)
	}
	cfg := stdConfig(names...)
	x := symArgs(f)[0]
	outs := c.run(f, cfg, symArgs(f), nil)
	who, pos := fname(f), c.fpos(f)
	accepted := map[string]bool{}
	for _, o := range outs {
		if impossible(o.St) {
			continue
		}
		if !c.req(o.Kind == "return", rule, who, pos, "may panic: %s", o.brief()) {
			continue
		}
		walk(o, func(w where) {
			switch w.ev.Kind {
			case "loop", "call":
			default:
				c.req(false, rule, who, c.posOf(w.ev), "parsing has an effect: %s", w.ev.Kind)
			}
		})
		head := g.term(o.St, x)
		// the loop over the operators that follow
		var main, fold *Event
		key := ""
		for _, ev := range o.Evs {
			if ev.Kind != "loop" || len(ev.Loop.All) == 0 && ev.Loop.Domain == nil {
				continue // left in its first iteration
			}
			if ev.Loop.Domain == nil && main == nil {
				for k, t := range ev.Loop.L.init {
					if t == head.tail && head.tail != nil {
						main, key = ev, k
					}
				}
				if main != nil {
					continue
				}
			}
			if main != nil && fold == nil && ev.Loop.Domain != nil {
				fold = ev
				continue
			}
			c.req(false, rule, who, c.posOf(ev), "a loop that is not understood: %s", o.brief())
		}
		y := head.tail
		if main != nil {
			y = mk(OLv, key, 0, main.Loop.L, nil, nil, x.T)
		}
		if !o.ok() {
			// no term, or an operator that no term follows
			why := head.v == tF || head.stuck
			if !why && y != nil && head.v == tT {
				v, _ := g.op(o.St, y)
				t := g.term(o.St, g.from(y, 1))
				why = v == tT && (t.v == tF || t.stuck)
			}
			c.req(why, rule, who, pos, "refused although a term stands there: %s", o.brief())
			continue
		}
		if !c.req(head.v == tT, rule, who, pos, "accepted although no term is known to stand at the beginning: %s", o.brief()) {
			continue
		}
		accepted[strings.SplitN(head.tree, " ", 2)[0]] = true
		v, _ := g.op(o.St, y)
		next := parsed{v: tU}
		if v == tT {
			next = g.term(o.St, g.from(y, 1))
		}
		c.req(v == tF || v == tT && (next.v == tF || next.stuck), rule, who, pos, "stops although an operator and a term may follow: %s", o.brief())
		c.req(o.Rets[g.tail] == y, rule, who, pos, "the rest is %s instead of %s: %s", o.Rets[g.tail], y, o.brief())
		got := g.show(o.Rets[g.tree])
		if main == nil {
			c.req(got == head.tree, rule, who, pos, "the tree is %s instead of %s: %s", got, head.tree, o.brief())
			continue
		}
		acc, coll := g.operators(main, key, who)
		switch {
		case acc != "":
			want := mk(OLv, acc, 0, main.Loop.L, nil, nil, nil)
			c.req(strip(o.Rets[g.tree]) == want && g.show(main.Loop.L.init[acc]) == head.tree, rule, who, pos, "the tree is %s instead of the one built from all operators: %s", got, o.brief())
		case fold == nil:
			none, ok := false, false
			for f, v := range o.St.facts { // nothing was collected
				if isEqTerm(f) && v && f.A[1] == cInt(0) && f.A[0].Op == OLen && f.A[0].A[0].Op == OColl && f.A[0].A[0].L == main.Loop.L && f.A[0].A[0].S == coll {
					none, ok = true, true
				}
			}
			c.req(ok && none && got == head.tree, rule, who, pos, "the tree is %s although operators may follow: %s", got, o.brief())
		default:
			d := fold.Loop.Domain
			c.req(d.Op == OColl && d.L == main.Loop.L && d.S == coll && fold.Loop.Exhausted, rule, who, c.posOf(fold), "not all operators are applied: %s", o.brief())
			r := strip(o.Rets[g.tree])
			if c.req(r.Op == OLv && r.L == fold.Loop.L && fold.Loop.L.init[r.S] != nil && g.show(fold.Loop.L.init[r.S]) == head.tree, rule, who, c.posOf(fold), "the tree is %s instead of the one built from all operators: %s", got, o.brief()) {
				g.folds(fold, r.S, key, who)
			}
		}
	}
	for _, k := range []string{"this", "cu", "ttu"} {
		c.req(accepted[k], rule, who, pos, "no path accepts %s", k)
	}
	c.min(rule, 20)
}

// operators: every iteration takes one operator and one term, and either
// collects them or adds them to the tree. It tells which variable does so.
func (g *grammar) operators(main *Event, key, who string) (acc, coll string) {
	c := g.c
	const rule = "C19.operators"
	L := main.Loop.L
	y := mk(OLv, key, 0, L, nil, nil, nil)
	first := true
	for _, cs := range main.Loop.All {
		if impossible(cs.St) {
			continue
		}
		v, op := g.op(cs.St, y)
		t := g.term(cs.St, g.from(y, 1))
		if !c.req(v == tT && t.v == tT, rule, who, c.posOf(main), "an iteration without an operator and a term: %s", cs.brief()) {
			continue
		}
		c.req(cs.Next[key] == t.tail, rule, who, c.posOf(main), "continues with %s instead of %s: %s", show(cs.Next[key]), t.tail, cs.brief())
		a, k := "", ""
		for n, next := range cs.Next {
			if n != key && g.show(next) == fmt.Sprintf("(%s %s %s)", mk(OLv, n, 0, L, nil, nil, nil), op, t.tree) {
				a = n
			}
		}
		for n, items := range cs.Items {
			if len(items) == 1 && g.pair(items[0], op, t.tree) {
				k = n
			}
		}
		c.req(a != "" || k != "", rule, who, c.posOf(main), "operator %s and term %s are not taken over: %s", op, t.tree, cs.brief())
		if !first {
			c.req(a == acc && k == coll, rule, who, c.posOf(main), "iterations differ in where they leave what they found: %s", cs.brief())
		}
		acc, coll, first = a, k, false
	}
	c.min(rule, 9)
	return
}

// pair: a struct made of the operator and the tree.
func (g *grammar) pair(t *Term, op *Term, tree string) bool {
	t = strip(t)
	o, r := false, false
	if t.Op != OStruct && t.Op != ONew {
		return false
	}
	n := 0
	for _, a := range t.A {
		switch {
		case a == op:
			o = true
		case g.show(a) == tree:
			r = true
		default:
			n++
		}
	}
	if op == cInt(0) && len(t.A) == 1 { // the zero value may be left out
		o = true
	}
	return o && r && n == 0
}

// folds: the collected operators are applied in order, to the left.
func (g *grammar) folds(fold *Event, acc, key, who string) {
	c := g.c
	const rule = "C19.fold"
	L := fold.Loop.L
	left := mk(OLv, acc, 0, L, nil, nil, nil)
	for _, cs := range fold.Loop.All {
		if impossible(cs.St) {
			continue
		}
		next := "unchanged"
		if n := cs.Next[acc]; n != nil {
			next = g.show(n)
		}
		ok := false
		vars := map[*Term]bool{}
		for f := range cs.St.facts {
			f.walk(func(t *Term) {
				if t.Op == OLv && t.L != L && t.S == key {
					vars[t] = true
				}
			})
		}
		want := ""
		for y := range vars {
			v, op := g.op(cs.St, y)
			t := g.term(cs.St, g.from(y, 1))
			if v == tT && t.v == tT {
				w := fmt.Sprintf("(%s %s %s)", left, op, t.tree)
				want += w
				ok = ok || next == w
			}
		}
		c.req(ok, rule, who, c.posOf(fold), "an operator gives %s instead of %s", next, want)
	}
	c.min(rule, 9)
}

func checkC19(c *Check) {
	const rule = "C19.parse"
	f := c.fn(exprParse)
	if f == nil {
		return
	}
	args := symArgs(f)
	nts := c.nonterminals(f)
	g := &grammar{c: c, nts: nts, ops: map[string]*Term{}, err: -1, tree: -1, tail: -1}
	var names []string
	for n := range nts {
		names = append(names, n)
		nf := c.P.Fn(n)
		if !c.req(nf != nil && len(nf.Params) == 1, rule, n, c.fpos(f), "a recursive function that does not take tokens alone") {
			return
		}
		rt := nf.Signature.Results()
		for i := 0; i < rt.Len(); i++ {
			switch t := rt.At(i).Type(); {
			case types.TypeString(t, nil) == "error":
				g.err = i
			case isSliceT(t):
				g.tail = i
			default:
				g.tree = i
			}
		}
		sl, ok := nf.Params[0].Type().Underlying().(*types.Slice)
		if !c.req(ok && rt.Len() == 3 && g.err >= 0 && g.tail >= 0 && g.tree >= 0, rule, n, c.fpos(nf), "does not take tokens and return a tree, the rest and an error") {
			return
		}
		g.tokT = sl.Elem()
		st, ok := tokenStruct(g.tokT)
		if !c.req(ok, rule, n, c.fpos(nf), "tokens are not structs") {
			return
		}
		g.kind, g.text = tokenFields(st)
	}
	if !c.req(len(names) > 0, rule, exprParse, c.fpos(f), "no recursive function for nested expressions") {
		return
	}
	sort.Strings(names)
	g.ops["union"] = cInt(c.enum("domain.Operator_UNION"))
	g.ops["intersection"] = cInt(c.enum("domain.Operator_INTERSECTION"))
	g.ops["difference"] = cInt(c.enum("domain.Operator_DIFFERENCE"))
	outs := c.run(f, stdConfig(names...), args, nil)
	var ch *Term
	okOuts := 0
	for _, o := range outs {
		if impossible(o.St) {
			continue
		}
		if !c.req(o.Kind == "return", rule, exprParse, c.fpos(f), "may panic: %s", o.brief()) {
			continue
		}
		var gos []*Event
		for _, ev := range o.Evs {
			if ev.Kind == "go" {
				gos = append(gos, ev)
			}
		}
		if !c.req(len(gos) == 1, rule, exprParse, c.fpos(f), "%d goroutines lex the expression: %s", len(gos), o.brief()) {
			continue
		}
		if g.roles == nil {
			g.roles, ch = c.lexer(gos[0], args[0])
			if g.roles == nil || len(g.roles) < 10 {
				return
			}
		}
		if g.parse(f, o, ch, names) {
			okOuts++
		}
	}
	c.req(okOuts > 0, rule, exprParse, c.fpos(f), "nothing is accepted")
	if g.roles == nil {
		return
	}
	for _, n := range names {
		g.expression(c.P.Fn(n))
	}
}

// nonterminals: the recursive parsers below f, found from the parsers that it
// or the functions it calls call.
func (c *Check) nonterminals(f *ssa.Function) map[string]int {
	nts := map[string]int{}
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 && len(nts) == 0 {
		g := work[0]
		work = work[1:]
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil || seen[h] || !isRepo(h) {
					continue
				}
				seen[h] = true
				work = append(work, h)
				if !parserSig(h) || len(nts) > 0 {
					continue
				}
				cfg := stdConfig()
				cfg.Opaque[fname(h)] = Opaque{}
				for _, o := range c.run(h, cfg, symArgs(h), nil) {
					walk(o, func(w where) {
						if w.ev.Kind == "rec" || w.ev.Kind == "call" && w.ev.Name == fname(h) {
							nts[w.ev.Name]++
						}
					})
				}
			}
		}
	}
	return nts
}

func parserSig(f *ssa.Function) bool {
	if len(f.Params) != 1 || !isSliceT(f.Params[0].Type()) || f.Signature.Results().Len() != 3 {
		return false
	}
	tree := false
	for i := 0; i < 3; i++ {
		tree = tree || strings.HasSuffix(typeStr(types.Unalias(f.Signature.Results().At(i).Type())), "domain.RelationExpressionTree")
	}
	return tree
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// parse judges one outcome of Parse.
func (g *grammar) parse(f *ssa.Function, o *Outcome, ch *Term, names []string) bool {
	c := g.c
	const rule = "C19.parse"
	who, pos := exprParse, c.fpos(f)
	// all tokens
	var tokens *Term
	var skip []*Event
	for _, ev := range o.Evs {
		if ev.Kind != "loop" || tokens != nil && len(ev.Loop.All) == 0 && ev.Loop.Domain == nil {
			continue
		}
		if tokens == nil {
			good := ev.Loop.Domain == nil && len(ev.Loop.All) == 1
			if good {
				cs := ev.Loop.All[0]
				good = false
				for k, items := range cs.Items {
					if len(items) != 1 || items[0].Op != ORes || items[0].S != "0" {
						continue
					}
					recv := items[0].A[0]
					n := 0
					for _, e := range cs.Evs {
						if e.Kind == "recv" {
							n++
							good = e.Res == recv && e.Raw[0] == ch
						}
					}
					v, ok := cs.St.decide(resN(recv, 1, types.Typ[types.Bool]))
					good = good && n == 1 && ok && v
					for f := range o.St.facts {
						f.walk(func(t *Term) {
							if t.Op == OColl && t.L == ev.Loop.L && t.S == k {
								tokens = t
							}
						})
					}
					// it ends when the channel is closed
					v, ok = o.St.decide(resN(recv, 1, types.Typ[types.Bool]))
					good = good && ok && !v
				}
			}
			if !c.req(good && tokens != nil, rule, who, c.posOf(ev), "not every token of the lexer is collected, in order: %s", o.brief()) {
				return false
			}
			continue
		}
		skip = append(skip, ev)
	}
	if !c.req(tokens != nil, rule, who, pos, "no tokens are collected: %s", o.brief()) {
		return false
	}
	last := fld(mk(OIndex, "", 0, nil, nil, nil, g.tokT, tokens, mkAdd(mkLen(tokens), cInt(-1))), g.kind)
	lexErr := boolTri(o.St.decide(mkEq(last, g.roles["error"])))
	if !o.ok() && lexErr == tT {
		return false
	}
	var call func(int) *Term
	failed := tU
	for _, n := range names {
		k := g.call(n, tokens)
		if v, ok := o.St.decide(mkEq(k(g.err), tNil)); ok {
			call, failed = k, boolTri(!v, true)
		}
	}
	if !c.req(call != nil, rule, who, pos, "the tokens are not parsed: %s", o.brief()) {
		return false
	}
	if !o.ok() && failed == tT {
		return false
	}
	if !c.req(failed == tF, rule, who, pos, "accepted although no expression was parsed: %s", o.brief()) {
		return false
	}
	// what is left
	r := call(g.tail)
	for _, ev := range skip {
		next := (*Term)(nil)
		for k, t := range ev.Loop.L.init {
			if t == r {
				next = mk(OLv, k, 0, ev.Loop.L, nil, nil, r.T)
				for _, cs := range ev.Loop.All {
					if impossible(cs.St) {
						continue
					}
					c.req(g.is(cs.St, next, 0, "end") == tT && cs.Next[k] == g.from(next, 1), rule, who, c.posOf(ev), "skips more than the end of the input: %s", cs.brief())
				}
			}
		}
		if !c.req(next != nil, rule, who, c.posOf(ev), "a loop that is not understood: %s", o.brief()) {
			return false
		}
		r = next
	}
	isEnd := g.is(o.St, r, 0, "end")
	clean := isEnd == tT || g.has(o.St, r, 0) == tF || g.has(o.St, r, 1) == tF && lexErr == tF
	dirty := g.has(o.St, r, 0) == tT && isEnd == tF || g.has(o.St, r, 1) == tT
	if v, ok := o.St.decide(mkEq(mkLen(r), cInt(1))); ok && !v && r == call(g.tail) {
		dirty = true // the last token is never part of an expression
	}
	if !o.ok() {
		c.req(dirty, rule, who, pos, "refused although the expression was parsed and nothing follows: %s", o.brief())
		return false
	}
	c.req(clean, rule, who, pos, "accepted although more may follow the expression: %s", o.brief())
	c.req(o.Rets[0] == call(g.tree), rule, who, pos, "returns %s instead of the tree of the expression", o.Rets[0])
	return true
}
