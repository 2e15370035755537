package main

import (
	"strings"
	"unicode/utf8"
)

func init() {
	register("C20", "Printing of expression trees: the text returned on every path of the printer is put together from its pieces (constants, formats, concatenations, recursive calls), cut into tokens by the documented notation, and compared with the tokens the grammar defines for every kind of node and operator that the conditions of the path leave possible; words must be separated. The same documented notation is what C19 shows the parser to read.", checkC20)
}

const exprPrint = "(*domain.RelationExpressionTree).RelationExpression"

// notation cuts pieces of text into tokens; a variable piece is a word or a
// complete expression.
func notation(ss []seg, name func(*Term) string) (toks []string, ok bool) {
	glued := false // the last token is a word that would absorb what follows
	for _, s := range ss {
		switch s.kind {
		case 'v':
			n := name(s.val)
			if n == "" || glued {
				return nil, false
			}
			toks = append(toks, n)
			glued = !strings.HasPrefix(n, "<")
		case 'c':
			b := s.b
			for b != "" {
				r, w := utf8.DecodeRuneInString(b)
				if strings.ContainsRune(" \t\n", r) {
					b, glued = b[w:], false
					continue
				}
				if identRune(r) {
					if glued {
						return nil, false
					}
					e := 0
					for e < len(b) {
						r, w := utf8.DecodeRuneInString(b[e:])
						if !identRune(r) {
							break
						}
						e += w
					}
					toks = append(toks, b[:e])
					b = b[e:]
					glued = true
					continue
				}
				hit := false
				for _, l := range lexemes {
					if strings.HasPrefix(b, l.text) {
						toks, b, hit, glued = append(toks, l.text), b[len(l.text):], true, false
						break
					}
				}
				if !hit {
					return nil, false
				}
			}
		default:
			return nil, false
		}
	}
	return toks, true
}

func checkC20(c *Check) {
	const rule = "C20.text"
	f := c.fn(exprPrint)
	if f == nil {
		return
	}
	tree := symArgs(f)[0]
	node := fld(tree, "Node")
	r := fld(c.pay(node, "*domain.RelationExpressionTree_Rule"), "Rule")
	op := c.pay(node, "*domain.RelationExpressionTree_OpNode")
	left, right, oper := fld(op, "Left"), fld(op, "Right"), fld(op, "Operator")
	cu := c.pay(r, "*domain.Rule_Cu")
	ttu := c.pay(r, "*domain.Rule_Ttu")
	type variant struct {
		name string
		cond []*Term
		want []string
	}
	isRule, isOp := isT(node, "*domain.RelationExpressionTree_Rule"), isT(node, "*domain.RelationExpressionTree_OpNode")
	vs := []variant{
		{"this", []*Term{isRule, isT(r, "*domain.Rule_This")}, []string{"_this"}},
		{"computed userset", []*Term{isRule, isT(r, "*domain.Rule_Cu")}, []string{"target"}},
		{"tuple to userset", []*Term{isRule, isT(r, "*domain.Rule_Ttu")}, []string{"tupleset", "->", "computed"}},
	}
	for _, o := range []struct{ enum, text string }{{"UNION", "+"}, {"INTERSECTION", "&"}, {"DIFFERENCE", "-"}} {
		vs = append(vs, variant{o.enum, []*Term{isOp, mkEq(oper, cInt(c.enum("domain.Operator_"+o.enum)))}, []string{"(", "<left>", o.text, "<right>", ")"}})
	}
	name := func(t *Term) string {
		switch t {
		case fld(cu, "TargetRelation"):
			return "target"
		case fld(ttu, "TuplesetRelation"):
			return "tupleset"
		case fld(ttu, "ComputedUsersetRelation"):
			return "computed"
		}
		if t.Op == OCall && t.S == "rec:"+exprPrint && len(t.A) == 1 {
			switch t.A[0] {
			case left:
				return "<left>"
			case right:
				return "<right>"
			}
		}
		return ""
	}
	seen := map[string]bool{}
	for _, o := range c.run(f, stdConfig(), symArgs(f), nil) {
		incomplete := false
		for f, v := range o.St.facts {
			if isEqTerm(f) && f.A[1] == tNil && v && f.A[0].contains(tree) {
				incomplete = true
			}
		}
		if incomplete {
			continue
		}
		for _, v := range vs {
			possible := true
			for _, t := range v.cond {
				if w, ok := o.St.decide(t); ok && !w {
					possible = false
				}
			}
			// the other kinds of a node are excluded by one that is known
			for _, u := range vs {
				for i, t := range u.cond {
					if w, ok := o.St.decide(t); ok && w && !contains(v.cond, t) && (i == 0 || u.cond[0] == v.cond[0]) {
						possible = false
					}
				}
			}
			if !possible {
				continue
			}
			seen[v.name] = true
			if !c.req(o.Kind == "return" && len(o.Rets) == 1, rule, fname(f), c.fpos(f), "%s: %s", v.name, o.brief()) {
				continue
			}
			ss := coder{c, o.St, o.Evs}.bytes(o.Rets[0])
			toks, ok := notation(ss, name)
			c.req(ok && strings.Join(toks, " ") == strings.Join(v.want, " "), rule, fname(f), c.fpos(f),
				"%s is printed as %s, which is read as %v and should be %v", v.name, segStr(ss), toks, v.want)
		}
	}
	for _, v := range vs {
		c.req(seen[v.name], rule, fname(f), c.fpos(f), "no path prints %s", v.name)
	}
	c.min(rule, 12)
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}
