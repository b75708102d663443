package main

import (
	"fmt"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// inlining makes the engine follow every call instead of summarising
// recursive functions: for trees whose shape is given.
func (e *Engine) inlining() {
	e.rec = map[*ssa.Function]bool{}
	e.recInv = map[string]bool{}
	e.cut = map[*ssa.Function]bool{}
	e.readerInv = map[string]bool{}
	e.mergeCalls = false
}

// evalNode interprets Evaluator.Eval on a node.
func (e *Engine) evalNode(name string, each func(o Outcome), mk func(st *State) (Value, *State)) {
	ev := e.method("pkg/core/evaluator", "Evaluator", "Eval")
	e.inlining()
	var got []Outcome
	e.inScope("arith:"+name, func() {
		got = nil
		st := newState()
		evl, st := e.newEvaluator(st)
		node, st := mk(st)
		st.events = nil
		got = e.callFunc(nil, nil, ev, []Value{evl, node}, nil, st, nil)
	})
	for _, o := range got {
		each(o)
	}
}

// construct calls a constructor of the ast package.
func (e *Engine) construct(st *State, fn string, args ...Value) (Value, *State) {
	o := single(e.callFunc(nil, nil, e.fn("pkg/core/ast."+fn), args, nil, st, nil), fn)
	return o.ret[0], o.st
}

// scalarOf is the value of an object: the one scalar field of its struct.
func (e *Engine) scalarOf(st *State, v Value) *Term {
	p, ok := st.resolve(v).(*PtrV)
	if !ok {
		return nil
	}
	s, ok := st.load(p).(*StructV)
	if !ok {
		return nil
	}
	var t *Term
	for _, f := range s.F {
		if x, ok := st.resolve(f).(*Term); ok {
			if t != nil {
				return nil
			}
			t = x
		}
	}
	return t
}

// divisionCases are the cases of signs of dividend and divisor, with what
// holds of the truncated quotient and the remainder in each.
func divisionCases(a, b, q, r *Term) (out []linCase) {
	base := linCase{}.with(
		diff(a, tInt(math.MaxInt64), 0), diff(tInt(math.MinInt64), a, 0),
		diff(b, tInt(math.MaxInt64), 0), diff(tInt(math.MinInt64), b, 0))
	sgn := func(x *Term, s int) []ineq {
		switch s {
		case -1:
			return []ineq{diff(x, tZero, 1)}
		case 1:
			return []ineq{diff(tZero, x, 1)}
		}
		return []ineq{diff(x, tZero, 0), diff(tZero, x, 0)}
	}
	abs := func(x *Term, s int) *Term {
		if s < 0 {
			return tNeg(x)
		}
		return x
	}
	for _, sa := range []int{-1, 0, 1} {
		for _, sb := range []int{-1, 0, 1} {
			c := base.with(sgn(a, sa)...).with(sgn(b, sb)...)
			if sb == 0 {
				out = append(out, c)
				continue
			}
			for _, sq := range []int{0, sa * sb} {
				for _, sr := range []int{0, sa} {
					d := c.with(sgn(q, sq)...).with(sgn(r, sr)...)
					d = d.with(diff(abs(r, sr), abs(b, sb), 1), diff(abs(r, sr), abs(a, sa), 0), diff(abs(q, sq), abs(a, sa), 0))
					if sq == 0 {
						d = d.with(diff(abs(a, sa), abs(b, sb), 1), diff(r, a, 0), diff(a, r, 0))
					} else {
						d = d.with(diff(abs(b, sb), abs(a, sa), 0))
					}
					if !infeasible(d.qs) {
						out = append(out, d)
					}
					if sa == 0 {
						break
					}
				}
				if sa == 0 {
					break
				}
			}
		}
	}
	return out
}

// throughFloat: the value depends on a floating point number.
func throughFloat(ts ...*Term) bool {
	for _, t := range ts {
		if t != nil && t.mentions(func(x *Term) bool { return x.op == "float" }) {
			return true
		}
	}
	return false
}

func boolsOf(st *State) (out []*Term) {
	for t := range st.facts.bools {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func factsText(st *State) string {
	s := ""
	for _, t := range boolsOf(st) {
		if !st.facts.bools[t] {
			s += " not"
		}
		s += " " + t.String()
	}
	return s
}

func init() {
	checks["C11"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of evaluation of every arithmetic and comparison node on two arbitrary integers; on every path the value is compared with the denoted one in a domain of linear inequalities over the operands, the truncated quotient and the remainder, with the operands' signs split"
		a, b := namedSym(KInt, "a"), namedSym(KInt, "b")
		q, rem := app(KInt, "quo", a, b), app(KInt, "rem", a, b)
		mul := tMul(a, b)
		known := func(t *Term) bool { return t == a || t == b || t == q || t == rem || t == mul }
		e := execEngine(p)
		cases := divisionCases(a, b, q, rem)

		// one node; spec gives, in one case, the denoted value; nil: an error
		pos := p.Pos(e.method("pkg/core/evaluator", "Evaluator", "Eval").Pos())
		run := func(name, what string, mk func(st *State) (Value, *State), spec func(c linCase) []specCase) {
			r.Try(what, func() {
				results := 0
				e.evalNode(name, func(o Outcome) {
					var paths []linCase
					feasiblePath := false
					for _, c := range cases {
						ps, ok := c.path(o.st, known)
						if !ok {
							if throughFloat(boolsOf(o.st)...) {
								r.Fail("exact", what, pos, "a decision of the evaluation depends on a floating point number, which does not represent every integer:"+factsText(o.st))
								return
							}
							undec("%s: a decision outside the linear domain:%s", what, factsText(o.st))
						}
						for _, x := range ps {
							paths = append(paths, x)
							feasiblePath = true
						}
					}
					if !feasiblePath {
						return
					}
					failed := e.nilness(o.st, o.ret[1])
					var val *Term
					if failed == "nil" {
						val = e.scalarOf(o.st, o.ret[0])
						if val == nil {
							undec("%s: value %v", what, o.st.resolve(o.ret[0]))
						}
						results++
						if throughFloat(val) {
							r.Fail("exact", what, pos, "the value is computed through a floating point number, which does not represent every integer: "+val.String())
							return
						}
					} else if failed != "nonnil" {
						undec("%s: error %s", what, failed)
					}
					for _, c := range paths {
						for _, s := range spec(c) {
							if infeasible(s.c.qs) {
								continue
							}
							why := ""
							switch {
							case s.val == nil && val != nil:
								why = "a value is returned where an error is due"
							case s.val != nil && val == nil:
								why = "an error is returned where the value is " + s.val.String()
							case s.val != nil:
								if bad, ok := differs(s.c, val, s.val, known); !ok {
									undec("%s: value %s outside the linear domain", what, val)
								} else if bad {
									why = fmt.Sprintf("the value is %s where it is %s", val, s.val)
								}
							}
							if why != "" && s.c.wraps != nil {
								why += fmt.Sprintf(" (a comparison uses %s, which may wrap around)", s.c.wraps)
							}
							if why != "" {
								why += ", when" + factsText(o.st)
							}
							r.Check(why == "", "value", what, pos, why)
						}
					}
				}, mk)
				r.Check(results > 0, "has-value", what, pos, "no path yields a value")
			})
		}
		binary := func(ctor string) func(st *State) (Value, *State) {
			return func(st *State) (Value, *State) {
				x, st := e.construct(st, "NewInt", a)
				y, st := e.construct(st, "NewInt", b)
				return e.construct(st, ctor, x, y)
			}
		}
		always := func(t *Term) func(c linCase) []specCase {
			return func(c linCase) []specCase { return []specCase{{c, t}} }
		}
		run("add", "a + b", binary("NewAdd"), always(tAdd(a, b)))
		run("subtract", "a - b", binary("NewSubtract"), always(tSub(a, b)))
		run("multiply", "a * b", binary("NewMultiply"), always(mul))
		run("negate", "-a", func(st *State) (Value, *State) {
			x, st := e.construct(st, "NewInt", a)
			return e.construct(st, "NewUnaryMinus", x)
		}, always(tNeg(a)))

		div := func(round func(c linCase) []specCase) func(c linCase) []specCase {
			return func(c linCase) []specCase {
				zero := c.with(diff(b, tZero, 0), diff(tZero, b, 0))
				out := []specCase{{zero, nil}}
				for _, nz := range []linCase{c.with(diff(b, tZero, 1)), c.with(diff(tZero, b, 1))} {
					if !infeasible(nz.qs) {
						out = append(out, round(nz)...)
					}
				}
				return out
			}
		}
		// direction: the sign of the exact quotient
		sign := func(c linCase) (out []struct {
			c linCase
			s int64
		}) {
			for _, x := range []struct {
				c linCase
				s int64
			}{
				{c.with(diff(tZero, a, 1), diff(tZero, b, 1)), 1},
				{c.with(diff(a, tZero, 1), diff(b, tZero, 1)), 1},
				{c.with(diff(tZero, a, 1), diff(b, tZero, 1)), -1},
				{c.with(diff(a, tZero, 1), diff(tZero, b, 1)), -1},
				{c.with(diff(a, tZero, 0), diff(tZero, a, 0)), 0},
			} {
				if !infeasible(x.c.qs) {
					out = append(out, x)
				}
			}
			return out
		}
		absOf := func(c linCase, t *Term) *Term {
			if infeasible(c.qs, diff(t, tZero, 1)) {
				return t
			}
			return tNeg(t)
		}
		run("down", "a / b", binary("NewDivideWithRoundingDown"), div(always(q)))
		run("half", "a / b R", binary("NewDivideWithRounding"), div(func(c linCase) (out []specCase) {
			for _, x := range sign(c) {
				// 2|r| >= |b|
				ar, ab := absOf(x.c, rem), absOf(x.c, b)
				up := x.c.with(diff(ab, tAdd(ar, ar), 0))
				down := x.c.with(diff(tAdd(ar, ar), ab, 1))
				out = append(out, specCase{up, tAddK(q, x.s)}, specCase{down, q})
			}
			return out
		}))
		run("up", "a / b U", binary("NewDivideWithRoundingUp"), div(func(c linCase) (out []specCase) {
			for _, x := range sign(c) {
				if x.s <= 0 {
					out = append(out, specCase{x.c, q})
					continue
				}
				zero := x.c.with(diff(rem, tZero, 0), diff(tZero, rem, 0))
				out = append(out, specCase{zero, q},
					specCase{x.c.with(diff(rem, tZero, 1)), tAddK(q, 1)},
					specCase{x.c.with(diff(tZero, rem, 1)), tAddK(q, 1)})
			}
			return out
		}))
		for _, op := range []struct {
			op string
			t  *Term
		}{{"=", tEq(a, b)}, {"<>", tNot(tEq(a, b))}, {"<", tLt(a, b)}, {">", tLt(b, a)}, {"<=", tLe(a, b)}, {">=", tLe(b, a)}} {
			run("compare"+op.op, "a "+op.op+" b", func(st *State) (Value, *State) {
				x, st := e.construct(st, "NewInt", a)
				y, st := e.construct(st, "NewInt", b)
				return e.construct(st, "NewCompare", x, tStr(op.op), y)
			}, always(op.t))
		}
		r.Min("has-value", 13)
		r.Analysed["functions interpreted"] = len(e.analysedFns)
	}
}

// specCase: in case c the denoted value is val, or an error if nil.
type specCase struct {
	c   linCase
	val *Term
}

// differs: the two values may differ in the case; ok is false outside the
// domain.
func differs(c linCase, x, y *Term, known func(*Term) bool) (bad, ok bool) {
	if x == y {
		return false, true
	}
	if x.kind != y.kind {
		return false, false
	}
	if x.kind == KBool {
		for _, v := range []bool{true, false} {
			ps, ok := c.literal(x, v, known)
			if !ok {
				return false, false
			}
			for _, p := range ps {
				qs, ok := p.literal(y, !v, known)
				if !ok {
					return false, false
				}
				for _, q := range qs {
					if !infeasible(q.qs) {
						return true, true
					}
				}
			}
		}
		return false, true
	}
	for _, t := range []*Term{x, y} {
		bs, _, _ := linParts(t)
		for _, b := range bs {
			if !known(b) {
				return false, false
			}
		}
	}
	return !infeasible(c.qs, diff(x, y, 1)) || !infeasible(c.qs, diff(y, x, 1)), true
}
