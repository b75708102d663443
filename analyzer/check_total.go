package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listsIn are the lists of which a loop looks at elements.
func (e *Engine) listsIn(rec *loopRec) map[*Term]bool {
	out := map[*Term]bool{}
	own := map[*Term]bool{}
	for _, p := range rec.pos {
		if t, ok := p.cur.(*Term); ok && t.op == "sym" {
			own[t] = true
		}
	}
	for i, b := range rec.backs {
		seen := map[*Term]bool{}
		var add func(t *Term)
		add = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if strings.HasPrefix(t.op, "at") && t.op != "atoi" && len(t.args) == 2 {
				leaves(t.args[1], func(s *Term) {
					if own[s] {
						out[t.args[0]] = true
					}
				})
			}
			for _, a := range t.args {
				add(a)
			}
		}
		for _, p := range rec.pos {
			add(e.canon(e.code(b, p.backs[i])))
		}
		for t := range b.facts.bools {
			add(e.canon(t))
		}
		for t, es := range b.facts.up {
			add(e.canon(t))
			for u := range es {
				add(e.canon(u))
			}
		}
	}
	return out
}

// offset follows a list back to the one it was made of by adding the same
// number to every element.
func (e *Engine) offset(st *State, gen *Term) (*Term, *Term) {
	off := tZero
	for {
		p := e.recOf[gen]
		if p == nil {
			return gen, off
		}
		var src, d *Term
		for i, b := range p.backs {
			bt, ok := b.(*Term)
			if !ok {
				return gen, off
			}
			bt = e.canon(bt)
			var el *Term
			if bt.op == "cat" && bt.args[0] == gen && bt.args[1].op == "list" && len(bt.args[1].args) == 1 {
				el = bt.args[1].args[0]
			} else if bt.op == "upd" && bt.args[0] == gen {
				el = bt.args[2]
			} else {
				return gen, off
			}
			if el.op == "at" && len(el.args) == 2 {
				// the element itself
				el = app(KOther, "ref:object.Integer", tZero, app(KInt, "at.Value", el.args...))
			}
			a := refTo(el, "object.Integer")
			if a == nil {
				return gen, off
			}
			var at *Term
			leavesOf(a[0], func(t *Term) bool {
				if t.op == "at.Value" && at == nil {
					at = t
				}
				return t.op != "at.Value"
			})
			if at == nil {
				return gen, off
			}
			di := tSub(a[0], at)
			if src != nil && (src != at.args[0] || d != di) {
				return gen, off
			}
			src, d = at.args[0], di
			w, v := e.walkOf(p.rec, st, src, nil)
			if !v.ok || at.args[1] != tAddK(w.sig, w.off) || bt.op == "upd" && bt.args[1] != at.args[1] {
				return gen, off
			}
			_ = i
		}
		if src == nil || p.rec.pos == nil {
			return gen, off
		}
		gen, off = src, tAdd(off, d)
	}
}

// leavesOut: a list is made by appending, but on some way through the loop
// nothing is appended, whatever the target.
func (e *Engine) leavesOut(gen, target *Term) bool {
	p := e.recOf[gen]
	if p == nil {
		return false
	}
	adds, skips := false, false
	for i, b := range p.backs {
		bt, ok := b.(*Term)
		if !ok {
			return false
		}
		bt = e.canon(bt)
		if bt.op == "cat" && bt.args[0] == gen && bt.args[1].op == "list" {
			adds = true
			continue
		}
		if bt != gen {
			return false
		}
		about := false
		see := func(t *Term) {
			leaves(e.canon(t), func(s *Term) { about = about || s == target })
		}
		f := p.rec.backs[i].facts
		for t := range f.bools {
			see(t)
		}
		for t, es := range f.up {
			for u := range es {
				if t == target || u == target {
					about = about || t != tZero && u != tZero
				} else {
					see(t)
					see(u)
				}
			}
		}
		skips = skips || !about
	}
	return adds && skips
}

func leavesOf(t *Term, f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.args {
		leavesOf(a, f)
	}
}

// only is the one list a loop looks at.
func (e *Engine) only(rec *loopRec, but ...*Term) *Term {
	var g *Term
	for t := range e.listsIn(rec) {
		if g != nil {
			undec("a loop of %s looks at more than one list", e.p.FuncName(rec.fn))
		}
		g = t
	}
	if g == nil {
		undec("a loop of %s looks at no list", e.p.FuncName(rec.fn))
	}
	return g
}

// groupSums checks that a list consists of the sums of the groups.
func (e *Engine) groupSums(st *State, gen, groups, n *Term) verdict {
	return e.folds(st, gen, app(KOther, "list"), groups, n, e.maps(func(w walk, b *State, el *Term) verdict {
		a := refTo(el, "object.Integer")
		if a == nil {
			return vUnk("a group becomes %s", el)
		}
		in := w.elem(KOther, ".Elements")
		return e.folds(b, a[0], tZero, in, e.lengthOf(b, in), e.adds(".Value"))
	}))
}

// maximum checks that a reference found in a state is the one of the largest
// of the integers.
func (e *Engine) maximum(st *State, v Value, gen, n *Term) verdict {
	l, ok := v.(*LazyV)
	if _, is := st.resolve(v).(*PtrV); !ok && is {
		// the object that the value carried round a loop has turned out to be
		for id, p := range e.recOfLazy {
			if z, is := p.cur.(*LazyV); is && z.id == id && sameObject(st, v, z) {
				l, ok = z, true
			}
		}
	}
	if !ok {
		if t := e.canon(e.code(st, v)); e.understood(t) {
			return vBad("the maximum may be %s", t)
		}
		return vUnk("the maximum is %T", st.resolve(v))
	}
	p := e.recOfLazy[l.id]
	if p == nil {
		return vUnk("the maximum does not come out of a loop")
	}
	from := int64(0)
	en := e.canon(e.code(p.rec.entry, p.entry))
	switch {
	case en == app(en.kind, "at", e.canon(gen), tZero):
		from = 1
	default:
		return vUnk("the maximum starts with %s", en)
	}
	w, vd := e.walkFrom(p.rec, st, gen, n, from)
	if !vd.ok {
		// looking at the first element again does no harm
		if w0, v0 := e.walkFrom(p.rec, st, gen, n, 0); v0.ok {
			w, vd = w0, v0
		}
	}
	if !vd.ok {
		return vd
	}
	for i, back := range p.backs {
		b := p.rec.backs[i]
		x := e.standFor(b, w.elem(KInt, ".Value"))
		m := e.scalarOf(b, p.cur)
		if x == nil || m == nil {
			return vUnk("the maximum is replaced without a comparison")
		}
		var larger *Term // the comparison that must not hold
		switch {
		case sameObject(b, back, p.cur):
			larger = tLt(m, x)
		case e.scalarOf(b, back) == x:
			larger = tLt(x, m)
		default:
			return vUnk("the maximum becomes %s", e.valText(b, back))
		}
		if b.clone().facts.assume(larger, true) {
			return vBad("the maximum becomes %s although %s, if%s", e.valText(b, back), larger, factsText(b))
		}
	}
	return vOK
}

func init() {
	checks["C27"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation with recurrences: every loop that computes a total, a count, a maximum or a list of values is brought to a fixed point, and its recurrences (value on entry, value after each path through the body) are compared with those that going once through all elements of the list prescribes, for lists of any length"
		r.Assume = append(r.Assume, "RollDice returns the dice drawn (established for its body by C04 and C05)")
		mkEng := func() *Engine {
			e := execEngine(p)
			e.sequences()
			e.stubRollDice()
			return e
		}
		roll := func(e *Engine, kind string, vars string) func(st *State) (Value, *State) {
			return func(st *State) (Value, *State) {
				a, _, st := e.intNode(st, "num"+vars)
				b, _, st := e.intNode(st, "sides"+vars)
				return e.construct(st, kind, a, b)
			}
		}
		// totals
		e := mkEng()
		e.evaluated(r, "value of a D roll", roll(e, "NewDRoll", ""), func(o Outcome, pos string) {
			gen, n := e.drawn(o.st)
			r.verdict(e.folds(o.st, e.scalarOf(o.st, o.ret[0]), tZero, gen, n, e.adds(".Value")), "total", "value of a D roll", pos)
		})
		e = mkEng()
		var diceIn *SliceV
		e.evaluated(r, "value of a rolled D roll", func(st *State) (Value, *State) {
			ct := e.fn("pkg/core/ast.NewSumRollResult")
			diceIn = e.havoc(ct.Params[0].Type(), "dice", st).(*SliceV)
			e.input(diceIn.n)
			return e.construct(st, "NewSumRollResult", diceIn)
		}, func(o Outcome, pos string) {
			r.verdict(e.folds(o.st, e.scalarOf(o.st, o.ret[0]), tZero, e.contentOf(o.st, diceIn), diceIn.n, e.adds(".Value")), "total", "value of a rolled D roll", pos)
		})
		// values of basic rolls
		integerOf := func(e *Engine, path string) func(w walk, b *State, el *Term) verdict {
			return func(w walk, b *State, el *Term) verdict {
				a := refTo(el, "object.Integer")
				if a == nil {
					return vUnk("the element becomes %s", el)
				}
				if a[0] == w.elem(KInt, path) {
					return vOK
				}
				if e.understood(a[0]) {
					return vBad("the value listed for %s is %s", w.elem(KInt, path), a[0])
				}
				return vUnk("the element becomes %s", el)
			}
		}
		e = mkEng()
		e.evaluated(r, "values of a B roll", roll(e, "NewBRoll", ""), func(o Outcome, pos string) {
			gen, n := e.drawn(o.st)
			vals, _ := e.elementsOf(o.st, e.fieldOf(o.st, o.ret[0], "Elements"))
			r.verdict(e.folds(o.st, vals, app(KOther, "list"), gen, n, e.maps(integerOf(e, ".Value"))), "values", "values of a B roll", pos)
		})
		e = mkEng()
		var rolls *SliceV
		e.evaluated(r, "values of a list of B rolls", func(st *State) (Value, *State) {
			first, st := roll(e, "NewBRoll", "0")(st)
			l, st := e.construct(st, "NewBRollList", first)
			rolls, st = e.nodeWith(st, l, "BRolls", roll(e, "NewBRoll", "1"))
			return l, st
		}, func(o Outcome, pos string) {
			what := "values of a list of B rolls"
			vals, _ := e.elementsOf(o.st, e.fieldOf(o.st, o.ret[0], "Elements"))
			r.verdict(e.folds(o.st, vals, app(KOther, "list"), e.contentOf(o.st, rolls), rolls.n, func(w walk, b *State, sig, val *Term) verdict {
				ps := parts(val)
				init := app(KOther, "list")
				if p := e.recOf[val]; p != nil && e.recOf[sig] != nil && p.rec != e.recOf[sig].rec {
					// the values are appended one by one
					ps, init = []*Term{sig, val}, sig
				}
				if len(ps) != 2 || ps[0] != sig {
					if e.definite(val, sig) {
						return vBad("a roll makes %s of %s", val, sig)
					}
					return vUnk("a roll makes %s", val)
				}
				ds := eventsOf(b, "draw")
				if len(ds) == 0 || len(ds[len(ds)-1].Vals) < 3 {
					return vUnk("no dice are drawn for a roll")
				}
				d := ds[len(ds)-1]
				if p := e.recOf[e.canon(ps[1])]; p != nil && init != nil {
					if ls := e.listsIn(p.rec); len(ls) == 1 && !ls[e.canon(d.Vals[2].(*Term))] {
						list := e.only(p.rec)
						if v := e.folds(b, list, app(KOther, "list"), d.Vals[2].(*Term), d.Vals[0].(*Term), e.maps(integerOf(e, ".Value"))); v.ok {
							return e.folds(b, ps[1], init, list, e.lengthOf(b, list), e.maps(func(w walk, b *State, el *Term) verdict {
								if el == w.elem(KOther, "") {
									return vOK
								}
								if a := refTo(el, "object.Integer"); a != nil && a[0] == w.elem(KInt, ".Value") {
									return vOK
								}
								return vUnk("the element becomes %s", el)
							}))
						}
					}
				}
				return e.folds(b, ps[1], init, d.Vals[2].(*Term), d.Vals[0].(*Term), e.maps(integerOf(e, ".Value")))
			}), "values", what, pos)
		})
		// numbers of successes
		for _, op := range []string{"=", "<>", "<", ">", "<=", ">="} {
			countB(p, r, op)
			countR(p, r, op)
			countU(p, r, op)
		}
		// the figures of an open-ended roll
		for _, m := range []string{"SumOfGroups", "SumOfValues", "MaxValue"} {
			figure(p, r, m)
		}
		r.Try("maximum", func() {
			e := execEngine(p)
			e.sequences()
			fn := e.method("pkg/core/object", "Array", "MaxInteger")
			var outs []Outcome
			var l *SliceV
			e.inScope("max", func() {
				i, st := e.newObject(newState(), "NewInteger", freshSym(KInt, "value"))
				var a Value
				a, l, st = e.anyArray(st, "values", i)
				outs = e.callFunc(nil, nil, fn, []Value{a}, nil, st, nil)
			})
			n := 0
			for _, o := range outs {
				if o.st.facts.leq(l.n, tZero) || e.nilness(o.st, o.ret[0]) == "nil" {
					continue
				}
				n++
				r.verdict(e.maximum(o.st, o.ret[0], e.contentOf(o.st, l), l.n), "maximum", "largest element of an array", p.Pos(fn.Pos()))
			}
			if n == 0 {
				undec("no outcome")
			}
		})
		// every roll of a list is in the list
		pe := parserEngine(p)
		pe.eachTail(func(rule, first string, t *tail, items []*GX) {
			if arithmetic(t.ops) || !t.ops["+"] {
				return
			}
			r.Try("items of "+rule, func() { pe.action(rule).list(r, "rolls", first, t) })
		})
		r.Min("rolls", 3)
		r.Min("total", 2)
		r.Min("values", 2)
		r.Min("successes", 18)
		r.Min("figures", 3)
		r.Min("maximum", 1)
	}
}

// successes evaluates a comparison whose left side evaluates to mk's value.
func successes(p *Prog, r *Report, op, form, what string, left func(e *Engine, st *State) (Value, *State), mk func(e *Engine, st *State) (Value, *State), each func(e *Engine, o Outcome, count, target *Term, cond func(x *Term) *Term, pos string)) {
	e := execEngine(p)
	e.sequences()
	e.stubRollDice()
	var target *Term
	e.evaluated(r, what, func(st *State) (Value, *State) {
		l, st := left(e, st)
		e.evalsTo(st, l, func(st *State) (Value, *State) { return mk(e, st) })
		var t Value
		t, target, st = e.intNode(st, "target")
		c, st := e.construct(st, "NewCompare", l, tStr(op), t)
		return e.construct(st, form, c)
	}, func(o Outcome, pos string) {
		count := e.scalarOf(o.st, e.fieldOf(o.st, o.ret[0], "NumOfSuccesses"))
		if count == nil {
			undec("no number of successes")
		}
		each(e, o, count, target, func(x *Term) *Term { return comparison(op, x, target) }, pos)
	})
}

func rollOf(e *Engine, kind string, st *State) (Value, *State) {
	a, _, st := e.intNode(st, "num")
	b, _, st := e.intNode(st, "sides")
	return e.construct(st, kind, a, b)
}

func countB(p *Prog, r *Report, op string) {
	what := "successes of B rolls for " + op
	successes(p, r, op, "NewBRollComp", what, func(e *Engine, st *State) (Value, *State) {
		f, st := rollOf(e, "NewBRoll", st)
		return e.construct(st, "NewBRollList", f)
	}, func(e *Engine, st *State) (Value, *State) {
		i, st := e.newObject(st, "NewInteger", freshSym(KInt, "value"))
		a, _, st := e.anyArray(st, "values", i)
		return a, st
	}, func(e *Engine, o Outcome, count, target *Term, cond func(x *Term) *Term, pos string) {
		gen, n := e.elementsOf(o.st, e.fieldOf(o.st, e.fieldOf(o.st, o.ret[0], "Values"), "Elements"))
		r.verdict(e.folds(o.st, count, tZero, gen, n, e.counts(cond, ".Value")), "successes", what, pos)
	})
}

func countR(p *Prog, r *Report, op string) {
	what := "successes of R rolls for " + op
	successes(p, r, op, "NewRRollComp", what, func(e *Engine, st *State) (Value, *State) {
		f, st := rollOf(e, "NewRRoll", st)
		t, _, st := e.intNode(st, "threshold")
		return e.construct(st, "NewRRollList", f, t)
	}, func(e *Engine, st *State) (Value, *State) {
		a, _, st := e.anyGroups(st)
		return a, st
	}, func(e *Engine, o Outcome, count, target *Term, cond func(x *Term) *Term, pos string) {
		gen, n := e.elementsOf(o.st, e.fieldOf(o.st, e.fieldOf(o.st, o.ret[0], "ValueGroups"), "Elements"))
		r.verdict(e.folds(o.st, count, tZero, gen, n, func(w walk, b *State, sig, val *Term) verdict {
			in := w.elem(KOther, ".Elements")
			ln := e.lengthOf(b, in)
			d := tSub(val, sig)
			if p, rest := e.accumulator(d); p != nil && rest.isConst() {
				return e.folds(b, d, tZero, in, ln, e.counts(cond, ".Value"))
			}
			if e.folds(b, val, tZero, in, ln, e.counts(cond, ".Value")).ok {
				return vBad("the successes of the groups before are dropped")
			}
			// one variable may run through both loops
			return e.folds(b, val, sig, in, ln, e.counts(cond, ".Value"))
		}), "successes", what, pos)
	})
}

func countU(p *Prog, r *Report, op string) {
	what := "successes of U rolls for " + op
	var groups *SliceV
	mod := namedSym(KInt, "modifier")
	successes(p, r, op, "NewURollComp", what, func(e *Engine, st *State) (Value, *State) {
		f, st := rollOf(e, "NewURoll", st)
		t, _, st := e.intNode(st, "threshold")
		l, st := e.construct(st, "NewRRollList", f, t)
		return e.construct(st, "NewURollExpr", l, NilV{})
	}, func(e *Engine, st *State) (Value, *State) {
		e.input(mod)
		var a Value
		a, groups, st = e.anyGroups(st)
		m, st := e.newObject(st, "NewInteger", mod)
		return e.newObject(st, "NewURollExprResult", a, m)
	}, func(e *Engine, o Outcome, count, target *Term, cond func(x *Term) *Term, pos string) {
		gen := e.contentOf(o.st, groups)
		r.verdict(func() verdict {
			if count.isConst() {
				return e.folds(o.st, count, tZero, gen, groups.n, nil)
			}
			ps, _ := e.accumulator(count)
			if ps == nil {
				return vUnk("the number is %s", count)
			}
			list := e.only(ps.rec)
			sums, off := e.offset(o.st, list)
			if sums == e.canon(gen) {
				return vUnk("the groups are summed up and compared in one loop")
			}
			if e.leavesOut(sums, target) {
				return vBad("some groups are left out before they are compared")
			}
			if v := e.groupSums(o.st, sums, gen, groups.n); !v.ok {
				return v
			}
			rest := tSub(mod, off)
			return e.folds(o.st, count, tZero, list, e.lengthOf(o.st, list), e.counts(func(x *Term) *Term { return cond(tAdd(x, rest)) }, ".Value"))
		}(), "successes", what, pos)
	})
}

// figure checks one of the figures reported for an open-ended roll.
func figure(p *Prog, r *Report, m string) {
	what := m + " of a U roll"
	r.Try(what, func() {
		e := execEngine(p)
		e.sequences()
		fn := e.method("pkg/core/object", "URollExprResult", m)
		pos := p.Pos(fn.Pos())
		mod, largest := namedSym(KInt, "modifier"), namedSym(KInt, "largest")
		e.input(mod, largest)
		if m == "MaxValue" {
			e.stubs["(*pkg/core/object.Array).MaxInteger"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
				st.event("maximum", e.p.Pos(site.Pos()), args[0])
				v, st := e.newObject(st, "NewInteger", largest)
				return []Outcome{{st, []Value{v, tBool(true)}}}
			}
		}
		var outs []Outcome
		var groups *SliceV
		e.inScope(m, func() {
			var g Value
			var st *State
			g, groups, st = e.anyGroups(newState())
			mo, st := e.newObject(st, "NewInteger", mod)
			res, st := e.newObject(st, "NewURollExprResult", g, mo)
			outs = e.callFunc(nil, nil, fn, []Value{res}, nil, st, nil)
		})
		if len(outs) == 0 {
			undec("no outcome")
		}
		for _, o := range outs {
			gen := e.contentOf(o.st, groups)
			r.verdict(func() verdict {
				if m == "SumOfGroups" {
					sums, _ := e.elementsOf(o.st, e.fieldOf(o.st, o.ret[0], "Elements"))
					return e.groupSums(o.st, sums, gen, groups.n)
				}
				t := e.scalarOf(o.st, o.ret[0])
				if t == nil {
					return vUnk("the figure is %T", o.st.resolve(o.ret[0]))
				}
				if m == "MaxValue" {
					ev := eventsOf(o.st, "maximum")
					if len(ev) != 1 {
						return vUnk("the largest element is looked for %d times", len(ev))
					}
					sums, _ := e.elementsOf(o.st, e.fieldOf(o.st, ev[0].Vals[0], "Elements"))
					if v := e.groupSums(o.st, sums, gen, groups.n); !v.ok {
						return v
					}
					if t == tAdd(largest, mod) {
						return vOK
					}
					if e.understood(t) {
						return vBad("the figure is %s", t)
					}
					return vUnk("the figure is %s", t)
				}
				d := tSub(t, mod)
				if d.isConst() {
					return e.folds(o.st, d, tZero, gen, groups.n, nil)
				}
				ps, rest := e.accumulator(t)
				if ps == nil {
					if e.ignores(o.st, t, gen, groups.n) || e.understood(t) && o.st.facts.leq(groups.n, tZero) {
						return vBad("the figure is %s", t)
					}
					return vUnk("the figure is %s", t)
				}
				list := e.only(ps.rec)
				if v := e.groupSums(o.st, list, gen, groups.n); !v.ok {
					return v
				}
				return e.folds(o.st, ps.cur.(*Term), tSub(mod, rest), list, e.lengthOf(o.st, list), e.adds(".Value"))
			}(), "figures", what, pos)
		}
	})
}
