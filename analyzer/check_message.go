package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: the message shows what was computed.

// textParts are the parts of a text that are not fixed, and the fixed text
// between them.
func textParts(t *Term) (vars []*Term, fixed []string) {
	ps := []*Term{t}
	if t.op == "concat" {
		ps = t.args
	}
	for _, p := range ps {
		if p.isConst() {
			fixed = append(fixed, p.s)
		} else {
			vars = append(vars, p)
		}
	}
	return
}

// plain: no loop had a part in it that a description could not name.
func (e *Engine) plain(t *Term) bool {
	if !e.understood(t) {
		return false
	}
	ok := true
	leaves(e.canon(t), func(s *Term) { ok = ok && e.recOf[s] == nil })
	return ok
}

// wrongText is the verdict on a text that is not what it should be.
func (e *Engine) wrongText(t *Term, want string) verdict {
	if e.plain(t) {
		return vBad("the text is %s and not %s", e.canon(t), want)
	}
	return vUnk("the text is %s", e.canon(t))
}

// showsNumber: apart from a fixed text without digits, t is the number for
// which is holds.
func (e *Engine) showsNumber(st *State, t *Term, want string, is func(x *Term) verdict) verdict {
	t = e.canon(t)
	vars, fixed := textParts(t)
	if len(vars) == 0 {
		s := strings.Trim(t.s, "-0123456789")
		s = strings.Trim(strings.Replace(t.s, s, "", 1), " ")
		if k, err := strconv.ParseInt(s, 10, 64); err == nil {
			return is(tInt(k))
		}
		return vBad("the text is %q and not %s", t.s, want)
	}
	if len(vars) != 1 || vars[0].op != "itoa" {
		return e.wrongText(t, want)
	}
	x := vars[0].args[0]
	for _, f := range fixed {
		if strings.ContainsAny(f, "0123456789") {
			return vBad("the text %q stands beside a number", f)
		}
		if strings.HasSuffix(f, "-") {
			x = tNeg(x)
		}
	}
	return is(x)
}

// equals: the number is the one given, in a state.
func (e *Engine) equals(st *State, want *Term) func(x *Term) verdict {
	return func(x *Term) verdict {
		x = e.canon(x)
		if x == want || st.facts.leq(x, want) && st.facts.leq(want, x) {
			return vOK
		}
		if y := e.standFor(st, want); y != nil && st.facts.leq(x, y) && st.facts.leq(y, x) {
			return vOK
		}
		if e.plain(x) || x.isConst() {
			return vBad("the number shown is %s instead of %s", x, want)
		}
		return vUnk("the number shown is %s", x)
	}
}

// contentParts are the parts a list was put together from.
func contentParts(t *Term) (out []*Term) {
	if t.op != "cat" {
		return []*Term{t}
	}
	for _, a := range t.args {
		out = append(out, contentParts(a)...)
	}
	return
}

func (e *Engine) fixedTexts(ts []*Term) bool {
	for _, t := range ts {
		if !e.canon(t).isConst() {
			return false
		}
	}
	return true
}

// showsList: the text is joined from one text for each element of a list.
func (e *Engine) showsList(st *State, t *Term, gen, n *Term, each func(w walk, b *State, el *Term) verdict) verdict {
	t = e.canon(t)
	if t.isConst() && st.facts.leq(n, tZero) {
		return vOK
	}
	if t.op != "joined" && st.facts.leq(n, tInt(3)) {
		// written out one by one
		if st.facts.leq(n, tInt(1)) && st.facts.leq(tInt(1), n) {
			return each(walk{gen: e.canon(gen), n: n, sig: tZero}, st, t)
		}
		return vUnk("the text of a short list is %s", t)
	}
	if t.op != "joined" {
		return e.wrongText(t, "joined from the elements of "+gen.String())
	}
	if sep := t.args[1]; !sep.isConst() || sep.s == "" || strings.ContainsAny(sep.s, "0123456789-") {
		return vBad("the elements are separated by %s", t.args[1])
	}
	for _, p := range contentParts(e.canon(t.args[0])) {
		if p.op == "list" && len(p.args) > 0 && e.fixedTexts(p.args) {
			return vBad("the elements are joined with %s", p)
		}
	}
	return e.folds(st, t.args[0], app(KOther, "list"), gen, n, e.maps(each))
}

// values: each element shows its value.
func (e *Engine) values(w walk, b *State, el *Term) verdict {
	return e.showsNumber(b, el, "the value", e.equals(b, w.elem(KInt, ".Value")))
}

// groupOf: the text lists the values of a group.
func (e *Engine) groupOf(w walk, b *State, t *Term) verdict {
	in := w.elem(KOther, ".Elements")
	return e.showsList(b, t, in, e.lengthOf(b, in), e.values)
}

// only is the one part of a text that is not fixed.
func (e *Engine) onlyVar(t *Term, want string, f func(x *Term) verdict) verdict {
	vars, _ := textParts(e.canon(t))
	if len(vars) == 0 {
		return f(e.canon(t))
	}
	if len(vars) != 1 {
		return e.wrongText(t, want)
	}
	return f(vars[0])
}

// short: a list that may be written out one by one.
func (e *Engine) short(st *State, n *Term, v verdict) verdict {
	if !v.ok && v.unk == "" && n != nil && st.facts.leq(n, tInt(3)) && !st.facts.leq(n, tInt(1)) {
		return vUnk("a list of at most three elements")
	}
	return v
}

// total: the number is the sum of the dice drawn.
func (e *Engine) total(st *State) func(x *Term) verdict {
	return func(x *Term) verdict {
		gen, n := e.drawn(st)
		return e.folds(st, x, tZero, gen, n, e.adds(".Value"))
	}
}

type messageParts struct {
	e  *Engine
	st *State
	sl *SliceV
}

// back is the i-th part from the end.
func (m messageParts) back(i int64) *Term {
	if !m.sl.n.isConst() {
		undec("a message of an unknown number of parts")
	}
	if m.sl.n.k <= i {
		return tStr("")
	}
	t, ok := m.e.elementAt(m.st, m.sl, m.sl.n.k-1-i).(*Term)
	if !ok {
		undec("part of a message")
	}
	return t
}

// shown is the list whose elements the message shows, and the sums of its
// groups.
type shown struct{ gen, n, sums *Term }

func init() {
	checks["C31"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the execution of every form of command, with the value its evaluation yields replaced by arbitrary numbers and lists of any length: the parts of the message, as terms over these, are the numbers themselves and the texts joined from each element of the lists once and in order"
		r.Assume = append(r.Assume, "the figures are those of the dice (C23, C25, C27); the formula is that of the command (C12)")
		n := node("num")
		roll := func(op string) *expr { return node(op, node("many"), node("faces")) }
		bl := node("rolls", roll("B"))
		rl := node("rolls", roll("R"), node("threshold"))
		ul := node("uexpr", node("rolls", roll("U"), node("threshold")), node("nobonus"))
		fig, cnt, most, all := namedSym(KInt, "figure"), namedSym(KInt, "count"), namedSym(KInt, "largest"), namedSym(KInt, "total")
		said := namedSym(KStr, "item")
		run := func(what string, f *expr, each func(e *Engine, m messageParts, v shown, pos string)) {
			e := execEngine(p)
			e.sequences()
			e.joins = true
			e.stubRollDice()
			var v shown
			e.input(fig, cnt, most, all, said)
			number := func(x *Term) func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
				return func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
					o, st := e.newObject(st, "NewInteger", x)
					return []Outcome{{st, []Value{o}}}
				}
			}
			e.stubs["(*pkg/core/object.URollExprResult).MaxValue"] = number(most)
			e.stubs["(*pkg/core/object.URollExprResult).SumOfValues"] = number(all)
			var sums Value
			e.stubs["(*pkg/core/object.URollExprResult).SumOfGroups"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
				return []Outcome{{st, []Value{sums}}}
			}
			list := func(st *State) (Value, *State) {
				i, st := e.newObject(st, "NewInteger", freshSym(KInt, "value"))
				a, l, st := e.anyArray(st, "values", i)
				v = shown{gen: e.contentOf(st, l), n: l.n}
				return a, st
			}
			groups := func(st *State) (Value, *State) {
				g, l, st := e.anyGroups(st)
				v = shown{gen: e.contentOf(st, l), n: l.n}
				i, st := e.newObject(st, "NewInteger", freshSym(KInt, "sum"))
				a, sl, st := e.anyArray(st, "sums", i)
				st.facts.addLe(sl.n, l.n, 0)
				st.facts.addLe(l.n, sl.n, 0)
				sums, v.sums = a, e.contentOf(st, sl)
				return g, st
			}
			e.performed(r, what, func(st *State) (Value, *State) {
				if f == nil {
					s, st := e.construct(st, "NewString", freshSym(KStr, "text"))
					c, st := e.construct(st, "NewChoice", s)
					e.evalsTo(st, c, func(st *State) (Value, *State) { return e.newObject(st, "NewString", said) })
					return c, st
				}
				k := 0
				nd, st := e.usable(st, f, &k)
				e.evalsTo(st, nd, func(st *State) (Value, *State) {
					c, st := e.newObject(st, "NewInteger", cnt)
					switch f.op {
					case "calc", "dexpr":
						return e.newObject(st, "NewInteger", fig)
					case "bcomp":
						a, st := list(st)
						return e.newObject(st, "NewBRollCompResult", a, c)
					case "rcomp":
						g, st := groups(st)
						return e.newObject(st, "NewRRollCompResult", g, c)
					case "rolls":
						if f.kids[0].op == "B" {
							return list(st)
						}
						return groups(st)
					}
					g, st := groups(st)
					m, st := e.newObject(st, "NewInteger", fig)
					u, st := e.newObject(st, "NewURollExprResult", g, m)
					if f.op == "uexpr" {
						return u, st
					}
					return e.newObject(st, "NewURollCompResult", u, c)
				})
				if f.op == "dcomp" {
					delete(e.stubs, "(*pkg/core/evaluator.Evaluator).Eval")
				}
				return nd, st
			}, func(o Outcome, pos string) {
				sl, ok := e.fieldOf(o.st, o.ret[0], "MessageParts").(*SliceV)
				if !ok {
					undec("a message without parts")
				}
				m := messageParts{e, o.st, sl}
				each(e, m, v, pos)
				id, ok := e.fieldOf(o.st, o.ret[0], "GameID").(*Term)
				if !ok {
					undec("a result without a game")
				}
				var want []*Term
				for i := int64(0); sl.n.isConst() && i < sl.n.k; i++ {
					vs, _ := textParts(e.canon(m.back(sl.n.k - 1 - i)))
					want = append(want, vs...)
				}
				vs, _ := textParts(e.canon(id))
				want = append(vs, want...)
				for _, w := range want {
					if w.op == "sym" && e.recOf[w] == nil {
						e.input(w)
					}
				}
				fn := e.method("pkg/core/command", "Result", "Message")
				st := o.st.clone()
				if q, ok := st.resolve(o.ret[0]).(*PtrV); ok {
					// whatever else there is in the result
					s := st.load(q).(*StructV)
					u := s.T.Underlying().(*types.Struct)
					for i := 0; i < u.NumFields(); i++ {
						if f := u.Field(i); f.Name() != "GameID" && f.Name() != "MessageParts" {
							st.store(&PtrV{q.obj, pathAdd(q.path, i)}, e.havoc(f.Type(), f.Name(), st))
						}
					}
				}
				for _, x := range e.callFunc(nil, nil, fn, []Value{o.ret[0]}, nil, st, nil) {
					r.verdict(func() verdict {
						t, ok := x.st.resolve(x.ret[0]).(*Term)
						if !ok {
							return vUnk("the message is a %T", x.ret[0])
						}
						got, _ := textParts(e.canon(t))
						for i, w := range want {
							if i >= len(got) || got[i] != w {
								return e.wrongText(t, "made of the game and all parts in order")
							}
						}
						if len(got) != len(want) {
							return e.wrongText(t, "made of the game and all parts in order")
						}
						return vOK
					}(), "message-complete", what, e.p.Pos(fn.Pos()))
				}
			})
		}
		numberIn := func(what string, i int64, x *Term) func(e *Engine, m messageParts, v shown, pos string) {
			return func(e *Engine, m messageParts, v shown, pos string) {
				r.verdict(e.showsNumber(m.st, m.back(i), x.String(), e.equals(m.st, x)), "figure-shown", what, pos)
			}
		}
		bValues := func(e *Engine, m messageParts, i int64, v shown, what, pos string) {
			r.verdict(e.short(m.st, v.n, e.onlyVar(m.back(i), "a list", func(t *Term) verdict { return e.showsList(m.st, t, v.gen, v.n, e.values) })), "values-shown", what, pos)
		}
		rValues := func(e *Engine, m messageParts, i int64, v shown, what, pos string) {
			r.verdict(e.short(m.st, v.n, e.onlyVar(m.back(i), "a list", func(t *Term) verdict {
				return e.showsList(m.st, t, v.gen, v.n, func(w walk, b *State, el *Term) verdict {
					return e.short(b, e.lengthOf(b, w.elem(KOther, ".Elements")), e.onlyVar(el, "a group", func(t *Term) verdict { return e.groupOf(w, b, t) }))
				})
			})), "values-shown", what, pos)
		}
		uValues := func(e *Engine, m messageParts, i int64, v shown, what, pos string) {
			r.verdict(e.short(m.st, v.n, func() verdict {
				t := e.canon(m.back(i))
				vars, fixed := textParts(t)
				sign := strings.Join(fixed, "")
				switch {
				case len(vars) == 1:
					if !m.st.facts.leq(fig, tZero) || !m.st.facts.leq(tZero, fig) {
						return vBad("the bonus is not shown when%s", factsText(m.st))
					}
				case len(vars) == 2 && vars[1].op == "itoa":
					want := fig
					switch {
					case strings.HasSuffix(sign, "-"):
						want = tNeg(fig)
					case !strings.HasSuffix(sign, "+") && !m.st.facts.leq(fig, tZero), !m.st.facts.leq(tZero, fig) && strings.HasSuffix(sign, "+"):
						return vBad("the bonus is shown with the sign %q when%s", sign, factsText(m.st))
					}
					if v := e.equals(m.st, want)(vars[1].args[0]); !v.ok {
						return v
					}
				default:
					return e.wrongText(t, "the groups and the bonus")
				}
				return e.showsList(m.st, vars[0], v.gen, v.n, func(w walk, b *State, el *Term) verdict {
					el = e.canon(el)
					vars, _ := textParts(el)
					if len(vars) == 0 || vars[0].op != "itoa" || len(vars) > 2 {
						return e.short(b, e.lengthOf(b, w.elem(KOther, ".Elements")), e.wrongText(el, "the sum of a group and its values"))
					}
					if x := e.equals(b, app(KInt, "at.Value", v.sums, tAddK(w.sig, w.off)))(vars[0].args[0]); !x.ok {
						return x
					}
					if len(vars) == 1 {
						in := w.elem(KOther, ".Elements")
						if n := e.lengthOf(b, in); n == nil || !b.facts.leq(n, tInt(1)) {
							return vBad("the values of a group are not shown when%s", factsText(b))
						}
						return vOK
					}
					return e.groupOf(w, b, vars[1])
				})
			}()), "values-shown", what, pos)
		}
		run("calc", node("calc", n), numberIn("value of a formula", 0, fig))
		run("choice", nil, func(e *Engine, m messageParts, v shown, pos string) {
			r.verdict(e.onlyVar(m.back(0), "the item", func(t *Term) verdict {
				if t == said {
					return vOK
				}
				return e.wrongText(t, "the item")
			}), "figure-shown", "item chosen", pos)
		})
		dice := func(e *Engine, m messageParts, i int64, what, pos string) {
			_, n := e.drawn(m.st)
			r.verdict(e.short(m.st, n, func() verdict {
				vars, _ := textParts(e.canon(m.back(i)))
				if len(vars) == 1 && vars[0].op == "itoa" && e.total(m.st)(vars[0].args[0]).ok {
					return vBad("only the sum of the dice is shown when%s", factsText(m.st))
				}
				if len(vars) != 2 || vars[0].op != "itoa" {
					return e.wrongText(m.back(i), "the sum and the values of the dice")
				}
				if v := e.total(m.st)(vars[0].args[0]); !v.ok {
					return v
				}
				gen, n := e.drawn(m.st)
				return e.showsList(m.st, vars[1], gen, n, e.values)
			}()), "values-shown", what, pos)
		}
		run("dexpr", node("dexpr", roll("D")), func(e *Engine, m messageParts, v shown, pos string) {
			numberIn("total of a sum roll", 0, fig)(e, m, v, pos)
			dice(e, m, 1, "dice of a sum roll", pos)
		})
		run("dcomp", node("dcomp", node(">=", roll("D"), n)), func(e *Engine, m messageParts, v shown, pos string) {
			r.verdict(e.showsNumber(m.st, m.back(1), "the total", e.total(m.st)), "figure-shown", "total of a compared sum roll", pos)
			dice(e, m, 2, "dice of a compared sum roll", pos)
		})
		run("blist", bl, func(e *Engine, m messageParts, v shown, pos string) { bValues(e, m, 0, v, "dice of a B roll", pos) })
		run("bcomp", node("bcomp", node(">=", bl, n)), func(e *Engine, m messageParts, v shown, pos string) {
			numberIn("successes of a B roll", 0, cnt)(e, m, v, pos)
			bValues(e, m, 1, v, "dice of a compared B roll", pos)
		})
		run("rlist", rl, func(e *Engine, m messageParts, v shown, pos string) { rValues(e, m, 0, v, "dice of an R roll", pos) })
		run("rcomp", node("rcomp", node(">=", rl, n)), func(e *Engine, m messageParts, v shown, pos string) {
			numberIn("successes of an R roll", 0, cnt)(e, m, v, pos)
			rValues(e, m, 1, v, "dice of a compared R roll", pos)
		})
		run("uexpr", ul, func(e *Engine, m messageParts, v shown, pos string) {
			r.verdict(func() verdict {
				t := e.canon(m.back(0))
				vars, fixed := textParts(t)
				if len(vars) != 2 || vars[0].op != "itoa" || vars[1].op != "itoa" || len(fixed) == 0 || strings.ContainsAny(strings.Join(fixed, ""), "0123456789-") {
					return e.wrongText(t, "the maximum and the total")
				}
				if v := e.equals(m.st, most)(vars[0].args[0]); !v.ok {
					return v
				}
				return e.equals(m.st, all)(vars[1].args[0])
			}(), "figure-shown", "maximum and total of a U roll", pos)
			uValues(e, m, 1, v, "dice of a U roll", pos)
		})
		run("ucomp", node("ucomp", node(">=", ul, n)), func(e *Engine, m messageParts, v shown, pos string) {
			numberIn("successes of a U roll", 0, cnt)(e, m, v, pos)
			uValues(e, m, 1, v, "dice of a compared U roll", pos)
		})
		r.Min("figure-shown", 8)
		r.Min("values-shown", 8)
		r.Min("message-complete", 10)
	}
}
