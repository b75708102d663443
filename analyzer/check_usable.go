package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C02, second part: commands whose numbers are usable.

var usableLeaves = map[string]bool{"num": true, "count": true, "many": true, "faces": true, "divisor": true, "threshold": true, "low": true, "high": true}

// usable builds the node of an expression whose leaves are numbers that can
// be used where they stand.
func (e *Engine) usable(st *State, t *expr, k *int) (Value, *State) {
	if usableLeaves[t.op] {
		*k++
		v := namedSym(KInt, t.op+strconv.Itoa(*k))
		e.input(v)
		lo, hi := int64(0), int64(1<<40)
		switch t.op {
		case "count":
			lo, hi = 1, 100
		case "many":
			lo, hi = 1, 10000
		case "faces", "divisor":
			lo = 1
		case "threshold":
			lo = 2
		case "low":
			lo, hi = 1, 50
		case "high":
			// the nodes of a range are built one after the other
			st.facts.addLe(tAddK(namedSym(KInt, "low"+strconv.Itoa(*k-1)), 1), v, 0)
			lo, hi = 2, 100
		}
		st.facts.addLe(tInt(lo), v, 0)
		st.facts.addLe(v, tInt(hi), 0)
		return e.construct(st, "NewInt", v)
	}
	var args []Value
	for _, c := range t.kids {
		var v Value
		v, st = e.usable(st, c, k)
		args = append(args, v)
	}
	switch t.op {
	case "zero":
		return e.construct(st, "NewInt", tZero)
	case "none":
		return e.construct(st, "NilInstance")
	case "nobonus":
		return NilV{}, st
	case "rolls":
		rolls, typ, ctor, first := args, "RRollList", "NewRRollList", []Value{}
		if t.kids[0].op == "B" {
			typ, ctor, first = "BRollList", "NewBRollList", []Value{args[0]}
		} else {
			first, rolls = []Value{args[0], args[len(args)-1]}, args[:len(args)-1]
		}
		l, st := e.construct(st, ctor, first...)
		for _, x := range rolls[1:] {
			st = single(e.callFunc(nil, nil, e.method("pkg/core/ast", typ, "Append"), []Value{l, x}, nil, st, nil), "Append").st
		}
		if e.seqMode {
			// the rolls themselves are dealt with apart
			e.evalsTo(st, l, func(st *State) (Value, *State) {
				g, _, st := e.anyGroups(st)
				return g, st
			})
		}
		return l, st
	case "uexpr":
		u, st := e.construct(st, "NewURollExpr", args...)
		if e.seqMode {
			e.evalsTo(st, u, func(st *State) (Value, *State) {
				g, _, st := e.anyGroups(st)
				m, st := e.newObject(st, "NewInteger", freshSym(KInt, "modifier"))
				return e.newObject(st, "NewURollExprResult", g, m)
			})
		}
		return u, st
	case "calc":
		return e.construct(st, "NewCalc", args...)
	case "dexpr":
		return e.construct(st, "NewDRollExpr", args...)
	case "dcomp":
		return e.construct(st, "NewDRollComp", args...)
	case "bcomp":
		return e.construct(st, "NewBRollComp", args...)
	case "rcomp":
		return e.construct(st, "NewRRollComp", args...)
	case "ucomp":
		return e.construct(st, "NewURollComp", args...)
	case "=", "<>", "<", ">", "<=", ">=":
		return e.construct(st, "NewCompare", args[0], tStr(t.op), args[1])
	}
	return e.construct(st, exprMakers[t.op], args...)
}

// usableForms lists representative commands of every form.
func usableForms() (out []*expr) {
	n, z := node("num"), node("divisor")
	d := node("D", node("count"), node("faces"))
	rn := node("...", node("low"), node("high"))
	u := func(x *expr) *expr { return node("neg", x) }
	var ints []*expr
	ints = append(ints, n, u(n), u(u(n)), node("/", n, u(z)), node("*", u(n), node("+", n, n)))
	for _, op := range []string{"+", "-", "*"} {
		ints = append(ints, node(op, n, n))
	}
	for _, op := range []string{"/", "/U", "/R"} {
		ints = append(ints, node(op, n, z), node(op, u(n), z))
	}
	for _, x := range ints {
		out = append(out, node("calc", x))
	}
	var sums []*expr
	for _, x := range []*expr{d, rn} {
		sums = append(sums, x, u(x), u(u(x)), u(node("+", x, n)))
		for _, op := range []string{"+", "-", "*"} {
			sums = append(sums, node(op, x, n), node(op, n, x), node(op, u(x), n), node(op, n, u(x)))
		}
		sums = append(sums, node("/", x, z), node("/U", x, z), node("/R", x, z))
	}
	sums = append(sums, node("D", rn, node("faces")), node("D", node("count"), rn), node("D", node("+", node("count"), node("count")), node("*", node("divisor"), node("divisor"))), node("+", d, rn), node("-", u(rn), d))
	for _, x := range sums {
		out = append(out, node("dexpr", x), node("dcomp", node(">=", x, n)), node("dcomp", node("<", x, u(n))))
	}
	ops := []string{"=", "<>", "<", ">", "<=", ">="}
	for i, op := range ops {
		out = append(out, node("dcomp", node(op, d, ints[(2*i+3)%len(ints)])))
	}
	roll := func(op string) *expr { return node(op, node("count"), node("faces")) }
	blists := []*expr{node("rolls", roll("B")), node("rolls", roll("B"), roll("B")), node("rolls", node("B", rn, node("faces")))}
	for i, l := range blists {
		out = append(out, l)
		for j, op := range ops {
			out = append(out, node("bcomp", node(op, l, ints[(i+2*j)%len(ints)])))
		}
	}
	th := node("threshold")
	for _, l := range []*expr{node("rolls", roll("R"), th), node("rolls", roll("R"), roll("R"), th), node("rolls", roll("R"), node("+", th, n)), node("rolls", roll("R"), node("none"))} {
		out = append(out, l, node("rcomp", node(">=", l, th)), node("rcomp", node("<=", l, node("*", n, n))), node("rcomp", node("=", l, u(n))))
	}
	for _, l := range []*expr{node("rolls", roll("U"), th), node("rolls", roll("U"), roll("U"), th), node("rolls", roll("U"), node("none"))} {
		zero := node("zero")
		for _, b := range []*expr{node("nobonus"), node("+", zero, n), node("-", zero, n), node("+", zero, node("-", n, n)), node("+", zero, node("*", n, n)), node("+", zero, u(n)), node("-", zero, node("/U", n, z))} {
			x := node("uexpr", l, b)
			out = append(out, x)
			if b.op != "-" {
				out = append(out, node("ucomp", node(">=", x, n)), node("ucomp", node("<>", x, u(n))))
			}
		}
	}
	return out
}

// rerolls: dice may be rolled again.
func (t *expr) rerolls() bool {
	if t.op == "R" || t.op == "U" {
		return true
	}
	for _, k := range t.kids {
		if k.rerolls() {
			return true
		}
	}
	return false
}

func (t *expr) form() string {
	if usableLeaves[t.op] {
		return t.op
	}
	s := t.op + "("
	for i, k := range t.kids {
		if i > 0 {
			s += " "
		}
		s += k.form()
	}
	return s + ")"
}

// usableNumbers executes commands whose numbers are usable: only the die
// feeder may make them fail.
func (e *Engine) usableNumbers(r *Report, lists bool) {
	if lists {
		e.sequences()
	} else {
		e.inlining()
	}
	e.stubRollDice()
	roll := e.stubs["(*pkg/core/evaluator.Evaluator).RollDice"]
	e.stubs["(*pkg/core/evaluator.Evaluator).RollDice"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		outs := roll(e, fr, st, args, site)
		for i := range outs {
			if ev, ok := outs[i].ret[1].(*ErrV); ok {
				c := *ev
				c.class = "feeder"
				outs[i].ret[1] = &c
			}
		}
		return outs
	}
	ex := e.fn("pkg/core/command.Execute")
	eval := e.method("pkg/core/evaluator", "Evaluator", "Eval")
	rolls := false
	run := func(what string, mk func(st *State) (Value, *State)) {
		t0 := time.Now()
		r.Try("usable: "+what, func() {
			defer func() {
				if os.Getenv("VFA_TIME") != "" {
					fmt.Fprintln(os.Stderr, what, time.Since(t0))
				}
			}()
			var outs []Outcome
			e.inScope("usable:"+what, func() {
				st := newState()
				ev, st := e.newEvaluator(st)
				n, st := mk(st)
				st.events = nil
				if rolls {
					outs = e.callFunc(nil, nil, eval, []Value{ev, n}, nil, st, nil)
				} else {
					outs = e.callFunc(nil, nil, ex, []Value{n, tStr("DiceBot"), ev}, nil, st, nil)
				}
			})
			ok, good := true, false
			for _, o := range outs {
				switch e.nilness(o.st, o.ret[1]) {
				case "nil":
					good = true
					continue
				case "nonnil":
				default:
					undec("an outcome that may be an error")
				}
				evs := e.errValues(o.st, o.ret[1])
				if len(evs) == 0 {
					undec("error of unknown origin: %T", o.st.resolve(o.ret[1]))
				}
				for _, ev := range evs {
					if ev.class == "feeder" {
						continue
					}
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					ok = false
					r.Fail("usable-numbers", what+": "+ev.site, ev.pos, "a command whose numbers can be used may end in an error although every die is supplied, when"+factsText(o.st))
				}
			}
			if ok && good {
				r.OK("usable-numbers", what, e.p.Pos(ex.Pos()), "only the die feeder can make it fail")
			} else if ok {
				undec("no successful outcome")
			}
		})
	}
	for _, f := range usableForms() {
		f := f
		if f.rerolls() != lists {
			continue
		}
		run(f.form(), func(st *State) (Value, *State) {
			k := 0
			return e.usable(st, f, &k)
		})
	}
	if lists {
		delete(e.stubs, "(*pkg/core/evaluator.Evaluator).Eval")
		rolls = true
		for _, kind := range []string{"NewRRoll", "NewURoll"} {
			kind := kind
			run("rolls of a list made with "+kind, func(st *State) (Value, *State) {
				th := namedSym(KInt, "threshold")
				e.input(th)
				for name, hi := range map[string]int64{"num": 100, "sides": 1 << 40} {
					v := namedSym(KInt, name)
					st.facts.addLe(tInt(1), v, 0)
					st.facts.addLe(v, tInt(hi), 0)
				}
				st.facts.addLe(tInt(2), th, 0)
				l, _, st := rollList(e, st, kind, th)
				if kind == "NewURoll" {
					return e.construct(st, "NewURollExpr", l, NilV{})
				}
				return l, st
			})
		}
		return
	}
	run("a choice of any length", func(st *State) (Value, *State) {
		s, st := e.construct(st, "NewString", freshSym(KStr, "text"))
		l, st := e.construct(st, "NewChoice", s)
		items, st := e.nodeWith(st, l, "Items", func(st *State) (Value, *State) {
			return e.construct(st, "NewString", freshSym(KStr, "text"))
		})
		st.facts.addLe(items.n, tInt(10000), 0)
		return l, st
	})
	r.Min("usable-numbers", 100)
}
