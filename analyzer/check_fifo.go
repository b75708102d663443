package main

const feederPkg = "pkg/core/dice/feeder"

func init() {
	checks["C30"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of every operation of the dice queue on a queue of any content, with the content before and after read through the operation that lists it: taking a die yields the first one and leaves the rest in order, or fails exactly if there is none; adding appends at the end in order; replacing and clearing leave exactly what was given; the count is the length of the list"
		r.Assume = append(r.Assume, "the lists given are not changed behind the queue's back (C10)")
		die := p.NamedType("pkg/core/dice", "Die")
		// a queue of any content, before the operation
		type ctx struct {
			e           *Engine
			q           *PtrV
			g, n        *Term // content and length before
			first, rest *Term
		}
		// with runs one operation on a queue of any content
		with := func(what, method string, args func(e *Engine, st *State) []Value, each func(c ctx, args []Value, o Outcome, pos string)) {
			r.Try(what, func() {
				e := execEngine(p)
				e.sequences()
				fn := e.method(feederPkg, "Queue", method)
				var c ctx
				var as []Value
				var outs []Outcome
				e.inScope("queue:"+what, func() {
					o := single(e.callFunc(nil, nil, e.fn(feederPkg+".NewEmptyQueue"), nil, nil, newState(), nil), "NewEmptyQueue")
					q := e.pointerOf(o.st, o.ret[0])
					if q == nil {
						undec("a new queue is %T", o.ret[0])
					}
					e.anyQueue(o.st, q, "queue")
					before := single(e.callFunc(nil, nil, e.method(feederPkg, "Queue", "Dice"), []Value{q}, nil, o.st.clone(), nil), "Queue.Dice")
					g, n := e.elementsOf(before.st, before.ret[0])
					g = e.norm(before.st, g)
					c = ctx{e: e, q: q, g: g, n: n, first: app(KOther, "at", g, tZero), rest: app(KOther, "sub", g, tInt(1), tSub(n, tInt(1)))}
					if args != nil {
						as = args(e, o.st)
					}
					o.st.events = nil
					outs = e.callFunc(nil, nil, fn, append([]Value{q}, as...), nil, o.st, nil)
				})
				n := 0
				for _, o := range outs {
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					n++
					each(c, as, o, p.Pos(fn.Pos()))
				}
				if n == 0 {
					undec("no outcome")
				}
			})
		}
		after := func(c ctx, o Outcome) (*State, *Term) { return c.e.queueContent(o.st, c.q) }
		list := func(e *Engine, st *State) []Value {
			l := e.anyList(st, die, "dice", e.havoc(die, "die", st))
			if g := e.contentOf(st, l); g != nil {
				e.input(g)
			}
			return []Value{l}
		}
		one := func(e *Engine, st *State) []Value {
			d := e.havoc(die, "die", st)
			leaves(e.code(st, d), func(t *Term) { e.inputs[t] = true })
			return []Value{d}
		}
		// a new queue lists what it was given
		r.Try("new queue", func() {
			e := execEngine(p)
			e.sequences()
			nq := e.fn(feederPkg + ".NewQueue")
			e.inScope("queue:new", func() {
				st := newState()
				as := list(e, st)
				for _, o := range e.callFunc(nil, nil, nq, as, nil, st, nil) {
					q := e.pointerOf(o.st, o.ret[0])
					if q == nil {
						undec("a new queue is %T", o.ret[0])
					}
					s2, g := e.queueContent(o.st, q)
					w, _ := e.elementsOf(s2, as[0])
					r.verdict(e.sameRun(s2, g, w), "new-queue", "new queue and the dice given", p.Pos(nq.Pos()))
				}
				ne := e.fn(feederPkg + ".NewEmptyQueue")
				for _, o := range e.callFunc(nil, nil, ne, nil, nil, newState(), nil) {
					s2, g := e.queueContent(o.st, e.pointerOf(o.st, o.ret[0]))
					r.verdict(e.sameRun(s2, g, app(KOther, "list")), "new-queue", "new empty queue", p.Pos(ne.Pos()))
				}
			})
		})
		with("Next", "Next", func(e *Engine, st *State) []Value {
			s := namedSym(KInt, "sides")
			e.input(s)
			return []Value{s}
		}, func(c ctx, as []Value, o Outcome, pos string) {
			n := c.n
			if c.e.nilness(o.st, o.ret[1]) == "nonnil" {
				st, g := after(c, o)
				r.verdict(c.e.sameRun(st, g, c.g), "first-out", "queue after no die could be taken", pos)
				v := vOK
				if !st.facts.leq(n, tZero) {
					v = vBad("taking a die fails although the queue holds %s", n)
				}
				r.verdict(v, "first-out", "when taking a die fails", pos)
				return
			}
			st, g := after(c, o)
			if !st.facts.leq(tInt(1), n) {
				r.verdict(vBad("a die is taken from a queue that may be empty"), "first-out", "when taking a die succeeds", pos)
				return
			}
			r.verdict(vOK, "first-out", "when taking a die succeeds", pos)
			got, want := whole(c.e.canon(c.e.code(st, o.ret[0]))), c.first
			v := vOK
			if got != want {
				v = vUnk("the die taken is %s", got)
				if c.e.understood(got) {
					v = vBad("the die taken is %s instead of %s", got, want)
				}
			}
			r.verdict(v, "first-out", "the die taken", pos)
			r.verdict(c.e.sameRun(st, g, c.rest), "first-out", "queue after a die was taken", pos)
		})
		with("Push", "Push", one, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			r.verdict(c.e.sameRun(st, g, tCat(c.g, app(KOther, "list", c.e.code(st, as[0])))), "append", "queue after one die is added", pos)
		})
		with("Append", "Append", list, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			w, _ := c.e.elementsOf(st, as[0])
			r.verdict(c.e.sameRun(st, g, tCat(c.g, w)), "append", "queue after dice are added", pos)
		})
		with("Set", "Set", list, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			w, _ := c.e.elementsOf(st, as[0])
			r.verdict(c.e.sameRun(st, g, w), "replace", "queue after its dice are replaced", pos)
		})
		with("Clear", "Clear", nil, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			r.verdict(c.e.sameRun(st, g, app(KOther, "list")), "replace", "queue after it is cleared", pos)
		})
		with("Dice", "Dice", nil, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			r.verdict(c.e.sameRun(st, g, c.g), "only-looks", "queue after its dice are listed", pos)
		})
		with("Remaining", "Remaining", nil, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			r.verdict(c.e.sameRun(st, g, c.g), "only-looks", "queue after its dice are counted", pos)
			got, ok := o.ret[0].(*Term)
			if !ok {
				undec("the count is %T", o.ret[0])
			}
			v := vOK
			if !st.facts.leq(got, c.n) || !st.facts.leq(c.n, got) {
				v = vUnk("the count is %s", got)
				if c.e.understood(got) {
					v = vBad("the count is %s instead of the number of dice", got)
				}
			}
			r.verdict(v, "count", "number of dice remaining", pos)
		})
		with("IsEmpty", "IsEmpty", nil, func(c ctx, as []Value, o Outcome, pos string) {
			st, g := after(c, o)
			r.verdict(c.e.sameRun(st, g, c.g), "only-looks", "queue after it is asked whether it is empty", pos)
			got, ok := o.ret[0].(*Term)
			if !ok {
				undec("the answer is %T", o.ret[0])
			}
			yes, no := st.facts.clone(), st.facts.clone()
			v := vOK
			if yes.assume(got, true) && !yes.leq(c.n, tZero) || no.assume(got, false) && !no.leq(tInt(1), c.n) {
				v = vUnk("the answer is %s", got)
				if c.e.understood(got) {
					v = vBad("the answer is %s", got)
				}
			}
			r.verdict(v, "count", "whether the queue is empty", pos)
		})
		r.Min("new-queue", 2)
		r.Min("first-out", 5)
		r.Min("append", 2)
		r.Min("replace", 2)
		r.Min("only-looks", 3)
		r.Min("count", 2)
	}
}

// sameRun compares lists, also where both are runs of one list.
func (e *Engine) sameRun(st *State, a, b *Term) verdict {
	v := e.sameList(st, a, b)
	if v.unk == "" || a == nil || b == nil {
		return v
	}
	run := func(t *Term) (g, lo, n *Term) {
		t = e.norm(st, t)
		if t.op == "sub" && len(t.args) == 3 {
			return t.args[0], t.args[1], t.args[2]
		}
		return t, tZero, e.genLen[t]
	}
	ga, la, na := run(a)
	gb, lb, nb := run(b)
	if ga != gb || na == nil || nb == nil {
		return v
	}
	for _, p := range [][2]*Term{{na, nb}, {nb, na}, {la, lb}, {lb, la}} {
		if st.facts.leq(tAdd(p[0], tInt(1)), p[1]) {
			return vBad("%s instead of %s", e.norm(st, a), e.norm(st, b))
		}
	}
	return v
}
