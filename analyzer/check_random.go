package main

// randomNumbers checks that a random number of a range is drawn with one die
// that has a face for every number of the range, and is the number at the
// position of the value of the die.
func randomNumbers(p *Prog, r *Report) {
	e := execEngine(p)
	e.sequences()
	e.stubRollDice()
	var min, max *Term
	mk := func(st *State) (Value, *State) {
		var a, b Value
		a, min, st = e.intNode(st, "min")
		b, max, st = e.intNode(st, "max")
		return e.construct(st, "NewRandomNumber", a, b)
	}
	e.evaluated(r, "random-number", mk, func(o Outcome, pos string) {
		r.verdict(e.randomOf(o, e.scalarOf(o.st, o.ret[0]), min, max), "random-number", "value of a random number", pos)
	})
	r.Try("random number in an expression", func() {
		dv := e.method("pkg/core/evaluator", "Evaluator", "DetermineValues")
		ev := e.method("pkg/core/evaluator", "Evaluator", "Eval")
		e.inScope("determined random number", func() {
			st := newState()
			evv, st := e.newEvaluator(st)
			node, st := mk(st)
			cmd, st := e.construct(st, "NewDRollExpr", node)
			n := 0
			for _, o := range e.callFunc(nil, nil, dv, []Value{evv, cmd}, nil, st, nil) {
				if e.nilness(o.st, o.ret[0]) != "nil" {
					continue
				}
				for _, q := range e.callFunc(nil, nil, ev, []Value{evv, cmd}, nil, o.st, nil) {
					if e.nilness(q.st, q.ret[1]) != "nil" {
						continue
					}
					n++
					r.verdict(e.randomOf(q, e.scalarOf(q.st, q.ret[0]), min, max), "random-number", "value of a random number in an expression", e.p.Pos(dv.Pos()))
				}
			}
			if n == 0 {
				undec("no random number is drawn")
			}
		})
	})
	r.Min("random-number", 2)
}

func (e *Engine) randomOf(o Outcome, got, min, max *Term) verdict {
	ds := eventsOf(o.st, "draw")
	if len(ds) != 1 {
		return vBad("%d rolls are made for a random number", len(ds))
	}
	num, sides, gen := e.canon(ds[0].Vals[0].(*Term)), e.canon(ds[0].Vals[1].(*Term)), ds[0].Vals[2].(*Term)
	if num != tInt(1) {
		return vBad("%s dice are rolled for a random number", num)
	}
	if want := tAddK(tAdd(max, tMul(tInt(-1), min)), 1); sides != want {
		if !e.understood(sides) {
			return vUnk("the die has %s faces", sides)
		}
		return vBad("the die of a random number has %s faces instead of %s, if%s", sides, want, factsText(o.st))
	}
	got = e.canon(got)
	want := tAddK(tAdd(min, app(KInt, "at.Value", gen, tZero)), -1)
	if got != want {
		if got == nil || !e.understood(got) {
			return vUnk("the random number is %s", got)
		}
		return vBad("the random number is %s instead of %s, if%s", got, want, factsText(o.st))
	}
	return vOK
}
