package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rollList builds a list of rerolled rolls.
func rollList(e *Engine, st *State, kind string, threshold *Term) (Value, *SliceV, *State) {
	roll := func(st *State) (Value, *State) {
		a, _, st := e.intNode(st, "num")
		b, _, st := e.intNode(st, "sides")
		return e.construct(st, kind, a, b)
	}
	first, st := roll(st)
	var t Value
	if threshold != nil {
		t, st = e.construct(st, "NewInt", threshold)
	} else {
		t, st = e.construct(st, "NilInstance")
	}
	l, st := e.construct(st, "NewRRollList", first, t)
	rolls, st := e.nodeWith(st, l, "RRolls", roll)
	return l, rolls, st
}

const (
	numPath   = ".InfixExpressionImpl.left.Value"
	sidesPath = ".InfixExpressionImpl.right.Value"
)

// drawsIn are the draws of one iteration of a loop.
func (e *Engine) drawsIn(rec *loopRec, b *State) (out []*Event) {
	old := map[*Term]bool{}
	for _, ev := range eventsOf(rec.entry, "draw") {
		old[ev.Vals[2].(*Term)] = true
	}
	// what is left of earlier iterations
	used := map[*Term]bool{}
	for i, s := range rec.backs {
		if s != b {
			continue
		}
		for _, p := range rec.pos {
			e.eachGen(e.code(b, p.backs[i]), used)
		}
	}
	for _, ev := range eventsOf(b, "draw") {
		g := ev.Vals[2].(*Term)
		if !old[g] {
			out = append(out, ev)
		}
	}
	if len(out) > 1 {
		var in []*Event
		for _, ev := range out {
			if used[ev.Vals[2].(*Term)] {
				in = append(in, ev)
			}
		}
		if len(in) > 0 {
			out = in
		}
	}
	return out
}

// eachGen collects the lists a term depends on.
func (e *Engine) eachGen(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		t = e.canon(t)
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if e.genLen[t] != nil {
			out[t] = true
		}
		if p := e.recOf[t]; p != nil {
			for i, b := range p.rec.backs {
				add(e.code(b, p.backs[i]))
			}
		}
		for _, a := range t.args {
			add(a)
		}
	}
	add(t)
}

// appended is what an iteration adds at the end of a list.
func appended(sig, val *Term) ([]*Term, bool) {
	ps := parts(val)
	if len(ps) == 0 || ps[0] != sig {
		return nil, false
	}
	var out []*Term
	for _, p := range ps[1:] {
		if p.op != "list" {
			return nil, false
		}
		out = append(out, p.args...)
	}
	return out, true
}

// integers: a list of integers made of the values of the dice of a list.
func (e *Engine) integersOf(b *State, got, dice, n *Term) verdict {
	got = e.canon(got)
	if got.op == "list" && len(got.args) == 1 && b.facts.leq(n, tInt(1)) {
		return e.integerOf(b, got.args[0], app(KInt, "at.Value", dice, tZero))
	}
	return e.folds(b, got, app(KOther, "list"), dice, n, e.maps(func(w walk, b *State, el *Term) verdict {
		return e.integerOf(b, el, w.elem(KInt, ".Value"))
	}))
}

func (e *Engine) integerOf(b *State, el, want *Term) verdict {
	fs := refTo(el, "object.Integer")
	if len(fs) != 1 {
		return vUnk("an element is %s", el)
	}
	x := e.standFor(b, want)
	if fs[0] == want || x != nil && b.facts.leq(x, fs[0]) && b.facts.leq(fs[0], x) {
		return vOK
	}
	if e.understood(fs[0]) {
		return vBad("an element is %s instead of %s", fs[0], want)
	}
	return vUnk("an element is %s", fs[0])
}

// rerollQueue checks the loop that works through the queue of an R roll.
func (e *Engine) rerollQueue(o Outcome, rolls *SliceV, threshold *Term) verdict {
	gen, _ := e.elementsOf(o.st, e.fieldOf(o.st, o.ret[0], "Elements"))
	p := e.recOf[e.canon(gen)]
	if p == nil {
		if e.canon(gen).op == "list" && len(gen.args) == 0 {
			return vBad("no group of dice is rolled")
		}
		return vUnk("the groups are %s", gen)
	}
	rec := p.rec
	if en, ok := p.entry.(*Term); !ok || len(parts(en)) != 0 {
		return vUnk("the groups start with %s", e.valText(rec.entry, p.entry))
	}
	src := e.contentOf(o.st, rolls)
	var q *recPos
	for i, b := range rec.backs {
		draws := e.drawsIn(rec, b)
		if len(draws) != 1 {
			return vUnk("dice are drawn %d times", len(draws))
		}
		num, sides, dice := e.canon(draws[0].Vals[0].(*Term)), e.canon(draws[0].Vals[1].(*Term)), draws[0].Vals[2].(*Term)
		// the dice go into the groups
		val := e.canon(e.code(b, p.backs[i]))
		add, ok := appended(p.cur.(*Term), val)
		if !ok {
			return vUnk("the groups become %s", val)
		}
		if len(add) != 1 {
			return vBad("a roll adds %d groups", len(add))
		}
		arr := refTo(add[0], "object.Array")
		if len(arr) != 1 {
			return vUnk("a group is %s", add[0])
		}
		if v := e.integersOf(b, arr[0], dice, draws[0].Vals[0].(*Term)); !v.ok {
			return v
		}
		// the roll is the first one of the queue
		if !strings.HasPrefix(num.op, "at.") || len(num.args) != 2 {
			return vUnk("the number of dice is %s", num)
		}
		Q := num.args[0]
		qp := e.recOf[Q]
		if qp == nil || qp.rec != rec {
			return vUnk("rolls are taken from %s", Q)
		}
		if q == nil {
			q = qp
		}
		if q.cur != qp.cur {
			return vUnk("two queues")
		}
		if num.op != "at"+numPath {
			return vBad("the number of dice is %s", num)
		}
		if want := app(KInt, "at"+sidesPath, Q, tZero); sides != want {
			if e.understood(sides) {
				return vBad("the dice have %s faces and not those of the roll", sides)
			}
			return vUnk("the faces are %s", sides)
		}
		if num.args[1] != tZero {
			return vUnk("the roll taken is number %s", num.args[1])
		}
		// the rest stays in the queue
		qv := e.canon(e.code(b, qp.backs[i]))
		rest := parts(qv)
		n := e.lengthOf(b, Q)
		if n == nil {
			if ln := e.companion(qp); ln != nil {
				n = ln
			}
		}
		if n == nil {
			return vUnk("a queue of unknown length")
		}
		if b.facts.leq(n, tInt(1)) {
			if len(rest) > 0 && rest[0].op == "sub" {
				rest = rest[1:]
			}
		} else {
			if len(rest) == 0 || rest[0].op != "sub" && rest[0] != Q {
				if e.queueKnown(rest, Q) {
					return vBad("rolls that wait in the queue are lost: %s", qv)
				}
				return vUnk("the queue becomes %s", qv)
			}
			s := rest[0]
			if s == Q {
				return vBad("the roll stays in the queue")
			}
			if s.args[0] != Q || s.args[1] != tInt(1) || s.args[2] != tAddK(n, -1) {
				if s.args[0] == Q {
					return vBad("of the queue %s is left", s)
				}
				return vUnk("of the queue %s is left", s)
			}
			rest = rest[1:]
		}
		var more []*Term
		for _, x := range rest {
			if x.op != "list" {
				return vUnk("to the queue %s is added", x)
			}
			more = append(more, x.args...)
		}
		// one roll of as many dice as reached the threshold
		cond := e.counts(func(x *Term) *Term { return tLe(threshold, x) }, ".Value")
		vgen, vn := dice, draws[0].Vals[0].(*Term)
		switch len(more) {
		case 0:
			c, v := e.countIn(b, vgen, vn, arr[0], cond)
			if c == nil {
				return v
			}
			f := b.clone().facts
			if f.assume(tLe(tInt(1), c), true) {
				return vBad("no further group is rolled although dice may have reached the threshold")
			}
		case 1:
			fs := refTo(more[0], "ast.VariableInfixExpression")
			if len(fs) == 0 {
				return vUnk("to the queue %s is added", more[0])
			}
			ints := e.intsIn(more[0])
			if len(ints) != 2 {
				return vUnk("the further roll is %s", more[0])
			}
			if c := e.canon(ints[0]); c == num || c.isConst() && c != tInt(1) {
				return vBad("the further roll has %s dice", c)
			}
			if v := e.countOf(b, ints[0], vgen, vn, arr[0], cond); !v.ok {
				return v
			}
			if !b.facts.leq(tInt(1), ints[0]) {
				return vBad("a further group may be rolled although no die reached the threshold")
			}
			if ints[1] != sides {
				if e.understood(ints[1]) {
					return vBad("the further dice have %s faces", ints[1])
				}
				return vUnk("the further dice have %s faces", ints[1])
			}
		default:
			return vBad("a group causes %d further groups", len(more))
		}
	}
	if q == nil {
		return vUnk("no roll is taken from a queue")
	}
	if en, ok := e.code(rec.entry, q.entry), true; ok {
		if v := e.sameList(rec.entry, en, src); !v.ok {
			return v
		}
	}
	n := e.lengthOf(o.st, q.cur.(*Term))
	if n == nil {
		n = e.companion(q)
	}
	if n == nil {
		return vUnk("a queue of unknown length")
	}
	if o.st.facts.leq(n, tZero) || e.exhausted(o.st, rec) {
		return vOK
	}
	return vBad("the loop may end while a roll waits in the queue")
}

func (e *Engine) queueKnown(rest []*Term, q *Term) bool {
	for _, x := range rest {
		if x.op != "list" {
			return false
		}
	}
	return true
}

// companion is the place that holds the length of a list a loop changes.
func (e *Engine) companion(q *recPos) *Term {
	base := strings.TrimSuffix(strings.TrimSuffix(q.name, ".gen"), ".elems")
	for _, p := range q.rec.pos {
		if p.name == base+".len" || p.name == base+".glen" || p.name == base+".elems.glen" {
			if t, ok := p.cur.(*Term); ok {
				return t
			}
		}
	}
	return nil
}

// exhausted: a counter of the loop has reached at least a thousand rolls.
func (e *Engine) exhausted(st *State, rec *loopRec) bool {
	for _, p := range rec.pos {
		t, ok := p.cur.(*Term)
		if !ok || t.kind != KInt || t.op != "sym" {
			continue
		}
		one := true
		for _, b := range p.backs {
			bt, ok := b.(*Term)
			one = one && ok && bt == tAddK(t, 1)
		}
		if en, ok := p.entry.(*Term); one && ok && en.isConst() && en.k <= 1 && st.facts.leq(tInt(1000), t) {
			return true
		}
	}
	return false
}

// countedOut: a counter of the loop has ended it before a thousand rolls.
func (e *Engine) countedOut(st *State, rec *loopRec) bool {
	for _, p := range rec.pos {
		t, ok := p.cur.(*Term)
		if !ok || t.kind != KInt || t.op != "sym" {
			continue
		}
		one := true
		for _, b := range p.backs {
			bt, ok := b.(*Term)
			one = one && ok && bt == tAddK(t, 1)
		}
		en, ok := p.entry.(*Term)
		if !one || !ok || !en.isConst() || en.k < 0 || en.k > 1 {
			continue
		}
		for k := en.k + 2; k < 1000; k++ {
			if st.facts.leq(tInt(k), t) && st.clone().facts.assume(tEq(t, tInt(k)), true) {
				return true
			}
		}
	}
	return false
}

// intsIn are the numbers of the integer nodes in a node, from left to right.
func (e *Engine) intsIn(t *Term) (out []*Term) {
	if t.op == "ref:ast.Int" && len(t.args) > 0 {
		return []*Term{t.args[len(t.args)-1]}
	}
	if t.op+".Value" == "at"+sidesPath || t.op+".Value" == "at"+numPath {
		return []*Term{app(KInt, t.op+".Value", t.args...)}
	}
	for _, a := range t.args {
		out = append(out, e.intsIn(a)...)
	}
	return out
}

// countOf checks that c counts dice: going through the dice or through the
// group made of them.
func (e *Engine) countOf(b *State, c, dice, n, group *Term, step func(w walk, b *State, sig, val *Term) verdict) verdict {
	v := e.folds(b, c, tZero, dice, n, step)
	if v.ok {
		return v
	}
	if g := e.canon(group); g != dice {
		if x := e.lengthOf(b, g); x != nil || e.recOf[g] != nil {
			if v2 := e.folds(b, c, tZero, g, x, step); v2.ok || v2.bad != "" && v.bad == "" {
				return v2
			}
		}
	}
	return v
}

// countIn looks for a count among what the loops of an iteration compute.
func (e *Engine) countIn(b *State, dice, n, group *Term, step func(w walk, b *State, sig, val *Term) verdict) (*Term, verdict) {
	var v verdict
	for _, r := range e.loopRecs {
		for _, p := range r.pos {
			t, ok := p.cur.(*Term)
			if !ok || t.kind != KInt || t.op != "sym" || e.recOf[t] != p {
				continue
			}
			if w := e.countOf(b, t, dice, n, group, step); w.ok {
				return t, w
			} else if w.bad != "" && v.bad == "" {
				v = w
			}
		}
	}
	return nil, vUnk("no count of the dice")
}

// rollOn checks a loop that rolls one die after another into a group.
func (e *Engine) rollOn(g *recPos, threshold *Term, sides func(b *State, s *Term) verdict) verdict {
	en, ok := g.entry.(*Term)
	if !ok || len(parts(en)) != 0 {
		return vUnk("a group starts with %s", e.valText(g.rec.entry, g.entry))
	}
	for i, b := range g.rec.backs {
		val := e.canon(e.code(b, g.backs[i]))
		add, ok := appended(g.cur.(*Term), val)
		if !ok {
			return vUnk("a group becomes %s", val)
		}
		draws := e.drawsIn(g.rec, b)
		if len(draws) != 1 || draws[0].Vals[0] != Value(tInt(1)) {
			return vUnk("dice are drawn %d times", len(draws))
		}
		if len(add) != 1 {
			return vBad("for a die %d values go into the group", len(add))
		}
		die := app(KInt, "at.Value", draws[0].Vals[2].(*Term), tZero)
		if v := e.integerOf(b, add[0], die); !v.ok {
			return v
		}
		if v := sides(b, e.canon(draws[0].Vals[1].(*Term))); !v.ok {
			return v
		}
		if v := e.reached(b, die, threshold, true); !v.ok {
			return v
		}
	}
	return vOK
}

// reached: the decisions of a state say that the die reached the threshold,
// or that it did not.
func (e *Engine) reached(b *State, die, threshold *Term, want bool) verdict {
	x := e.standFor(b, die)
	if x == nil {
		if want {
			return vBad("another die is rolled whatever the value of the one before")
		}
		return vBad("no further die is rolled whatever the value of the last one")
	}
	f := b.clone().facts
	if f.assume(tLe(threshold, x), !want) {
		if want {
			return vBad("another die may be rolled after a value below the threshold, if%s", factsText(b))
		}
		return vBad("no further die is rolled although the last one may have reached the threshold, if%s", factsText(b))
	}
	return vOK
}

// openEnded checks the groups of a U roll.
func (e *Engine) openEnded(o Outcome, gen *Term, rolls *SliceV, threshold *Term) verdict {
	src := e.contentOf(o.st, rolls)
	return e.folds(o.st, gen, app(KOther, "list"), src, rolls.n, func(w walk, b *State, sig, val *Term) verdict {
		ps := parts(val)
		if len(ps) == 1 && ps[0] == sig {
			return vBad("a roll is left out")
		}
		if len(ps) != 2 || ps[0] != sig {
			return vUnk("a roll makes %s of the groups", val)
		}
		m := e.recOf[ps[1]]
		if m == nil {
			return vUnk("a roll adds %s", ps[1])
		}
		if en, ok := m.entry.(*Term); !ok || len(parts(en)) != 0 {
			return vUnk("the groups of a roll start with %s", e.valText(m.rec.entry, m.entry))
		}
		sides := func(b *State, s *Term) verdict {
			if s == w.elem(KInt, sidesPath) {
				return vOK
			}
			if e.understood(s) {
				return vBad("dice have %s faces", s)
			}
			return vUnk("dice have %s faces", s)
		}
		for i, mb := range m.rec.backs {
			mv := e.canon(e.code(mb, m.backs[i]))
			add, ok := appended(m.cur.(*Term), mv)
			if !ok {
				return vUnk("the groups of a roll become %s", mv)
			}
			if len(add) != 1 {
				return vBad("a die causes %d groups", len(add))
			}
			arr := refTo(add[0], "object.Array")
			if len(arr) != 1 {
				return vUnk("a group is %s", add[0])
			}
			gs := parts(arr[0])
			if len(gs) == 0 {
				return vBad("a group is empty")
			}
			if g := e.recOf[gs[0]]; g != nil {
				if v := e.rollOn(g, threshold, sides); !v.ok {
					return v
				}
				gs = gs[1:]
				if len(gs) == 0 {
					if e.exhausted(mb, g.rec) {
						continue
					}
					if e.countedOut(mb, g.rec) {
						return vBad("a group may end after a few dice although all have reached the threshold")
					}
					return vUnk("the end of a group")
				}
			}
			if len(gs) != 1 || gs[0].op != "list" || len(gs[0].args) != 1 {
				return vUnk("a group ends with %s", gs)
			}
			var last *Event
			for _, ev := range eventsOf(mb, "draw") {
				last = ev
			}
			if last == nil || last.Vals[0] != Value(tInt(1)) {
				return vUnk("no die is drawn")
			}
			die := app(KInt, "at.Value", last.Vals[2].(*Term), tZero)
			if v := e.integerOf(mb, gs[0].args[0], die); !v.ok {
				return v
			}
			if v := sides(mb, e.canon(last.Vals[1].(*Term))); !v.ok {
				return v
			}
			if v := e.reached(mb, die, threshold, false); !v.ok {
				return v
			}
		}
		// as many groups as dice
		n, want := e.companion(m), e.standFor(b, w.elem(KInt, numPath))
		if n == nil || want == nil {
			return vUnk("the number of groups")
		}
		if !b.facts.leq(n, want) || !b.facts.leq(want, n) {
			return vBad("the number of groups may differ from the number of dice")
		}
		return vOK
	})
}

// refused checks that no die is drawn if the threshold may be below two.
func (e *Engine) refused(r *Report, what string, threshold *Term, mk func(st *State) (Value, *State)) {
	r.Try(what, func() {
		ex := e.fn("pkg/core/command.Execute")
		drawn, bad := 0, ""
		e.stubs["(*pkg/core/evaluator.Evaluator).RollDice"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
			drawn++
			if threshold == nil {
				bad = "dice may be drawn although there is no threshold"
			} else if st.clone().facts.assume(tLe(threshold, tInt(1)), true) {
				bad = "dice may be drawn although the threshold is below two"
			}
			return []Outcome{}
		}
		e.inScope("refused:"+what, func() {
			st := newState()
			ev, st := e.newEvaluator(st)
			node, st := mk(st)
			st.events = nil
			e.callFunc(nil, nil, ex, []Value{node, tStr("DiceBot"), ev}, nil, st, nil)
		})
		if bad != "" {
			r.Fail("threshold refused", what, e.p.Pos(ex.Pos()), bad)
			return
		}
		if drawn == 0 && threshold != nil {
			undec("no dice are drawn by %s", what)
		}
		r.OK("threshold refused", what, e.p.Pos(ex.Pos()), "")
	})
}

// thresholdGiven checks that the threshold of the node an action makes is the
// expression between the brackets, and that there is none without brackets.
func (a *actionRun) thresholdGiven(r *Report, label string) {
	e := a.e
	n := 0
	for _, o := range a.outs {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		p := e.pointerOf(o.st, o.ret[0])
		if p == nil {
			return
		}
		s, ok := o.st.load(p).(*StructV)
		if !ok || structField(s.T, "Threshold") < 0 {
			return
		}
		n++
		what := "threshold of " + a.rule
		got := o.st.resolve(s.F[structField(s.T, "Threshold")])
		gotCode := e.canon(e.code(o.st, got))
		lv := o.st.resolve(a.labels[label])
		none := false
		switch lv.(type) {
		case *NilV:
			none = true
		case NilV:
			none = true
		case *LazyV:
			undec("%s is not looked at", label)
		}
		isNil := strings.HasPrefix(gotCode.op, "ref:ast.Nil")
		if none {
			switch {
			case isNil:
				r.OK("threshold given", what, a.pos, "")
			case e.understood(gotCode):
				r.Fail("threshold given", what, a.pos, "without brackets there is a threshold")
			default:
				undec("threshold %s", gotCode)
			}
			continue
		}
		if iv, ok := lv.(*IfaceV); ok {
			lv = o.st.resolve(iv.V)
		}
		sl, ok := lv.(*SliceV)
		if !ok {
			undec("%s is a %T", label, lv)
		}
		want := e.canon(e.code(o.st, e.elementAt(o.st, sl, 1)))
		switch {
		case want == gotCode:
			r.OK("threshold given", what, a.pos, "")
		case isNil || e.understood(gotCode):
			r.Fail("threshold given", what, a.pos, "the threshold is not the number between the brackets")
		default:
			undec("threshold %s", gotCode)
		}
	}
}

func init() {
	checks["C25"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the evaluator over symbolic sequences: the loop that works through the rolls of an R roll takes the first roll of the queue, keeps the rest, turns the dice drawn into one group and appends one roll of as many dice as the fold over the values counts at or above the threshold; in a U roll every iteration of the die loop follows a die at or above the threshold and every group ends with one below it; at the first draw of every reroll command the path condition excludes thresholds below two; the parser's action puts the bracketed number into the node"
		e := execEngine(p)
		e.sequences()
		e.stubRollDice()
		t := namedSym(KInt, "threshold")
		e.input(t)
		var rolls *SliceV
		e.evaluated(r, "R roll", func(st *State) (Value, *State) {
			l, s, st := rollList(e, st, "NewRRoll", t)
			rolls = s
			return l, st
		}, func(o Outcome, pos string) {
			r.verdict(e.rerollQueue(o, rolls, t), "R roll", "rolls of a list", pos)
		})
		r.Min("R roll", 1)

		e.evaluated(r, "U roll", func(st *State) (Value, *State) {
			l, s, st := rollList(e, st, "NewURoll", t)
			rolls = s
			return e.construct(st, "NewURollExpr", l, NilV{})
		}, func(o Outcome, pos string) {
			g, _ := e.elementsOf(o.st, e.fieldOf(o.st, e.fieldOf(o.st, o.ret[0], "valueGroups"), "Elements"))
			r.verdict(e.openEnded(o, g, rolls, t), "U roll", "rolls of a list", pos)
		})
		r.Min("U roll", 1)

		q := execEngine(p)
		q.inlining()
		target := namedSym(KInt, "target")
		q.input(t, target)
		type form struct {
			name string
			mk   func(st *State) (Value, *State)
			th   *Term
		}
		list := func(kind string, th *Term) func(st *State) (Value, *State) {
			return func(st *State) (Value, *State) {
				l, _, st := rollList(q, st, kind, th)
				return l, st
			}
		}
		uexpr := func(mk func(st *State) (Value, *State), bonus bool) func(st *State) (Value, *State) {
			return func(st *State) (Value, *State) {
				l, st := mk(st)
				var b Value = NilV{}
				if bonus {
					z, st1 := q.construct(st, "NewInt", tZero)
					x, _, st1 := q.intNode(st1, "bonus")
					b, st = q.construct(st1, "NewAdd", z, x)
				}
				return q.construct(st, "NewURollExpr", l, b)
			}
		}
		comp := func(kind string, mk func(st *State) (Value, *State)) func(st *State) (Value, *State) {
			return func(st *State) (Value, *State) {
				l, st := mk(st)
				x, st := q.construct(st, "NewInt", target)
				c, st := q.construct(st, "NewCompare", l, tStr(">="), x)
				return q.construct(st, kind, c)
			}
		}
		for _, f := range []form{
			{"R roll", list("NewRRoll", t), t},
			{"R roll compared, with its own threshold", comp("NewRRollComp", list("NewRRoll", t)), t},
			{"R roll compared", comp("NewRRollComp", list("NewRRoll", nil)), target},
			{"R roll without threshold", list("NewRRoll", nil), nil},
			{"U roll", uexpr(list("NewURoll", t), false), t},
			{"U roll with bonus", uexpr(list("NewURoll", t), true), t},
			{"U roll without threshold", uexpr(list("NewURoll", nil), false), nil},
			{"U roll compared", comp("NewURollComp", uexpr(list("NewURoll", t), false)), t},
			{"U roll with bonus compared", comp("NewURollComp", uexpr(list("NewURoll", t), true)), t},
			{"U roll without threshold compared", comp("NewURollComp", uexpr(list("NewURoll", nil), false)), nil},
		} {
			q.refused(r, f.name, f.th, f.mk)
		}
		r.Min("threshold refused", 10)

		pe := parserEngine(p)
		pe.eachTail(func(rule, first string, tl *tail, items []*GX) {
			for _, it := range items[2:] {
				if it.Kind == GLabel {
					name := it.Name
					r.Try("threshold of "+rule, func() { pe.action(rule).thresholdGiven(r, name) })
				}
			}
		})
		r.Min("threshold given", 2)
	}
}
