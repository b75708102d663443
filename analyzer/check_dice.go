package main

import (
	"fmt"
	"go/types"
)

// structField returns the position of a field of a struct type.
func structField(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		undec("%s is not a struct", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	undec("%s has no field %s", t, name)
	return -1
}

// elements returns the elements of a slice: all of them when they are known
// one by one, or one that stands for every element.
func (e *Engine) elements(st *State, s *SliceV) []Value {
	seq, ok := st.obj(s.obj).V.(*SeqV)
	if !ok {
		undec("slice of %T", st.obj(s.obj).V)
	}
	if seq.exact {
		if !s.lo.isConst() || !s.n.isConst() {
			undec("part of an exact sequence")
		}
		return seq.elems[s.lo.k : s.lo.k+s.n.k]
	}
	if hi, _ := st.facts.bounds2(s.n); hi == 0 {
		_ = hi
	}
	i := freshSym(KInt, "any")
	st.facts.addLe(tZero, i, 0)
	if !st.facts.assume(tLt(i, s.n), true) {
		return nil
	}
	abs := tAdd(s.lo, i)
	e.focus(st, s.obj, abs, "elements")
	return []Value{st.obj(s.obj).V.(*SeqV).fval}
}

func init() {
	checks["C04"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of command execution over every syntax tree: every successful return lists a complete, unmodified copy of the evaluation's dice record taken after the last draw, or no dice when none was drawn; no die is drawn except through the recording roll; nothing else changes the record"
		e := execEngine(p)
		e.recordType = e.p.NamedType("pkg/core/evaluator", "Environment")
		next := "pkg/core/dice/feeder.DieFeeder.Next"
		orig := e.istubs[next]
		e.istubs[next] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
			r.Fail("unrecorded-draw", e.p.FuncName(fr.fn), e.p.Pos(site.Pos()), "a die is drawn without passing through Evaluator.RollDice, which records it")
			return orig(e, fr, st, args, site)
		}
		e.executeScope(func(o Outcome, kind string) {
			if e.nilness(o.st, o.ret[1]) != "nil" {
				return
			}
			d := e.resultDice(o.st, o.ret[0])
			switch {
			case d == "no dice":
				r.Check(!o.st.drew, "lists-dice", kind, "", "a successful result lists no dice: none may have been drawn")
			default:
				r.Check(d == "copy of the record", "lists-dice", kind, "", "a successful result lists the complete record: "+d)
				r.Check(!o.st.late, "lists-all-dice", kind, "", "no die is drawn after the record was copied, and the copy is not changed")
			}
			for _, ev := range o.st.eventList() {
				if ev.Kind == "record-write" {
					r.Fail("record-changed", kind, ev.Pos, "the dice record is changed outside Evaluator.RollDice")
				}
			}
		})
		r.OK("unrecorded-draw", "all interpreted functions", "", fmt.Sprintf("%d functions", len(e.analysedFns)))
		recordOrder(p, r)
		r.Min("lists-dice", 10)
		r.Analysed["functions interpreted"] = len(e.analysedFns)
		r.Analysed["call sites interpreted"] = len(e.analysedSites)
	}
	checks["C05"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of Evaluator.RollDice over a die feeder that may return anything: on every successful return the length and every die's faces and value are related to the request by the inferred constraints; the random feeder's value expression is read off its body; every request for a die reachable from a command asks for at least one face"
		e := execEngine(p)
		n := 0
		var dieT types.Type
		e.rollerScope(func(o Outcome, num, sides *Term) {
			res, err := e.nilness(o.st, o.ret[0]), e.nilness(o.st, o.ret[1])
			what := "Evaluator.RollDice"
			if err == "nonnil" {
				r.OK("roll-error", what, "", "an error is returned")
				return
			}
			n++
			st := o.st.clone()
			s, ok := st.resolve(o.ret[0]).(*SliceV)
			if !ok {
				r.Fail("roll-length", what, "", fmt.Sprintf("a successful roll may return %s dice", res))
				return
			}
			dieT = st.obj(s.obj).T
			st.facts.assume(tEq(num, num), true)
			r.Check(st.facts.truth(tEq(s.n, num)) == 1, "roll-length", what, "", fmt.Sprintf("a successful roll returns exactly as many dice as asked for (length %s)", s.n))
			r.Check(st.facts.truth(tLe(tInt(1), num)) == 1, "roll-min", what, "", "a successful roll has at least one die")
			et := st.obj(s.obj).V.(*SeqV).ET
			vi, si := structField(et, "Value"), structField(et, "Sides")
			els := e.elements(st, s)
			faces, value := vOK, vOK
			for _, el := range els {
				d, ok := st.resolve(el).(*StructV)
				if !ok {
					undec("die of kind %T", el)
				}
				v, sd := st.resolve(d.F[vi]).(*Term), st.resolve(d.F[si]).(*Term)
				if st.facts.truth(tEq(sd, sides)) != 1 {
					faces = vBad("a die may have %s faces", sd)
				}
				if st.facts.truth(tLe(tInt(1), v)) != 1 || st.facts.truth(tLe(v, sides)) != 1 {
					value = vBad("a die may have the value %s", v)
				}
			}
			if !faces.ok || !value.ok {
				// one element for all may be too coarse
				if !r.Try("dice of a roll", func() { faces, value = drawnUsable(p) }) {
					return
				}
			}
			r.verdict(faces, "die-faces", what, e.p.Pos(e.method("pkg/core/evaluator", "Evaluator", "RollDice").Pos()))
			r.verdict(value, "die-value", what, e.p.Pos(e.method("pkg/core/evaluator", "Evaluator", "RollDice").Pos()))
		})
		_ = dieT
		r.Check(n > 0, "roll-succeeds", "Evaluator.RollDice", "", "a roll can succeed")

		// the random feeder
		next := e.method("pkg/core/dice/feeder", "MT19937", "Next")
		e.inScope("random", func() {
			st := newState()
			recv := e.havoc(next.Params[0].Type(), "mt", st)
			sides := namedSym(KInt, "sides")
			st.facts.assume(tLe(tInt(1), sides), true)
			for _, o := range e.callFunc(nil, nil, next, []Value{recv, sides}, nil, st, nil) {
				if e.nilness(o.st, o.ret[1]) != "nil" {
					r.Fail("random-die", "MT19937.Next", e.p.Pos(next.Pos()), "the random feeder may fail for a valid number of faces")
					continue
				}
				d := o.st.resolve(o.ret[0]).(*StructV)
				vi, si := structField(d.T, "Value"), structField(d.T, "Sides")
				v, sd := o.st.resolve(d.F[vi]).(*Term), o.st.resolve(d.F[si]).(*Term)
				r.Check(o.st.facts.truth(tEq(sd, sides)) == 1, "random-faces", "MT19937.Next", e.p.Pos(next.Pos()), "the die has the requested faces")
				r.Check(o.st.facts.truth(tLe(tInt(1), v)) == 1 && o.st.facts.truth(tLe(v, sides)) == 1, "random-value", "MT19937.Next", e.p.Pos(next.Pos()), fmt.Sprintf("the value %s lies on a face", v))
				full := false
				for _, ev := range o.st.eventList() {
					if ev.Kind == "intn" && o.st.facts.truth(tEq(ev.Vals[0].(*Term), sides)) == 1 && o.st.facts.truth(tEq(v, tAddK(ev.Vals[1].(*Term), 1))) == 1 {
						full = true
					}
				}
				r.Check(full, "random-every-face", "MT19937.Next", e.p.Pos(next.Pos()), fmt.Sprintf("the value %s is one more than a uniform number below the number of faces", v))
			}
		})
		r.Min("random-every-face", 1)
		randomNumbers(p, r)
		e.report(r, "die-sides", "rand-range")
		r.Min("die-sides", 1)
		r.Min("die-value", 1)
		r.Min("die-faces", 1)
		r.Min("roll-length", 1)
		r.Analysed["functions interpreted"] = len(e.analysedFns)
	}
}

// resultDice describes the dice a result lists.
func (e *Engine) resultDice(st *State, res Value) string {
	p, ok := st.resolve(res).(*PtrV)
	if !ok {
		return fmt.Sprintf("%T", st.resolve(res))
	}
	s, ok := st.load(p).(*StructV)
	if !ok {
		return fmt.Sprintf("a result that is %T", st.load(p))
	}
	switch v := st.resolve(s.F[structField(s.T, "RolledDice")]).(type) {
	case *SliceV:
		if st.isSnapshot(v) {
			return "copy of the record"
		}
		if st.facts.truth(tLe(v.n, tZero)) == 1 {
			return "no dice"
		}
		return "slice of " + st.obj(v.obj).site
	case NilV:
		if st.isSnapshot(&SliceV{obj: -1, lo: tZero, n: tZero}) {
			return "copy of the record"
		}
		return "no dice"
	default:
		return fmt.Sprintf("%T", v)
	}
}
