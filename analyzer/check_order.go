package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// recordTape keeps, in the state, the list of everything drawn from the die
// feeder, in the order in which it was drawn.
func (e *Engine) recordTape(st *State) int {
	next := "pkg/core/dice/feeder.DieFeeder.Next"
	orig := e.istubs[next]
	var lt types.Type
	id := e.id()
	e.istubs[next] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		outs := orig(e, fr, st, args, site)
		for _, o := range outs {
			if e.nilness(o.st, o.ret[1]) != "nil" {
				continue
			}
			leaves(e.code(o.st, o.ret[0]), func(t *Term) { e.inputs[t] = true })
			one := e.id()
			et := elemType(lt)
			o.st.heap[one] = &Obj{T: lt, V: &SeqV{exact: true, ET: et, elems: []Value{o.ret[0]}}, site: "drawn"}
			old := o.st.obj(id)
			o.st.heap[id] = &Obj{T: lt, V: e.appendTo(fr, o.st, old.V, &SliceV{obj: one, lo: tZero, n: tInt(1)}, lt), site: "drawn"}
		}
		return outs
	}
	die := e.p.NamedType("pkg/core/dice", "Die")
	lt = types.NewSlice(die)
	st.heap[id] = &Obj{T: lt, V: NilV{}, site: "drawn"}
	return id
}

// recordOrder checks that a roll hands over exactly the dice it has drawn,
// in order, and appends exactly these to the dice record.
func recordOrder(p *Prog, r *Report) {
	r.Try("order of the dice of a roll", func() {
		e := execEngine(p)
		e.sequences()
		delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RollDice")
		delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RolledDice")
		rd := e.method("pkg/core/evaluator", "Evaluator", "RollDice")
		record := e.method("pkg/core/evaluator", "Evaluator", "RolledDice")
		env := p.NamedType("pkg/core/evaluator", "Environment")
		e.inScope("order", func() {
			st := newState()
			ev, st := e.newEvaluator(st)
			// the record of a new evaluator is empty
			for _, o := range e.callFunc(nil, nil, record, []Value{ev}, nil, st.clone(), nil) {
				g, _ := e.elementsOf(o.st, o.ret[0])
				r.verdict(e.sameList(o.st, g, app(KOther, "list")), "starts-empty", "record of a new evaluator", e.p.Pos(record.Pos()))
			}
			// from any record on
			n := 0
			for id := range st.heap {
				o := st.obj(id)
				s, ok := o.V.(*StructV)
				if !ok || !types.Identical(s.T, env) {
					continue
				}
				u := env.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					lt, ok := u.Field(i).Type().Underlying().(*types.Slice)
					if !ok {
						continue
					}
					n++
					l := e.anyList(st, lt.Elem(), "recorded before", e.havoc(lt.Elem(), "recorded", st))
					st.store(&PtrV{id, pathAdd("", i)}, l)
				}
			}
			if n != 1 {
				undec("the environment has %d lists", n)
			}
			before := func() *Term {
				o := single(e.callFunc(nil, nil, record, []Value{ev}, nil, st.clone(), nil), "RolledDice")
				g, _ := e.elementsOf(o.st, o.ret[0])
				return e.norm(o.st, g)
			}()
			tape := e.recordTape(st)
			num, sides := namedSym(KInt, "num"), namedSym(KInt, "sides")
			e.input(num, sides)
			m := 0
			for _, o := range e.callFunc(nil, nil, rd, []Value{ev, num, sides}, nil, st, nil) {
				if e.nilness(o.st, o.ret[1]) == "nonnil" {
					continue
				}
				m++
				pos := e.p.Pos(rd.Pos())
				res, _ := e.elementsOf(o.st, o.ret[0])
				drawn, _ := e.elementsOf(o.st, o.st.obj(tape).V)
				r.verdict(e.sameList(o.st, res, drawn), "roll-order", "dice a roll returns and dice drawn", pos)
				for _, q := range e.callFunc(nil, nil, record, []Value{ev}, nil, o.st.clone(), nil) {
					g, _ := e.elementsOf(q.st, q.ret[0])
					r.verdict(e.sameList(q.st, g, tCat(before, res)), "record-order", "dice recorded before and dice a roll returns", pos)
				}
			}
			if m == 0 {
				undec("no roll succeeds")
			}
		})
	})
	r.Min("starts-empty", 1)
	r.Min("roll-order", 1)
	r.Min("record-order", 1)
}

// drawnUsable checks, where the dice drawn are followed one by one, that a
// roll that succeeds returns them all, and each has the faces asked for and
// a value on one of them.
func drawnUsable(p *Prog) (faces, value verdict) {
	faces, value = vOK, vOK
	e := execEngine(p)
	e.sequences()
	delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RollDice")
	rd := e.method("pkg/core/evaluator", "Evaluator", "RollDice")
	worse := func(v *verdict, w verdict) {
		if v.ok || v.bad == "" && w.bad != "" {
			*v = w
		}
	}
	e.inScope("usable dice", func() {
		ev, st := e.newEvaluator(newState())
		tape := e.recordTape(st)
		num, sides := namedSym(KInt, "num"), namedSym(KInt, "sides")
		e.input(num, sides)
		die := e.p.NamedType("pkg/core/dice", "Die")
		vi, si := structField(die, "Value"), structField(die, "Sides")
		seen := map[*Term]bool{}
		var part func(st *State, t *Term)
		part = func(st *State, t *Term) {
			for _, q := range parts(e.norm(st, t)) {
				if p := e.recOf[q]; p != nil {
					if seen[q] {
						continue
					}
					seen[q] = true
					for i, x := range append([]Value{p.entry}, p.backs...) {
						xt, ok := x.(*Term)
						if !ok {
							undec("the dice drawn become a %T", x)
						}
						if i == 0 {
							part(p.rec.entry, xt)
						} else {
							part(p.rec.backs[i-1], e.canon(xt))
						}
					}
					continue
				}
				if q.op != "list" {
					undec("the dice drawn are %s", q)
				}
				for _, el := range q.args {
					if len(el.args) != die.Underlying().(*types.Struct).NumFields() {
						undec("a die drawn is %s", el)
					}
					v, sd := el.args[vi], el.args[si]
					if !(st.facts.leq(sd, sides) && st.facts.leq(sides, sd)) {
						worse(&faces, vBad("a die with %s faces is kept", sd))
					}
					if !st.facts.leq(tInt(1), v) || !st.facts.leq(v, sides) {
						worse(&value, vBad("a die with the value %s is kept", v))
					}
				}
			}
		}
		for _, o := range e.callFunc(nil, nil, rd, []Value{ev, num, sides}, nil, st, nil) {
			if e.nilness(o.st, o.ret[1]) == "nonnil" {
				continue
			}
			res, _ := e.elementsOf(o.st, o.ret[0])
			drawn, _ := e.elementsOf(o.st, o.st.obj(tape).V)
			if v := e.sameList(o.st, res, drawn); !v.ok {
				worse(&faces, v)
				worse(&value, v)
				continue
			}
			part(o.st, drawn)
		}
	})
	return faces, value
}
