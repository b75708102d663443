package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) installStubs() {
	e.stubs["pkg/core/parser.Parse"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		sh := e.grammarValues()
		st.event("parse", e.p.Pos(site.Pos()), args...)
		st2 := st.clone()
		return []Outcome{
			{st, []Value{e.newLazy(st, sh, "parsed"), NilV{}}},
			{st2, []Value{NilV{}, &ErrV{class: "user", site: "parser.Parse", pos: e.p.Pos(site.Pos()), msg: freshSym(KStr, "parse error")}}},
		}
	}
	e.stubs["pkg/core/parser.init"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		return []Outcome{{st, nil}}
	}
	e.istubs["pkg/core/dice/feeder.DieFeeder.Next"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		sides, _ := st.resolve(args[1]).(*Term)
		if sides != nil {
			lo, _ := st.facts.bounds2(sides)
			e.obl(lo >= 1, "die-sides", fr, site.Pos(), "request for a die", "the number of faces requested may be below 1")
		}
		sig := site.(ssa.CallInstruction).Common().Signature()
		return e.havocCall(st, sig, "DieFeeder.Next", args)
	}
}

// initGlobals interprets the package initialisers so that package-level
// variables have their initial contents.
func (e *Engine) initGlobals() {
	var paths []string
	for p := range e.p.SPkgs {
		if strings.HasSuffix(p, "/parser") || strings.HasSuffix(p, "GUI") {
			continue
		}
		paths = append(paths, p)
	}
	sort.Strings(paths)
	st := newState()
	for _, p := range paths {
		f := e.p.SPkgs[p].Func("init")
		if f == nil {
			continue
		}
		outs := e.callFunc(nil, nil, f, nil, nil, st, nil)
		if len(outs) != 1 {
			undec("initialisation of %s has %d outcomes", p, len(outs))
		}
		st = outs[0].st
	}
	for id, o := range st.heap {
		baseHeap[id] = o
	}
	e.initObls = e.obls
	e.obls = map[string]*Obl{}
	e.changed = false
}

// stubRollDice replaces Evaluator.RollDice by its contract, which C05 and
// C04 establish for its body: a user error, or exactly num dice of the
// requested faces with a value on one of them, all of them recorded.
func (e *Engine) stubRollDice() {
	fn := e.method("pkg/core/evaluator", "Evaluator", "RollDice")
	st := fn.Signature.Results().At(0).Type()
	die := st.Underlying().(*types.Slice).Elem()
	ds := die.Underlying().(*types.Struct)
	vi, si := -1, -1
	for i := 0; i < ds.NumFields(); i++ {
		switch ds.Field(i).Name() {
		case "Value":
			vi = i
		case "Sides":
			si = i
		}
	}
	if vi < 0 || si < 0 {
		undec("dice.Die has no Value or Sides")
	}
	e.stubs["(*pkg/core/evaluator.Evaluator).RollDice"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		num, ok1 := st.resolve(args[1]).(*Term)
		sides, ok2 := st.resolve(args[2]).(*Term)
		if !ok1 || !ok2 {
			undec("RollDice on %T and %T", args[1], args[2])
		}
		st2 := st.clone()
		outs := []Outcome{{st2, []Value{NilV{}, &ErrV{class: "user", site: "RollDice", pos: e.p.Pos(site.Pos()), msg: freshSym(KStr, "roll error")}}}}
		okc := st.facts.assume(tLe(tInt(1), num), true) && st.facts.assume(tLe(num, tInt(10000)), true) && st.facts.assume(tLe(tInt(1), sides), true)
		if !okc {
			return outs
		}
		el := &AStruct{T: die, F: make([]AVal, ds.NumFields())}
		for i := range el.F {
			el.F[i] = &AScalar{kind: KInt}
		}
		el.F[vi] = &AScalar{kind: KInt, bounds: map[*Term]bnd{tZero: {dn: -1, hasDn: true}, sides: {up: 0, hasUp: true}}}
		el.F[si] = &AScalar{kind: KInt, bounds: map[*Term]bnd{sides: {up: 0, hasUp: true, dn: 0, hasDn: true}}}
		id := e.id()
		st.heap[id] = &Obj{T: fn.Signature.Results().At(0).Type(), V: &SeqV{ET: die, lo: el, split: num, gen: e.newGen("rolled", num), glen: num}, site: "rolled"}
		if g := st.heap[id].V.(*SeqV).gen; g != nil {
			st.event("draw", e.p.Pos(site.Pos()), num, sides, g)
		} else {
			st.event("draw", e.p.Pos(site.Pos()), num, sides)
		}
		return append([]Outcome{{st, []Value{&SliceV{obj: id, lo: tZero, n: num}, NilV{}}}}, outs...)
	}
}

// stubRolledDice replaces the snapshot of the recorded dice by a slice
// that is only identified.
func (e *Engine) stubRolledDice() {
	fn := e.method("pkg/core/evaluator", "Evaluator", "RolledDice")
	t := fn.Signature.Results().At(0).Type()
	e.stubs["(*pkg/core/evaluator.Evaluator).RolledDice"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		id := e.id()
		n := freshSym(KInt, "len:rolled")
		st.facts.addLe(tZero, n, 0)
		st.facts.addLe(n, tZero, maxLen)
		st.heap[id] = &Obj{T: t, V: &SeqV{ET: t.Underlying().(*types.Slice).Elem(), hi: e.havocAVal(t.Underlying().(*types.Slice).Elem(), "die")}, site: "snapshot", full: n}
		s := &SliceV{obj: id, lo: tZero, n: n}
		st.event("snapshot", e.p.Pos(site.Pos()), s)
		return []Outcome{{st, []Value{s}}}
	}
}
