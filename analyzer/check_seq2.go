package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) dumpOut(o Outcome, ret ...Value) {
	for _, r := range e.loopRecs {
		fmt.Println("LOOP", e.p.FuncName(r.fn), r.head.Index, "paths", len(r.backs))
		for _, q := range r.pos {
			fmt.Println("   ", e.recText(q))
		}
		for i, b := range append(append([]*State(nil), r.backs...), r.exits...) {
			if i >= len(r.backs) {
				fmt.Println("    EXIT")
			}
			fmt.Println("    facts", factsText(b))
			for _, ev := range b.eventList() {
				fmt.Print("    ev ", ev.Kind)
				for _, v := range ev.Vals {
					fmt.Print(" ", e.valText(b, v))
				}
				fmt.Println()
			}
		}
	}
	for _, v := range ret {
		fmt.Println("RET", e.valText(o.st, v))
	}
}

// newObject calls a constructor of package object.
func (e *Engine) newObject(st *State, fn string, args ...Value) (Value, *State) {
	o := single(e.callFunc(nil, nil, e.fn("pkg/core/object."+fn), args, nil, st, nil), fn)
	return o.ret[0], o.st
}

// anyArray makes an array object of any length with elements like el.
func (e *Engine) anyArray(st *State, why string, el Value) (Value, *SliceV, *State) {
	ot := e.p.NamedType("pkg/core/object", "Object")
	l := e.anyList(st, ot, why, el)
	a, st := e.newObject(st, "NewArrayByMove", l)
	return a, l, st
}

// anyGroups makes an array of arrays of integers.
func (e *Engine) anyGroups(st *State) (Value, *SliceV, *State) {
	v := freshSym(KInt, "value")
	i, st := e.newObject(st, "NewInteger", v)
	in, _, st := e.anyArray(st, "values", i)
	return e.anyArray(st, "groups", in)
}

// evalsTo replaces the evaluation of one node by a value.
func (e *Engine) evalsTo(st *State, node Value, mk func(st *State) (Value, *State)) {
	np := e.pointerOf(st, node)
	e.stubs["(*pkg/core/evaluator.Evaluator).Eval"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome {
		p := e.pointerOf(st, args[1])
		if p == nil || np == nil || p.obj != np.obj || p.path != np.path {
			return nil
		}
		v, st := mk(st)
		return []Outcome{{st, []Value{v, NilV{}}}}
	}
}

func (e *Engine) pointerOf(st *State, v Value) *PtrV {
	x := st.resolve(v)
	if iv, ok := x.(*IfaceV); ok {
		x = st.resolve(iv.V)
	}
	p, _ := x.(*PtrV)
	return p
}
