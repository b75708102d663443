package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// newBCDice interprets bcdice.New on an arbitrary die feeder.
func (e *Engine) newBCDice(st *State) (Value, *State) {
	nf := e.fn("pkg/bcdice.New")
	feeder := &UnkV{nf.Params[0].Type(), "feeder"}
	outs := e.callFunc(nil, nil, nf, []Value{feeder}, nil, st, nil)
	if len(outs) != 1 {
		undec("bcdice.New has %d outcomes", len(outs))
	}
	return outs[0].ret[0], outs[0].st
}

// runExecute interprets the execution of every command the grammar can
// build, one kind after the other.
func (e *Engine) runExecute(each func(o Outcome, kind string)) {
	f := e.fn("pkg/core/command.Execute")
	ef := e.fn("pkg/core/evaluator.NewEvaluator")
	start := e.grammarValues()
	e.mergeCalls = true
	if e.kept == nil {
		e.kept = map[string]*Obl{}
	}
	for i, a := range e.altsOf(start) {
		e.ns = fmt.Sprintf("%d", i)
		if only := os.Getenv("VFA_ONLY"); only != "" && only != e.ns {
			continue
		}
		if e.trace {
			fmt.Println("KIND", i, a.nt, a.alt.key)
		}
		e.fixpoint(func() {
			st := newState()
			env := e.callFunc(nil, nil, e.fn("pkg/core/evaluator.NewEnvironment"), nil, nil, st, nil)
			roller := &UnkV{ef.Params[0].Type(), "roller"}
			outs := e.callFunc(nil, nil, ef, []Value{roller, env[0].ret[0]}, nil, env[0].st, nil)
			st = outs[0].st
			st.events = nil
			node := e.newLazy(st, shapeOf(a.nt, a.alt.key), "command")
			e.commandType = e.nodeTypeOf(st.clone(), node, f)
			for _, o := range e.callFunc(nil, nil, f, []Value{node, namedSym(KStr, "gameID"), outs[0].ret[0]}, nil, st, nil) {
				if each != nil {
					each(o, a.nt)
				}
			}
		})
		for k, o := range e.obls {
			if old := e.kept[k]; old == nil || old.OK {
				e.kept[k] = o
			}
		}
	}
	e.obls = e.kept
}

// nodeTypeOf is what a node's Type method answers; nil if that is not one
// constant.
func (e *Engine) nodeTypeOf(st *State, node Value, in *ssa.Function) *Term {
	nt := e.p.NamedType("pkg/core/ast", "Node")
	it := nt.Underlying().(*types.Interface)
	var m *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Type" {
			m = it.Method(i)
		}
	}
	cfgs := []*Cfg{{st: st, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}}
	if l, ok := st.resolve(node).(*LazyV); ok {
		cfgs = e.materialise(cfgs[0], l)
	}
	var t *Term
	for _, c := range cfgs {
		for _, o := range e.invokeMethod(nil, c, c.st, nt, m, c.st.resolve(node), nil, e.anySite(in)) {
			k, ok := o.st.resolve(o.ret[0]).(*Term)
			if !ok || !k.isConst() || t != nil && t != k {
				return nil
			}
			t = k
		}
	}
	return t
}

func (e *Engine) fn(name string) *ssa.Function {
	for f := range e.p.Funcs {
		if e.p.FuncName(f) == name {
			return f
		}
	}
	undec("function %s not found", name)
	return nil
}

func (e *Engine) method(pkg, typ, name string) *ssa.Function {
	return e.fn("(*" + pkg + "." + typ + ")." + name)
}
