package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaInstr = ssa.Instruction

const maxSteps = 60000000

// execEngine is an engine on which command execution can be interpreted.
func execEngine(p *Prog) *Engine {
	e := newEngine(p)
	e.maxStep = maxSteps
	return e
}

// inScope interprets f to a fixed point and keeps its obligations next to
// those of the scopes before it.
func (e *Engine) inScope(ns string, f func()) {
	if e.kept == nil {
		e.kept = map[string]*Obl{}
	}
	e.ns = ns
	e.fixpoint(f)
	for k, o := range e.obls {
		if old := e.kept[k]; old == nil || old.OK {
			e.kept[k] = o
		}
	}
	e.obls = e.kept
}

// single demands exactly one outcome.
func single(outs []Outcome, what string) Outcome {
	if len(outs) != 1 {
		undec("%s has %d outcomes", what, len(outs))
	}
	return outs[0]
}

// nilness is "nil", "nonnil" or "maybe".
func (e *Engine) nilness(st *State, v Value) string {
	switch x := st.resolve(v).(type) {
	case NilV:
		return "nil"
	case *LazyV:
		n, o := false, false
		for _, a := range e.altsOf(st.binds[x.id].shape) {
			if _, ok := a.alt.v.(*ANil); ok {
				n = true
			} else {
				o = true
			}
		}
		switch {
		case n && o:
			return "maybe"
		case n:
			return "nil"
		}
		return "nonnil"
	case *UnkV:
		if strings.HasPrefix(x.tag, "maybe:") {
			return "maybe"
		}
	case *SliceV:
		if x.mayNil {
			return "maybe"
		}
	}
	return "nonnil"
}

// rollerScope interprets the real bodies of Evaluator.RollDice and
// Evaluator.RolledDice for any number, any faces and any die feeder.
func (e *Engine) rollerScope(each func(o Outcome, num, sides *Term)) {
	delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RollDice")
	delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RolledDice")
	rd := e.method("pkg/core/evaluator", "Evaluator", "RollDice")
	e.inScope("roller", func() {
		st := newState()
		ev, st := e.newEvaluator(st)
		num, sides := namedSym(KInt, "num"), namedSym(KInt, "sides")
		for _, o := range e.callFunc(nil, nil, rd, []Value{ev, num, sides}, nil, st, nil) {
			if each != nil {
				each(o, num, sides)
			}
		}
	})
}

// newEvaluator interprets the construction of an evaluator the way the
// engine does for each command.
func (e *Engine) newEvaluator(st *State) (Value, *State) {
	feeder := &UnkV{e.fn("pkg/core/dice/roller.New").Params[0].Type(), "feeder"}
	r := single(e.callFunc(nil, nil, e.fn("pkg/core/dice/roller.New"), []Value{feeder}, nil, st, nil), "roller.New")
	env := single(e.callFunc(nil, nil, e.fn("pkg/core/evaluator.NewEnvironment"), nil, nil, r.st, nil), "NewEnvironment")
	ev := single(e.callFunc(nil, nil, e.fn("pkg/core/evaluator.NewEvaluator"), []Value{r.ret[0], env.ret[0]}, nil, env.st, nil), "NewEvaluator")
	ev.st.events = nil
	return ev.ret[0], ev.st
}

// executed stands for a call that executes a command and yields a result or
// an error.
func (e *Engine) executed(kind string, res types.Type) stubFn {
	return func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		for _, a := range args {
			e.recordUse(st, a, site)
		}
		st2 := st.clone()
		id := e.id()
		v := e.havoc(res.(*types.Pointer).Elem(), "result", st)
		st.heap[id] = &Obj{T: res.(*types.Pointer).Elem(), V: v, site: "executed"}
		st.event(kind, e.p.Pos(site.Pos()), append([]Value{&PtrV{id, ""}, v}, args...)...)
		st2.event(kind+"-failed", e.p.Pos(site.Pos()), args...)
		return []Outcome{
			{st, []Value{&PtrV{id, ""}, NilV{}}},
			{st2, []Value{NilV{}, &ErrV{class: "user", site: kind, pos: e.p.Pos(site.Pos()), msg: freshSym(KStr, "execution error")}}},
		}
	}
}

// recordUse notes whether an evaluator handed on has an empty record, and
// leaves an arbitrary record behind.
func (e *Engine) recordUse(st *State, a Value, site ssaInstr) {
	p, ok := st.resolve(a).(*PtrV)
	if !ok {
		return
	}
	ev, ok := st.load(p).(*StructV)
	if !ok || ev.T != e.p.NamedType("pkg/core/evaluator", "Evaluator") {
		return
	}
	ep, ok := st.resolve(ev.F[structField(ev.T, "env")]).(*PtrV)
	if !ok {
		return
	}
	env := st.load(ep).(*StructV)
	i := structField(env.T, "rolledDice")
	kind := "record-used"
	switch s := st.resolve(env.F[i]).(type) {
	case *SliceV:
		if st.facts.truth(tLe(s.n, tZero)) == 1 {
			kind = "record-empty"
		}
	case NilV:
		kind = "record-empty"
	}
	st.event(kind, e.p.Pos(site.Pos()))
	fp := &PtrV{ep.obj, pathAdd(ep.path, i)}
	st.store(fp, e.havoc(env.T.Underlying().(*types.Struct).Field(i).Type(), "recorded", st))
}

// stubExecute replaces command.Execute by what the other scopes establish:
// a result or an error.
func (e *Engine) stubExecute() {
	fn := e.fn("pkg/core/command.Execute")
	rt := fn.Signature.Results().At(0).Type()
	e.stubs["pkg/core/command.Execute"] = e.executed("execute", rt)
	e.istubs["pkg/dicebot.DiceBot.ExecuteCommand"] = e.executed("bot-execute", rt)
}

// pipelineScope interprets bcdice.ExecuteCommand on any text, with the basic
// game system or with an unknown one.
func (e *Engine) pipelineScope(anyBot bool, each func(o Outcome, b Value, input *Term)) {
	e.stubExecute()
	ec := e.method("pkg/bcdice", "BCDice", "ExecuteCommand")
	e.inScope(fmt.Sprint("pipeline", anyBot), func() {
		st := newState()
		b, st := e.newBCDice(st)
		if anyBot {
			bp := b.(*PtrV)
			bs := st.load(bp).(*StructV)
			i := structField(bs.T, "DiceBot")
			st.store(&PtrV{bp.obj, pathAdd(bp.path, i)}, &UnkV{bs.T.Underlying().(*types.Struct).Field(i).Type(), "bot"})
		}
		st.events = nil
		e.beforeB = st.load(b.(*PtrV))
		in := namedSym(KStr, "input")
		for _, o := range e.callFunc(nil, nil, ec, []Value{b, in}, nil, st, nil) {
			if each != nil {
				each(o, b, in)
			}
		}
	})
	delete(e.stubs, "pkg/core/command.Execute")
}

// executeScope interprets command.Execute on every command the grammar can
// build.
func (e *Engine) executeScope(each func(o Outcome, kind string)) {
	e.grammarValues()
	e.stubRollDice()
	e.stubRolledDice()
	e.computeRecursion()
	e.runExecute(each)
}

var panicRules = []string{"division", "explicit-panic", "index", "make-size", "nil-deref", "rand-range", "repeat-count", "slice-bounds", "type-assert"}

func init() {
	checks["C01"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of every function reachable from command execution over every syntax tree the grammar's actions can build, any operand values, any text and any die feeder; every instruction that could panic is an obligation that must be discharged on every path"
		r.Assume = append(r.Assume, "the pigeon parser core turns panics of parser actions into errors, and is otherwise correct", "standard library functions called do not panic on the argument values established", "memory suffices for 10000 dice")
		e := execEngine(p)
		e.pipelineScope(false, nil)
		e.pipelineScope(true, nil)
		e.rollerScope(nil)
		e.executeScope(nil)
		e.report(r, panicRules...)
		for _, k := range sortedKeys(e.parserObls) {
			r.add(*e.parserObls[k])
		}
		r.Analysed["functions interpreted"] = len(e.analysedFns)
		r.Analysed["call sites interpreted"] = len(e.analysedSites)
		r.Min("type-assert", 20)
		r.Min("nil-deref", 200)
	}
	checks["C03"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of bcdice.ExecuteCommand and command.Execute: every return reached is classified by whether its result and its error are nil"
		e := execEngine(p)
		pair := func(what string, o Outcome) {
			res, err := e.nilness(o.st, o.ret[0]), e.nilness(o.st, o.ret[1])
			ok := res == "nonnil" && err == "nil" || res == "nil" && err == "nonnil"
			r.Check(ok, "result-xor-error", fmt.Sprintf("%s: (%s, %s)", what, res, err), "", "a return of command execution")
		}
		e.pipelineScope(false, func(o Outcome, b Value, in *Term) { pair("ExecuteCommand", o) })
		e.pipelineScope(true, func(o Outcome, b Value, in *Term) { pair("ExecuteCommand with any game system", o) })
		e.executeScope(func(o Outcome, kind string) { pair("Execute of "+kind, o) })
		r.Min("result-xor-error", 12)
	}
}
