package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// queueOf finds the dice queue a REPL uses.
func (e *Engine) queueOf(st *State, repl Value) *PtrV {
	qt := e.p.NamedType("pkg/core/dice/feeder", "Queue")
	var q *PtrV
	for _, f := range e.feeders(st, repl) {
		v := f.v
		if iv, ok := v.(*IfaceV); ok && types.Identical(deref(iv.T), qt) {
			if p, ok := st.resolve(iv.V).(*PtrV); ok {
				if q != nil && (q.obj != p.obj || q.path != p.path) {
					undec("more than one dice queue")
				}
				q = p
			}
		}
	}
	return q
}

// queueContent asks the queue for its dice.
func (e *Engine) queueContent(st *State, q *PtrV) (*State, *Term) {
	d := e.method("pkg/core/dice/feeder", "Queue", "Dice")
	o := single(e.callFunc(nil, nil, d, []Value{q}, nil, st.clone(), nil), "Queue.Dice")
	g, _ := e.elementsOf(o.st, o.ret[0])
	return o.st, e.norm(o.st, g)
}

// queueInputs declares the present content of a queue to be anything.
func (e *Engine) queueInputs(st *State, q *PtrV) {
	s, ok := st.load(q).(*StructV)
	if !ok {
		undec("queue of %T", st.load(q))
	}
	for _, f := range s.F {
		if sl, ok := st.resolve(f).(*SliceV); ok {
			g := e.contentOf(st, sl)
			if g == nil {
				undec("queue of unknown content")
			}
			e.input(g)
		}
	}
}

// anyQueue replaces the content of a queue by any other that is named.
func (e *Engine) anyQueue(st *State, q *PtrV, why string) {
	s, ok := st.load(q).(*StructV)
	if !ok {
		undec("queue of %T", st.load(q))
	}
	u := s.T.Underlying().(*types.Struct)
	n := 0
	for i := range s.F {
		lt, ok := u.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		n++
		l := e.anyList(st, lt.Elem(), why, e.havoc(lt.Elem(), why, st))
		st.store(&PtrV{q.obj, pathAdd(q.path, i)}, l)
	}
	if n != 1 {
		undec("a queue has %d lists", n)
	}
	e.queueInputs(st, q)
}

func init() {
	checks["C16"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of every handler of the REPL, and of its loop on any line, with a manual dice queue of any content: execution and rolling are replaced by their contract, which may take any dice from the queue; on every way out of a handler that executes or rolls, the content of the queue is, by name, the content it had before"
		r.Assume = append(r.Assume, "executing a command and rolling dice leave the configured feeder in place (C09, C17)")
		cs := execEngine(p).replCommands(newState())
		r.Analysed["commands of the REPL"] = len(cs)
		// prepare makes an engine, and a REPL with a queue of any content
		prepare := func(st *State, e *Engine) (*PtrV, *State, *Term) {
			repl, _, st := e.replWith("queue")
			q := e.queueOf(st, repl)
			if q == nil {
				undec("no dice queue in the REPL")
			}
			e.anyQueue(st, q, "queue")
			_, g := e.queueContent(st, q)
			return repl, st, g
		}
		unchanged := func(e *Engine, o Outcome, repl *PtrV, before *Term, what, pos string) {
			q := e.queueOf(o.st, repl)
			if q == nil {
				undec("the REPL has lost its queue")
			}
			st, g := e.queueContent(o.st, q)
			r.verdict(e.sameList(st, g, before), "queue-restored", what, pos)
		}
		mk := func(repl **PtrV) *Engine {
			e := execEngine(p)
			e.sequences()
			e.queueTo = e.anyQueue
			e.stubREPL(func() *PtrV { return *repl })
			return e
		}
		uses := map[string]bool{}
		for i := range cs {
			if cs[i].handler == nil {
				continue
			}
			what := "." + cs[i].name
			pos := p.Pos(cs[i].handler.fn.Pos())
			r.Try(what, func() {
				var repl *PtrV
				e := mk(&repl)
				c := e.replCommands(newState())[i]
				var outs []Outcome
				var before *Term
				e.inScope(what, func() {
					var st *State
					repl, st, before = prepare(newState(), e)
					st.events = nil
					outs = e.callFunc(nil, nil, c.handler.fn, []Value{repl, c.ptr, namedSym(KStr, "argument")}, c.handler.binds, st, nil)
				})
				for _, o := range outs {
					if len(eventsOf(o.st, "execute"))+len(eventsOf(o.st, "execute-failed"))+len(eventsOf(o.st, "roll")) > 0 {
						uses[c.name] = true
					}
				}
				if !uses[c.name] {
					return
				}
				for _, o := range outs {
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					unchanged(e, o, repl, before, what, pos)
				}
			})
		}
		r.Check(uses["eval"], "uses-dice", ".eval", "", "no path of the handler executes a command")
		r.Check(uses["roll"], "uses-dice", ".roll", "", "no path of the handler rolls dice")
		start := p.Method(replPkg, "REPL", "Start")
		// what the loop calls itself
		seen := map[*ssa.Function]bool{}
		for _, b := range start.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || seen[f] || !p.IsRepoFunc(f) || len(f.Params) == 0 || !types.Identical(f.Params[0].Type(), start.Params[0].Type()) {
					continue
				}
				seen[f] = true
				what := p.FuncName(f)
				r.Try(what, func() {
					var repl *PtrV
					e := mk(&repl)
					for _, c := range cs {
						if c.handler == nil || uses[c.name] {
							continue
						}
						// the other commands may change the queue
						e.stubs[p.FuncName(c.handler.fn)] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
							return []Outcome{}
						}
					}
					var outs []Outcome
					var before *Term
					e.inScope(what, func() {
						var st *State
						repl, st, before = prepare(newState(), e)
						st.events = nil
						args := []Value{repl}
						for _, prm := range f.Params[1:] {
							args = append(args, e.havoc(prm.Type(), prm.Name(), st))
						}
						outs = e.callFunc(nil, nil, f, args, nil, st, nil)
					})
					for _, o := range outs {
						unchanged(e, o, repl, before, "a line that is no command: "+f.Name(), p.Pos(f.Pos()))
					}
				})
			}
		}
		r.Min("queue-restored", 3)
	}
}
