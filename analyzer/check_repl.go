package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const replPkg = "cmd/GoBCDiceREPL/repl"

type replCommand struct {
	name    string
	handler *FuncV
	val     *StructV
	ptr     *PtrV
}

// globalValue is the content of a package-level variable after
// initialisation.
func (e *Engine) globalValue(st *State, rel, name string) Value {
	g, ok := e.p.Pkg(rel).Members[name].(*ssa.Global)
	if !ok {
		undec("no variable %s.%s", rel, name)
	}
	p, ok := e.global(g).(*PtrV)
	if !ok {
		undec("variable %s of %T", name, e.global(g))
	}
	return st.resolve(st.load(p))
}

// replCommands reads the table of commands.
func (e *Engine) replCommands(st *State) []replCommand {
	s, ok := e.globalValue(st, replPkg, "commands").(*SliceV)
	if !ok {
		undec("table of commands of %T", e.globalValue(st, replPkg, "commands"))
	}
	var out []replCommand
	for i, v := range e.elements(st, s) {
		c, ok := st.resolve(v).(*StructV)
		if !ok {
			undec("command of %T", v)
		}
		n, _ := st.resolve(c.F[structField(c.T, "Name")]).(*Term)
		if n == nil || !n.isConst() {
			undec("name of a command")
		}
		h, _ := st.resolve(c.F[structField(c.T, "Handler")]).(*FuncV)
		out = append(out, replCommand{n.s, h, c, &PtrV{s.obj, pathAdd("", int(s.lo.k)+i)}})
	}
	return out
}

// newREPL interprets the construction of a REPL.
func (e *Engine) newREPL(st *State) (*PtrV, *State) {
	f := e.p.Func(replPkg, "New")
	var args []Value
	for _, prm := range f.Params {
		args = append(args, &UnkV{prm.Type(), prm.Name()})
	}
	o := single(e.callFunc(nil, nil, f, args, nil, st, nil), "repl.New")
	p, ok := o.st.resolve(o.ret[0]).(*PtrV)
	if !ok {
		undec("REPL of %T", o.ret[0])
	}
	o.st.events = nil
	return p, o.st
}

type feederField struct {
	path string
	at   *PtrV
	v    Value
}

// feeders lists the fields of type feeder.DieFeeder that can be reached from
// a pointer.
func (e *Engine) feeders(st *State, root Value) (out []feederField) {
	ft := e.p.NamedType("pkg/core/dice/feeder", "DieFeeder")
	seen := map[string]bool{}
	var walk func(v Value, at *PtrV, path string)
	walk = func(v Value, at *PtrV, path string) {
		switch x := st.resolve(v).(type) {
		case *PtrV:
			k := fmt.Sprint(x.obj, x.path)
			if seen[k] {
				return
			}
			seen[k] = true
			if st.obj(x.obj) != nil {
				walk(st.load(x), x, path)
			}
		case *IfaceV:
			walk(x.V, nil, path)
		case *StructV:
			s := x.T.Underlying().(*types.Struct)
			for i, f := range x.F {
				name := path + "." + s.Field(i).Name()
				var fa *PtrV
				if at != nil {
					fa = &PtrV{at.obj, pathAdd(at.path, i)}
				}
				if types.Identical(s.Field(i).Type(), ft) {
					out = append(out, feederField{name, fa, st.resolve(f)})
					continue
				}
				walk(f, fa, name)
			}
		}
	}
	walk(root, nil, "REPL")
	return out
}

// sameObject: two values denote the same object.
func sameObject(st *State, a, b Value) bool {
	a, b = st.resolve(a), st.resolve(b)
	if x, ok := a.(*IfaceV); ok {
		a = st.resolve(x.V)
	}
	if x, ok := b.(*IfaceV); ok {
		b = st.resolve(x.V)
	}
	pa, ok1 := a.(*PtrV)
	pb, ok2 := b.(*PtrV)
	if ok1 && ok2 {
		return pa.obj == pb.obj && pa.path == pb.path
	}
	return a == b
}

// replWith makes a REPL that uses a feeder of the given kind everywhere.
func (e *Engine) replWith(kind string) (*PtrV, Value, *State) {
	r, st := e.newREPL(newState())
	fs := e.feeders(st, r)
	if len(fs) == 0 {
		undec("no die feeder in a REPL")
	}
	if kind == "random" {
		return r, fs[0].v, st
	}
	qt := e.p.NamedType("pkg/core/dice/feeder", "Queue")
	q := e.pointee(st, types.NewPointer(qt))
	f := &IfaceV{types.NewPointer(qt), q}
	for _, x := range fs {
		if x.at == nil {
			undec("die feeder at %s", x.path)
		}
		st.store(x.at, f)
	}
	st.events = nil
	return r, f, st
}

// queueChanges replaces the content of a queue by any other.
func (e *Engine) queueChanges(st *State, r *PtrV) {
	qt := e.p.NamedType("pkg/core/dice/feeder", "Queue")
	for _, f := range e.feeders(st, r) {
		v := f.v
		if iv, ok := v.(*IfaceV); ok && types.Identical(deref(iv.T), qt) {
			if p, ok := st.resolve(iv.V).(*PtrV); ok {
				if e.queueTo != nil {
					e.queueTo(st, p, "queue after execution")
					continue
				}
				st.store(p, e.havoc(qt, "queue after execution", st))
			}
		}
	}
}

// stubREPL replaces command execution by its contract: a result or an error,
// and dice taken from the feeder.
func (e *Engine) stubREPL(repl func() *PtrV) {
	fn := e.method("pkg/bcdice", "BCDice", "ExecuteCommand")
	run := e.executed("execute", fn.Signature.Results().At(0).Type())
	e.stubs["(*pkg/bcdice.BCDice).ExecuteCommand"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		outs := run(e, fr, st, args, site)
		for _, o := range outs {
			e.queueChanges(o.st, repl())
		}
		return outs
	}
	sexp := func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		return []Outcome{{st: st, ret: []Value{freshSym(KStr, "s-expression")}}}
	}
	e.istubs["pkg/core/ast.Node.SExp"] = sexp
	e.istubs["lazy:pkg/core/ast.Node.SExp"] = sexp
	rd := e.method("pkg/core/dice/roller", "DiceRoller", "RollDice")
	e.stubs["(*pkg/core/dice/roller.DiceRoller).RollDice"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		st.event("roll", e.p.Pos(site.Pos()), args...)
		outs := e.havocCall(st, rd.Signature, "roll", args[1:])
		for _, o := range outs {
			e.queueChanges(o.st, repl())
		}
		return outs
	}
}

// eachHandler interprets every handler on any argument text.
func eachHandler(p *Prog, r *Report, setup func(e *Engine), each func(e *Engine, c replCommand, kind string, o Outcome, repl *PtrV, f Value, input *Term), done func(e *Engine, c replCommand)) {
	cs := execEngine(p).replCommands(newState())
	r.Analysed["commands of the REPL"] = len(cs)
	for i := range cs {
		if cs[i].handler == nil {
			continue
		}
		e := execEngine(p)
		e.inlining()
		var repl *PtrV
		e.stubREPL(func() *PtrV { return repl })
		if setup != nil {
			setup(e)
		}
		c := e.replCommands(newState())[i]
		for _, kind := range []string{"random", "queue"} {
			what := "." + c.name + " with a " + kind + " feeder"
			r.Try(what, func() {
				var outs []Outcome
				var f Value
				in := namedSym(KStr, "argument")
				e.inScope(what, func() {
					var st *State
					repl, f, st = e.replWith(kind)
					outs = e.callFunc(nil, nil, c.handler.fn, []Value{repl, c.ptr, in}, c.handler.binds, st, nil)
				})
				for _, o := range outs {
					each(e, c, kind, o, repl, f, in)
				}
			})
		}
		if done != nil {
			done(e, c)
		}
	}
}

func init() {
	checks["C17"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the construction of a REPL and of every command handler on any argument text, starting with one feeder everywhere: on every path all die feeders reachable from the REPL are one object again, and the previous one unless the path recognised a kind of feeder to set"
		e := execEngine(p)
		e.inlining()
		at := p.Pos(p.Func(replPkg, "New").Pos())
		r.Try("New", func() {
			e.inScope("new", func() {
				repl, st := e.newREPL(newState())
				fs := e.feeders(st, repl)
				for _, f := range fs {
					r.Check(sameObject(st, f.v, fs[0].v), "one-feeder", "New: "+f.path, at, "differs from "+fs[0].path)
				}
				r.Analysed["feeder fields"] = len(fs)
				if len(fs) < 2 {
					undec("%d feeder fields", len(fs))
				}
			})
		})
		// command execution draws from the configured feeder
		r.Try("ExecuteCommand", func() {
			for _, any := range []bool{false, true} {
				ep := execEngine(p)
				ep.pipelineScope(any, func(o Outcome, b Value, in *Term) {
					own := ep.feeders(o.st, b.(*PtrV))
					if len(own) == 0 {
						undec("an engine without die feeder")
					}
					for _, ev := range o.st.eventList() {
						if !strings.Contains(ev.Kind, "execute") {
							continue
						}
						n := 0
						for _, a := range ev.Vals {
							q, ok := o.st.resolve(a).(*PtrV)
							if !ok {
								continue
							}
							for _, f := range ep.feeders(o.st, q) {
								n++
								r.Check(sameObject(o.st, f.v, own[0].v), "draws-from-configured", ev.Kind+": "+f.path, ev.Pos, "a command is executed with another feeder than the configured one")
							}
						}
						if n == 0 {
							undec("execution at %s without a die feeder", ev.Pos)
						}
					}
				})
			}
			r.Min("draws-from-configured", 2)
		})
		changed := false
		eachHandler(p, r, nil, func(e *Engine, c replCommand, kind string, o Outcome, repl *PtrV, f Value, in *Term) {
			fs := e.feeders(o.st, repl)
			pos := p.Pos(c.handler.fn.Pos())
			what := "." + c.name
			for _, x := range fs {
				r.Check(sameObject(o.st, x.v, fs[0].v), "one-feeder", what+": "+x.path, pos, "differs from "+fs[0].path+" when"+factsText(o.st))
			}
			if sameObject(o.st, fs[0].v, f) {
				r.OK("keeps-feeder", what, pos, "")
				return
			}
			changed = true
			// the argument was recognised: it equals some text
			known := false
			for _, t := range boolsOf(o.st) {
				if o.st.facts.bools[t] && (t.op == "eq" || t.op == "equalfold") && mentions(t, in) && (t.args[0].isConst() || t.args[1].isConst()) {
					known = true
				}
			}
			for _, ev := range o.st.eventList() {
				if ev.Kind == "print" && strings.Contains(fmt.Sprint(ev.Vals), "31m") {
					known = false
				}
			}
			r.Check(known, "keeps-feeder", what, pos, "the feeder is replaced for an argument that names none, when"+factsText(o.st))
		}, nil)
		if !changed {
			r.Undecided("set-die-feeder", "no handler changes the feeder")
		}
		r.Min("one-feeder", 8)
		r.Min("keeps-feeder", 8)
	}
}

// lines is a terminal on which the given texts are typed before the input
// ends; nil stands for any text.
func (e *Engine) typed(lines ...*Term) {
	inst := e.p.extType("github.com/chzyer/readline", "Instance")
	if inst == nil {
		undec("no readline.Instance")
	}
	eof, _ := e.p.SSA.ImportedPackage("io").Members["EOF"].(*ssa.Global)
	if eof == nil {
		undec("no io.EOF")
	}
	e.stubs["github.com/chzyer/readline.NewEx"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		return []Outcome{{st, []Value{e.pointee(st, types.NewPointer(inst)), NilV{}}}}
	}
	e.stubs["(*github.com/chzyer/readline.Instance).Close"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		return []Outcome{{st, []Value{NilV{}}}}
	}
	e.stubs["(*github.com/chzyer/readline.Instance).Readline"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		n := 0
		for _, ev := range st.eventList() {
			if ev.Kind == "readline" {
				n++
			}
		}
		st.event("readline", e.p.Pos(site.Pos()))
		if n < len(lines) {
			return []Outcome{{st, []Value{lines[n], NilV{}}}}
		}
		if n > len(lines)+1 {
			// reading on behind the end of the input
			return []Outcome{}
		}
		return []Outcome{{st, []Value{tStr(""), st.resolve(st.load(e.global(eof).(*PtrV)))}}}
	}
}

// session interprets Start with the given lines; every handler but those in
// real is an event.
func (e *Engine) session(name string, cs []replCommand, real string, lines ...*Term) (outs []Outcome) {
	e.inlining()
	e.typed(lines...)
	for _, c := range cs {
		n := e.p.FuncName(c.handler.fn)
		if c.name == real {
			delete(e.stubs, n)
			continue
		}
		h := c.handler.fn
		e.stubs[n] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
			st.event("handler", e.p.Pos(site.Pos()), append([]Value{&FuncV{fn: h}}, args...)...)
			return []Outcome{{st, nil}}
		}
	}
	start := e.method(replPkg, "REPL", "Start")
	e.inScope(name, func() {
		repl, st := e.newREPL(newState())
		outs = e.callFunc(nil, nil, start, []Value{repl}, nil, st, nil)
	})
	return outs
}

func eventsOf(st *State, kind string) (out []*Event) {
	for _, ev := range st.eventList() {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return out
}

func init() {
	checks["C18"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "the table of commands as package initialisation builds it; abstract interpretation of the REPL's loop on every listed name, on .q, .quit and the end of the input, and of every handler on any argument text"
		start := p.Pos(p.Method(replPkg, "REPL", "Start").Pos())
		var cs []replCommand
		r.Try("table", func() {
			cs = execEngine(p).replCommands(newState())
			names := map[string]bool{}
			for _, c := range cs {
				r.Check(c.name != "" && !names[c.name], "unique-name", "."+c.name, start, "the name is empty or listed twice")
				names[c.name] = true
				r.Check(c.handler != nil, "has-handler", "."+c.name, start, "the handler is nil")
			}
		})
		for _, c := range cs {
			if c.handler == nil {
				return
			}
		}
		r.Analysed["listed commands"] = len(cs)
		e := execEngine(p)
		pick := func(what string, real string, lines []*Term, each func(o Outcome)) {
			r.Try(what, func() {
				outs := e.session(what, cs, real, lines...)
				if len(outs) == 0 {
					r.Fail("ends", what, start, "the loop does not end although the input does")
				}
				for _, o := range outs {
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					each(o)
				}
			})
		}
		for i, c := range cs {
			for _, tail := range []string{"", " argument", "\targument "} {
				want := strings.TrimSpace(tail)
				pick(fmt.Sprintf("line %q", "."+c.name+tail), "", []*Term{tStr("." + c.name + tail)}, func(o Outcome) {
					what := "." + c.name
					hs := eventsOf(o.st, "handler")
					if !r.Check(len(hs) == 1, "dispatches", what, start, fmt.Sprintf("typing the listed name calls %d handlers", len(hs))) {
						return
					}
					h := hs[0]
					f := h.Vals[0].(*FuncV).fn
					r.Check(f == c.handler.fn, "dispatches", what, start, "typing the listed name calls "+p.FuncName(f)+" instead of the listed handler")
					cp, _ := o.st.resolve(h.Vals[2]).(*PtrV)
					if cp == nil {
						r.Fail("own-description", what, start, "the handler is called without its command")
					} else if cv, ok := o.st.resolve(o.st.load(cp)).(*StructV); ok {
						n, _ := o.st.resolve(cv.F[structField(cv.T, "Name")]).(*Term)
						r.Check(n == tStr(cs[i].name), "own-description", what, start, "the handler is called with the description of another command")
					}
					r.Check(o.st.resolve(h.Vals[3]) == Value(tStr(want)), "argument", what, start, fmt.Sprintf("%q calls the handler with %s", "."+c.name+tail, e0text(o.st, h.Vals[3])))
				})
			}
		}
		ends := func(line, real string, reads int) {
			pick(fmt.Sprintf("line %q", line), real, []*Term{tStr(line)}, func(o Outcome) {
				n := len(eventsOf(o.st, "readline"))
				r.Check(n == reads, "ends", line, start, fmt.Sprintf("the loop reads %d lines and not %d", n, reads))
				r.Check(len(eventsOf(o.st, "handler")) == 0, "ends", line, start, "the line is also taken for a command")
			})
		}
		ends(".q", "", 1)
		ends(".quit", "quit", 1)
		pick("end of input", "", nil, func(o Outcome) {
			n := len(eventsOf(o.st, "readline"))
			r.Check(n == 1 && len(eventsOf(o.st, "handler")) == 0, "ends", "end of input", start, fmt.Sprintf("reads %d times", n))
		})
		r.Try("any line", func() {
			outs := e.session("any line", cs, "", namedSym(KStr, "line"))
			if len(outs) == 0 {
				undec("no outcome")
			}
			e.report(r, panicRules...)
		})
		listed := map[string]bool{}
		eachHandler(p, r, nil, func(e *Engine, c replCommand, kind string, o Outcome, repl *PtrV, f Value, in *Term) {
			r.OK("returns", "."+c.name, p.Pos(c.handler.fn.Pos()), "")
			if c.name == "help" {
				var text []*Term
				for _, ev := range eventsOf(o.st, "print") {
					if t, ok := ev.Vals[0].(*Term); ok {
						text = append(text, t)
					}
				}
				t := tConcat(text...)
				if !t.isConst() {
					undec("the help text is not constant")
				}
				for _, d := range cs {
					listed[d.name] = true
					r.Check(strings.Contains(t.s, "."+d.name), "listed", "."+d.name, p.Pos(c.handler.fn.Pos()), "the help does not mention the command")
				}
			}
		}, func(e *Engine, c replCommand) {
			e.report(r, panicRules...)
		})
		r.Min("dispatches", 9)
		r.Min("ends", 3)
		r.Min("unique-name", 9)
	}
}

func e0text(st *State, v Value) string {
	if t, ok := st.resolve(v).(*Term); ok {
		return t.String()
	}
	return fmt.Sprintf("a %T", v)
}
