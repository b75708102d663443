package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// method of an interface type by name.
func ifaceMethod(t types.Type, name string) *types.Func {
	it := t.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i)
		}
	}
	undec("%s has no method %s", t, name)
	return nil
}

// texts lists the elements of an exactly known list of texts, or of the
// named field of its elements.
func (e *Engine) texts(st *State, v Value, field string) []string {
	v = st.resolve(v)
	if _, ok := v.(NilV); ok {
		return nil
	}
	s, ok := v.(*SliceV)
	if !ok || !s.n.isConst() {
		undec("list of %T", v)
	}
	var out []string
	if s.n.k == 0 {
		return nil
	}
	for _, x := range e.elements(st, s) {
		x = st.resolve(x)
		if sv, ok := x.(*StructV); ok && field != "" {
			x = st.resolve(sv.F[structField(sv.T, field)])
		}
		t, ok := x.(*Term)
		if !ok || !t.isConst() {
			undec("element %v", x)
		}
		out = append(out, t.s)
	}
	return out
}

func init() {
	checks["C20"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the list of game systems, of the search in it for every listed identifier and for any text that is none of them, of the selection of a game system on an engine and of the construction of an engine"
		const lp = "pkg/dicebot/list"
		bot := p.NamedType("pkg/dicebot", "DiceBot")
		idM := ifaceMethod(bot, "GameID")
		listed := map[string]bool{}
		gameID := func(e *Engine, st *State, b Value, at *ssa.Function) string {
			out := single(e.invokeMethod(nil, nil, st, bot, idM, b, nil, e.anySite(at)), "GameID")
			t, ok := out.st.resolve(out.ret[0]).(*Term)
			if !ok || !t.isConst() {
				undec("identifier of a game system")
			}
			return t.s
		}
		r.Try("list", func() {
			e := execEngine(p)
			e.inlining()
			for _, incl := range []bool{true, false} {
				var ids, infos []string
				for _, n := range []string{"AvailableGameIDs", "AvailableGameInfos"} {
					f := p.Func(lp, n)
					var outs []Outcome
					e.inScope(n, func() { outs = e.callFunc(nil, nil, f, []Value{tBool(incl)}, nil, newState(), nil) })
					o := single(outs, n)
					if n == "AvailableGameIDs" {
						ids = e.texts(o.st, o.ret[0], "")
						for _, id := range ids {
							listed[id] = true
						}
						u := map[string]bool{}
						for _, id := range ids {
							r.Check(!u[id], "listed-once", fmt.Sprintf("%s(%v): %s", n, incl, id), p.Pos(f.Pos()), "listed more than once")
							u[id] = true
						}
						r.Check(u["DiceBot"] == incl, "basic-listed", fmt.Sprintf("%s(%v)", n, incl), p.Pos(f.Pos()), "the basic game system is listed exactly on request")
					} else {
						sv, ok := o.st.resolve(o.ret[0]).(*StructV)
						if !ok || len(sv.F) != 1 {
							undec("game infos of %T", o.ret[0])
						}
						infos = e.texts(o.st, sv.F[0], "System")
						sort.Strings(infos)
						want := append([]string{}, ids...)
						sort.Strings(want)
						r.Check(fmt.Sprint(infos) == fmt.Sprint(want), "same-list", fmt.Sprintf("%s(%v)", n, incl), p.Pos(f.Pos()), fmt.Sprintf("lists %v, the identifiers are %v", infos, want))
					}
				}
			}
		})
		var names []string
		for n := range listed {
			names = append(names, n)
		}
		sort.Strings(names)
		r.Analysed["listed game systems"] = len(names)
		other := func(st *State) (*Term, *State) {
			t := namedSym(KStr, "gameID")
			for _, n := range names {
				st.facts.assume(tEq(t, tStr(n)), false)
			}
			return t, st
		}
		find := p.Func(lp, "Find")
		ctor := func(e *Engine, st *State, v Value) (Value, *State) {
			f, ok := st.resolve(v).(*FuncV)
			if !ok {
				undec("constructor of %T", st.resolve(v))
			}
			o := single(e.callFunc(nil, nil, f.fn, nil, f.binds, st, nil), "constructor")
			return o.ret[0], o.st
		}
		r.Try("find", func() {
			e := execEngine(p)
			e.inlining()
			for _, n := range names {
				var outs []Outcome
				e.inScope("find:"+n, func() { outs = e.callFunc(nil, nil, find, []Value{tStr(n)}, nil, newState(), nil) })
				for _, o := range outs {
					if !r.Check(e.nilness(o.st, o.ret[1]) == "nil", "found", n, p.Pos(find.Pos()), "a listed game system is not found") {
						continue
					}
					b, st := ctor(e, o.st, o.ret[0])
					id := gameID(e, st, b, find)
					r.Check(id == n, "own-identifier", n, p.Pos(find.Pos()), "the game system found reports "+id)
				}
			}
			var outs []Outcome
			e.inScope("find-other", func() {
				t, st := other(newState())
				outs = e.callFunc(nil, nil, find, []Value{t}, nil, st, nil)
			})
			for _, o := range outs {
				if c := unknownCalls(o.st); c != "" {
					undec("depends on %s", c)
				}
				err := e.nilness(o.st, o.ret[1])
				r.Check(err == "nonnil", "not-found", "any other identifier", p.Pos(find.Pos()), "an identifier that is not listed yields no error, when"+factsText(o.st))
			}
		})
		set := p.Method("pkg/bcdice", "BCDice", "SetDiceBotByGameID")
		field := func(e *Engine, st *State, b Value) Value {
			s := st.load(b.(*PtrV)).(*StructV)
			for i := range s.F {
				if types.Identical(s.T.Underlying().(*types.Struct).Field(i).Type(), bot) {
					return st.resolve(s.F[i])
				}
			}
			undec("no game system in %s", s.T)
			return nil
		}
		r.Try("select", func() {
			e := execEngine(p)
			e.inlining()
			for _, n := range append(names, "") {
				what := "selection of " + n
				if n == "" {
					what = "selection of any other identifier"
				}
				var outs []Outcome
				var b Value
				var before Value
				e.inScope(what, func() {
					st := newState()
					b, st = e.newBCDice(st)
					bp := b.(*PtrV)
					s := st.load(bp).(*StructV)
					for i := range s.F {
						if ft := s.T.Underlying().(*types.Struct).Field(i).Type(); types.Identical(ft, bot) {
							before = &UnkV{ft, "bot before"}
							st.store(&PtrV{bp.obj, pathAdd(bp.path, i)}, before)
						}
					}
					id := tStr(n)
					if n == "" {
						id, st = other(st)
					}
					outs = e.callFunc(nil, nil, set, []Value{b, id}, nil, st, nil)
				})
				for _, o := range outs {
					now := field(e, o.st, b)
					if c := unknownCalls(o.st); c != "" {
						undec("depends on %s", c)
					}
					if n == "" {
						r.Check(e.nilness(o.st, o.ret[0]) == "nonnil", "select-error", what, p.Pos(set.Pos()), "no error")
						r.Check(now == before, "select-keeps", what, p.Pos(set.Pos()), "a failed selection changes the game system")
						continue
					}
					r.Check(e.nilness(o.st, o.ret[0]) == "nil", "selected", what, p.Pos(set.Pos()), "a listed game system cannot be selected")
					if now == before {
						r.Fail("selected", what, p.Pos(set.Pos()), "the selection leaves the game system as it was")
						continue
					}
					id := gameID(e, o.st, now, set)
					r.Check(id == n, "selected-identifier", what, p.Pos(set.Pos()), "the game system selected reports "+id)
				}
			}
		})
		r.Try("new engine", func() {
			e := execEngine(p)
			e.inlining()
			var id string
			e.inScope("new", func() {
				b, st := e.newBCDice(newState())
				id = gameID(e, st, field(e, st, b), set)
			})
			r.Check(id == "DiceBot", "initial", "bcdice.New", p.Pos(p.Func("pkg/bcdice", "New").Pos()), "a new engine has the game system "+id)
		})
		r.Min("found", 1)
		r.Min("not-found", 1)
		r.Min("select-error", 1)
		r.Min("select-keeps", 1)
		r.Min("initial", 1)
	}
}

// unknownCalls names an external function whose result a path may depend on.
func unknownCalls(st *State) string {
	for _, ev := range st.eventList() {
		if ev.Kind == "ext-call" {
			return ev.Vals[0].(*Term).s
		}
	}
	return ""
}
