package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// storage are the objects in which the elements of a slice may be stored.
func (e *Engine) storage(objs map[int]bool) map[int]bool {
	out := map[int]bool{}
	var add func(id int)
	add = func(id int) {
		if id < 0 || out[id] {
			return
		}
		out[id] = true
		for _, x := range e.sharing[id] {
			add(x)
		}
	}
	for id := range objs {
		add(id)
	}
	return out
}

// lists collects the slices of dice that can be reached from a value.
func (e *Engine) lists(st *State, v Value, et types.Type) map[int]bool {
	out := map[int]bool{}
	seen := map[string]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch x := st.resolve(v).(type) {
		case *SliceV:
			if x.obj < 0 {
				return
			}
			if t, ok := st.obj(x.obj).T.Underlying().(*types.Slice); ok && types.Identical(t.Elem(), et) {
				out[x.obj] = true
				return
			}
			if q, ok := st.obj(x.obj).V.(*SeqV); ok && q.exact {
				for _, el := range q.elems {
					walk(el)
				}
			}
		case *PtrV:
			k := fmt.Sprint(x.obj, x.path)
			if !seen[k] && st.obj(x.obj) != nil {
				seen[k] = true
				walk(st.load(x))
			}
		case *IfaceV:
			walk(x.V)
		case *StructV:
			for _, f := range x.F {
				walk(f)
			}
		}
	}
	walk(v)
	return out
}

func init() {
	checks["C10"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation with object identities of every exported function and method of the dice queue and of the dice record that takes or returns a list of dice: on no path is a list that comes in or goes out stored in the storage of an internal list, where the result of an append may lie in the storage of the list appended to"
		die := p.NamedType("pkg/core/dice", "Die")
		owners := []*types.Named{p.NamedType("pkg/core/dice/feeder", "Queue"), p.NamedType("pkg/core/evaluator", "Environment"), p.NamedType("pkg/core/evaluator", "Evaluator")}
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), die)
		}
		owner := func(t types.Type) *types.Named {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			for _, o := range owners {
				if types.Identical(pt.Elem(), o) {
					return o
				}
			}
			return nil
		}
		var fns []*ssa.Function
		for _, f := range p.SortedFuncs() {
			if f.Pkg == nil || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			own, list := false, false
			sig := f.Signature
			for _, prm := range f.Params {
				own = own || owner(prm.Type()) != nil
				list = list || isList(prm.Type())
			}
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				own = own || owner(t) != nil
				list = list || isList(t)
			}
			if own && list {
				fns = append(fns, f)
			}
		}
		r.Analysed["functions that take or return lists of dice"] = len(fns)
		for _, f := range fns {
			what := p.FuncName(f)
			r.Try(what, func() {
				e := execEngine(p)
				e.sequences()
				delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RollDice")
				delete(e.stubs, "(*pkg/core/evaluator.Evaluator).RolledDice")
				var outs []Outcome
				given := map[string]*SliceV{}
				owned := map[string]Value{}
				e.inScope(what, func() {
					st := newState()
					var args []Value
					for _, prm := range f.Params {
						switch {
						case isList(prm.Type()):
							l := e.anyList(st, die, prm.Name(), e.havoc(die, prm.Name(), st))
							given["parameter "+prm.Name()] = l
							args = append(args, l)
						case owner(prm.Type()) != nil:
							var v Value
							if owner(prm.Type()) == owners[2] {
								v, st = e.newEvaluator(st)
							} else {
								v = e.pointee(st, prm.Type())
							}
							owned[prm.Name()] = v
							args = append(args, v)
						default:
							args = append(args, e.havoc(prm.Type(), prm.Name(), st))
						}
					}
					st.events = nil
					outs = e.callFunc(nil, nil, f, args, nil, st, nil)
				})
				if len(outs) == 0 {
					undec("no outcome")
				}
				for _, o := range outs {
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					out := map[string]map[int]bool{}
					for n, l := range given {
						out[n] = map[int]bool{l.obj: true}
					}
					in := map[int]bool{}
					for _, v := range owned {
						for id := range e.lists(o.st, v, die) {
							in[id] = true
						}
					}
					for i, v := range o.ret {
						t := f.Signature.Results().At(i).Type()
						if owner(t) != nil {
							for id := range e.lists(o.st, v, die) {
								in[id] = true
							}
						}
						if isList(t) {
							if s, ok := o.st.resolve(v).(*SliceV); ok && s.obj >= 0 {
								out["the list returned"] = map[int]bool{s.obj: true}
							}
						}
					}
					inner := e.storage(in)
					var names []string
					for n := range out {
						names = append(names, n)
					}
					sort.Strings(names)
					for _, n := range names {
						shared := false
						for id := range e.storage(out[n]) {
							shared = shared || inner[id] && !e.isEmpty(o.st, id)
						}
						r.Check(!shared, "by-copy", what+": "+n, p.Pos(f.Pos()), "the list shares its storage with an internal list")
					}
				}
			})
		}
		r.Min("by-copy", 6)
	}
}

// isEmpty: an object without any element has no storage to share.
func (e *Engine) isEmpty(st *State, id int) bool {
	o := st.obj(id)
	if o == nil {
		return false
	}
	q, ok := o.V.(*SeqV)
	return ok && q.exact && len(q.elems) == 0
}
