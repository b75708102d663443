package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type declConst struct {
	name string
	val  int64
	pos  string
}

// constsOf lists the constants declared with a type in its own package.
func (p *Prog) constsOf(t *types.Named) (out []declConst) {
	sc := t.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), t) {
			continue
		}
		if v, exact := constant.Int64Val(constant.ToInt(c.Val())); exact {
			out = append(out, declConst{n, v, p.Pos(c.Pos())})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].val < out[j].val || out[i].val == out[j].val && out[i].name < out[j].name
	})
	return out
}

// stringMethod is the String method of a named type, if it has one.
func (p *Prog) stringMethod(t *types.Named) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		m := t.Method(i)
		sig := m.Type().(*types.Signature)
		if m.Name() == "String" && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// enums lists the named integer types of the module with constants and a
// String method.
func (p *Prog) enums() (out []*types.Named) {
	for _, pkg := range p.Pkgs {
		if !p.InRepo(pkg.Types) {
			continue
		}
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			b := basicOf(t)
			if b == nil || b.Info()&types.IsInteger == 0 {
				continue
			}
			if p.stringMethod(t) != nil && len(p.constsOf(t)) > 0 {
				out = append(out, t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func init() {
	checks["C21"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the String method of every integer type with declared constants, on each constant and on a value no constant has; and of every node constructor and value kind"
		es := p.enums()
		for _, t := range es {
			rel := strings.TrimPrefix(t.String(), p.Module+"/")
			f := p.stringMethod(t)
			pos := p.Pos(f.Pos())
			r.Try(rel, func() {
				e := execEngine(p)
				e.inlining()
				name := func(v *Term) string {
					var outs []Outcome
					e.inScope(rel, func() { outs = e.callFunc(nil, nil, f, []Value{v}, nil, newState(), nil) })
					names := map[string]bool{}
					for _, o := range outs {
						s, ok := o.st.resolve(o.ret[0]).(*Term)
						if !ok || !s.isConst() {
							undec("name of %s", v)
						}
						names[s.s] = true
					}
					if len(names) != 1 {
						undec("%d names of %s", len(names), v)
					}
					return sortedKeys(names)[0]
				}
				cs := p.constsOf(t)
				fallback := name(tInt(math.MaxInt32 - 7))
				seen := map[string]string{}
				vals := map[int64]string{}
				for _, c := range cs {
					what := rel + " " + c.name
					if old, dup := vals[c.val]; dup {
						r.Fail("own-value", what, c.pos, "has the same value as "+old)
						continue
					}
					vals[c.val] = c.name
					s := name(tInt(c.val))
					unknown := c.val == 0 && (strings.HasPrefix(c.name, "UNKNOWN") || strings.HasPrefix(c.name, "ILLEGAL") || strings.HasPrefix(c.name, "INVALID"))
					r.Check(s != fallback || unknown, "has-name", what, pos, fmt.Sprintf("prints as %q, the name of an unknown value", s))
					old, dup := seen[s]
					r.Check(!dup, "own-name", what, pos, fmt.Sprintf("prints as %q, like %s", s, old))
					seen[s] = c.name
				}
				r.Analysed["constants of "+rel] = len(cs)
			})
		}
		// every value kind is reported by one type of value only
		r.Try("value kinds", func() {
			obj := p.NamedType("pkg/core/object", "Object")
			var m *types.Func
			it := obj.Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Type" {
					m = it.Method(i)
				}
			}
			if m == nil {
				undec("object.Object has no method Type")
			}
			e := execEngine(p)
			e.inlining()
			seen := map[string]string{}
			fs := e.implsOf(it, m)
			sort.Slice(fs, func(i, j int) bool { return p.FuncName(fs[i]) < p.FuncName(fs[j]) })
			for _, f := range fs {
				what := p.FuncName(f)
				var outs []Outcome
				e.inScope(what, func() {
					st := newState()
					recv := e.pointee(st, f.Params[0].Type())
					outs = e.callFunc(nil, nil, f, []Value{recv}, nil, st, nil)
				})
				o := single(outs, what)
				t, ok := o.st.resolve(o.ret[0]).(*Term)
				if !ok || !t.isConst() {
					undec("kind of %s", what)
				}
				old, dup := seen[t.String()]
				r.Check(!dup, "own-kind", what, p.Pos(f.Pos()), "reports the same kind of value as "+old)
				seen[t.String()] = what
			}
		})
		// every node constructor makes a kind of its own
		r.Try("node kinds", func() {
			nt := p.NamedType("pkg/core/ast", "Node")
			it := nt.Underlying().(*types.Interface)
			var m *types.Func
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Type" {
					m = it.Method(i)
				}
			}
			e := execEngine(p)
			e.inlining()
			seen := map[string]string{}
			pkg := p.Pkg("pkg/core/ast")
			for _, n := range pkg.Pkg.Scope().Names() {
				f := p.Func("pkg/core/ast", n)
				if f == nil || !strings.HasPrefix(n, "New") || f.Signature.Results().Len() != 1 || !types.Implements(f.Signature.Results().At(0).Type(), it) {
					continue
				}
				r.Try(n, func() {
					var outs []Outcome
					e.inScope(n, func() {
						st := newState()
						var args []Value
						for _, prm := range f.Params {
							if _, isPtr := prm.Type().Underlying().(*types.Pointer); isPtr {
								args = append(args, e.pointee(st, prm.Type()))
							} else {
								args = append(args, e.havoc(prm.Type(), prm.Name(), st))
							}
						}
						outs = nil
						for _, o := range e.callFunc(nil, nil, f, args, nil, st, nil) {
							outs = append(outs, e.invokeMethod(nil, nil, o.st, nt, m, &IfaceV{f.Signature.Results().At(0).Type(), o.ret[0]}, nil, e.anySite(f))...)
						}
					})
					kinds := map[string]bool{}
					for _, o := range outs {
						t, ok := o.st.resolve(o.ret[0]).(*Term)
						if !ok || !t.isConst() {
							undec("kind of %s", n)
						}
						kinds[t.String()] = true
					}
					for k := range kinds {
						old, dup := seen[k]
						r.Check(!dup, "own-kind", n, p.Pos(f.Pos()), "makes the same kind of node as "+old)
						seen[k] = n
					}
				})
			}
		})
		r.Min("own-name", 45)
		r.Min("own-kind", 25)
	}
}

// pointee makes an arbitrary value behind a pointer.
func (e *Engine) pointee(st *State, t types.Type) Value {
	pt := t.Underlying().(*types.Pointer)
	id := e.id()
	st.heap[id] = &Obj{T: pt.Elem(), V: e.havoc(pt.Elem(), "any", st), site: "any"}
	return &PtrV{id, ""}
}

// anySite is some instruction of f, for calls made by a check.
func (e *Engine) anySite(f *ssa.Function) ssa.Instruction { return f.Blocks[0].Instrs[0] }
