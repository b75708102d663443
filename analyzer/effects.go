package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reachable is the part of the call graph that a set of functions can reach.
type reachable struct {
	e      *Engine
	parent map[*ssa.Function]*ssa.Function
	order  []*ssa.Function
	// ext lists the calls of functions outside the repository.
	ext []extCall
}

type extCall struct {
	caller *ssa.Function
	callee string // package path and name
	pkg    string
	site   ssa.CallInstruction
	fn     *ssa.Function
}

// implicit methods are called by library code given a value.
var implicitMethods = map[string]bool{"String": true, "Error": true, "GoString": true, "Format": true, "Len": true, "Less": true, "Swap": true, "MarshalJSON": true, "MarshalText": true, "Write": true, "Read": true}

// reach follows static calls, interface calls to every implementation, calls
// of function values to every function of the signature whose address is
// taken, function values handed on, and the methods library code calls on
// values converted to an interface. Interface methods in stop are not
// followed.
func (e *Engine) reach(stop map[string]bool, roots ...*ssa.Function) *reachable {
	r := &reachable{e: e, parent: map[*ssa.Function]*ssa.Function{}}
	taken := map[string][]*ssa.Function{}
	fs := e.p.SortedFuncs()
	for _, k := range sortedKeys(e.p.SPkgs) {
		if f := e.p.SPkgs[k].Func("init"); f != nil && !e.p.Funcs[f] {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || op == callee {
						continue
					}
					var g *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						g = x
					case *ssa.MakeClosure:
						g = x.Fn.(*ssa.Function)
					}
					if g != nil {
						k := sigString(g.Signature, false)
						// the receiver of a method expression is a parameter
						taken[k] = append(taken[k], g)
						k = sigString(g.Signature, true)
						taken[k] = append(taken[k], g)
					}
				}
			}
		}
	}
	icache := map[string][]*ssa.Function{}
	var work []*ssa.Function
	push := func(f, from *ssa.Function) {
		if f == nil {
			return
		}
		if !e.p.IsRepoFunc(f) {
			return
		}
		if _, ok := r.parent[f]; ok {
			return
		}
		r.parent[f] = from
		r.order = append(r.order, f)
		work = append(work, f)
	}
	for _, f := range roots {
		push(f, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					switch {
					case cc.IsInvoke():
						it := cc.Value.Type().Underlying().(*types.Interface)
						k := e.relType(cc.Value.Type()) + "." + cc.Method.Name()
						if stop[k] {
							break
						}
						if _, ok := icache[k]; !ok {
							icache[k] = e.implsOf(it, cc.Method)
						}
						for _, g := range icache[k] {
							push(g, f)
						}
						if pk := cc.Method.Pkg(); pk != nil && !strings.HasPrefix(pk.Path(), e.p.Module) {
							r.ext = append(r.ext, extCall{f, pk.Path() + "." + cc.Method.Name(), pk.Path(), ci, nil})
						}
					case cc.StaticCallee() != nil:
						g := cc.StaticCallee()
						if e.p.IsRepoFunc(g) {
							push(g, f)
						} else if g.Pkg != nil {
							r.ext = append(r.ext, extCall{f, g.String(), g.Pkg.Pkg.Path(), ci, g})
						} else if o := g.Object(); o != nil && o.Pkg() != nil {
							r.ext = append(r.ext, extCall{f, g.String(), o.Pkg().Path(), ci, g})
						}
					default:
						if _, ok := cc.Value.(*ssa.Builtin); !ok {
							for _, g := range taken[sigString(cc.Signature(), false)] {
								push(g, f)
							}
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ms := e.p.SSA.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if implicitMethods[ms.At(i).Obj().Name()] {
							push(e.p.SSA.MethodValue(ms.At(i)), f)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						push(g, f)
					}
				}
			}
		}
	}
	return r
}

// sigString is a signature without names, with the receiver as first
// parameter if recv is set.
func sigString(s *types.Signature, recv bool) string {
	var b strings.Builder
	if recv && s.Recv() != nil {
		b.WriteString(types.TypeString(s.Recv().Type(), nil) + ",")
	}
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(types.TypeString(s.Params().At(i).Type(), nil) + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(types.TypeString(s.Results().At(i).Type(), nil) + ",")
	}
	return b.String()
}

// path is the chain of calls by which f is reached.
func (r *reachable) path(f *ssa.Function) string {
	var p []string
	for g := f; g != nil; g = r.parent[g] {
		n := r.e.p.FuncName(g)
		p = append(p, n[strings.LastIndex(n, "/")+1:])
		if len(p) > 12 {
			p = append(p, "...")
			break
		}
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " > ")
}

func (r *reachable) extPkgs() []string {
	m := map[string]bool{}
	for _, x := range r.ext {
		m[x.callee] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
