package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions that neither change their arguments nor return (parts of) them
// are summarised once for all the trees they are applied to: the trees are
// collapsed into a grammar with one nonterminal per kind of node and field.

func basicResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isErrorType(t) {
			continue
		}
		if _, ok := t.Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// collapse adds the trees of shape s to the collapsed nonterminal nt.
func (e *Engine) collapse(s *Shape, nt string) {
	if e.collRound != e.round {
		e.collRound = e.round
		e.collSeen = map[string]*Alt{}
	}
	for _, a := range e.altsOf(s) {
		if strings.HasPrefix(a.nt, "ci"+e.ns+":") && a.nt == nt {
			continue
		}
		e.dbgCollapse(nt, a)
		id := nt + "\x00" + a.nt + "\x00" + a.alt.key
		if e.collSeen[id] == a.alt {
			continue
		}
		e.collSeen[id] = a.alt
		key := e.collapsedKey(a)
		e.addAlt(nt, key, e.collapseVal(a.alt.v, key, ""))
	}
}

// collapsedKey names an alternative of a collapsed nonterminal: its kind and
// the types of those children that are not plain operands, so that a
// comparison of a roll and a comparison of two numbers stay apart.
func (e *Engine) collapsedKey(a ntAlt) string {
	key := a.alt.key
	if strings.Contains(key, "<<") {
		return key
	}
	var sig []string
	var walk func(v AVal)
	walk = func(v AVal) {
		switch x := v.(type) {
		case *AObj:
			for _, f := range x.F {
				walk(f)
			}
		case *AStruct:
			for _, f := range x.F {
				walk(f)
			}
		case *AShape:
			var t types.Type
			for _, c := range e.altsOf(x.s) {
				ct := e.altType(c.alt)
				if ct == nil || t != nil && !types.Identical(t, ct) {
					return
				}
				t = ct
			}
			if t != nil && e.listNode(t) {
				sig = append(sig, shortType(t))
			}
		}
	}
	walk(a.alt.v)
	if len(sig) == 0 {
		return key
	}
	return key + "<<" + strings.Join(sig, " ") + ">>"
}

// listNode recognises nodes that are neither operators nor leaves.
func (e *Engine) listNode(t types.Type) bool {
	if types.NewMethodSet(t).Lookup(nil, "Operator") != nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface:
			return true
		}
	}
	return false
}

func (e *Engine) collapseVal(v AVal, key, path string) AVal {
	switch x := v.(type) {
	case *AShape:
		nt := "ci" + e.ns + ":" + e.collGroup + ":" + key + path
		for n := range x.s.m {
			if strings.HasPrefix(n, "ci"+e.ns+":") {
				return v
			}
		}
		e.collapse(x.s, nt)
		return &AShape{s: shapeOf(nt)}
	case *AObj:
		n := &AObj{T: x.T}
		for i, f := range x.F {
			n.F = append(n.F, e.collapseVal(f, key, fmt.Sprintf("%s.%d", path, i)))
		}
		return n
	case *AStruct:
		n := &AStruct{T: x.T}
		for i, f := range x.F {
			n.F = append(n.F, e.collapseVal(f, key, fmt.Sprintf("%s.%d", path, i)))
		}
		return n
	case *AIface:
		return &AIface{x.T, e.collapseVal(x.V, key, path)}
	case *ASlice:
		n := *x
		n.elems = nil
		for _, f := range x.elems {
			n.elems = append(n.elems, e.collapseVal(f, key, path+"[]"))
		}
		if x.elem != nil {
			n.elem = e.collapseVal(x.elem, key, path+"[]")
		}
		return &n
	}
	return v
}

// writers computes for every function whether it may store into memory it
// did not allocate itself: the parameters it stores through, or -1 for
// anything else.
func (e *Engine) writers(cg map[*ssa.Function][]*ssa.Function) map[*ssa.Function]map[int]bool {
	w := map[*ssa.Function]map[int]bool{}
	for f := range cg {
		w[f] = map[int]bool{}
	}
	mark := func(f *ssa.Function, v ssa.Value) bool {
		r := rootOf(f, v)
		if r == -2 || w[f][r] {
			return false
		}
		w[f][r] = true
		return true
	}
	for ch := true; ch; {
		ch = false
		for f := range cg {
			if _, stubbed := e.stubs[e.p.FuncName(f)]; stubbed {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if e.treeAddr(x.Addr) {
							ch = mark(f, x.Addr) || ch
						}
					case ssa.CallInstruction:
						cc := x.Common()
						args := cc.Args
						var gs []*ssa.Function
						if g := cc.StaticCallee(); g != nil {
							gs = append(gs, g)
						} else if cc.IsInvoke() {
							args = append([]ssa.Value{cc.Value}, args...)
							gs = e.implsOf(cc.Value.Type().Underlying().(*types.Interface), cc.Method)
						} else if _, ok := cc.Value.(*ssa.Builtin); !ok && !w[f][-1] && e.takesTree(cc.Signature()) {
							w[f][-1] = true
							ch = true
						}
						for _, g := range gs {
							for i := range w[g] {
								if i == -1 {
									if !w[f][-1] {
										w[f][-1] = true
										ch = true
									}
								} else if i < len(args) {
									ch = mark(f, args[i]) || ch
								}
							}
						}
					}
				}
			}
		}
	}
	return w
}

// rootOf is the parameter v is derived from, -2 for memory the function
// allocated, -1 otherwise.
func rootOf(f *ssa.Function, v ssa.Value) int {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return -2
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
				continue
			}
			return -1
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x {
					return i
				}
			}
			return -1
		default:
			return -1
		}
	}
}

// treeAddr reports whether an address lies inside a syntax tree.
func (e *Engine) treeAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if e.treeType(x.X.Type()) {
				return true
			}
			v = x.X
		case *ssa.IndexAddr:
			if s, ok := x.X.Type().Underlying().(*types.Slice); ok && e.treeType(s.Elem()) {
				return true
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return e.treeType(v.Type())
		}
	}
}

func (e *Engine) treeType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == e.p.Module+"/pkg/core/ast"
}

func (e *Engine) takesTree(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if e.treeType(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}
