package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pureLib = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bytes": true, "errors": true, "sort": true, "math": true, "math/bits": true, "regexp": true, "regexp/syntax": true, "slices": true, "cmp": true, "fmt": true, "sync": true, "reflect": true, "container/list": true, "io": true, "iter": true}

// ambient reports why a call outside the repository is not a function of its
// arguments ("" if it is; "?" if that is not known).
func ambient(x extCall) string {
	name := x.callee
	switch x.pkg {
	case "reflect":
		for _, bad := range []string{"Pointer", "UnsafeAddr", "UnsafePointer", "MapRange", "MapKeys"} {
			if strings.HasSuffix(name, "."+bad) {
				return "consults addresses or map order"
			}
		}
		return ""
	case "maps":
		return "depends on map iteration order"
	case "fmt":
		if strings.Contains(name, "fmt.Scan") || strings.Contains(name, "fmt.Fscan") {
			return "reads input"
		}
		return ""
	case "time", "os", "net", "net/http", "math/rand", "math/rand/v2", "crypto/rand", "runtime", "runtime/debug", "syscall", "hash/maphash", "os/user", "os/exec", "io/ioutil", "unsafe", "sync/atomic", "plugin", "context", "bufio", "path/filepath", "log", "embed", "io/fs", "os/signal", "testing":
		return "consults the environment"
	}
	if pureLib[x.pkg] {
		return ""
	}
	if strings.Contains(x.pkg, ".") {
		return "leaves the repository and the standard library"
	}
	return "?"
}

// addressInText: formatting a value of type t prints an address.
func addressInText(t types.Type, top bool, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Error", "String", "Format":
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !top {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return addressInText(u.Elem(), false, seen)
		}
		return true
	case *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addressInText(u.Field(i).Type(), false, seen) {
				return true
			}
		}
	case *types.Slice:
		return addressInText(u.Elem(), false, seen)
	case *types.Array:
		return addressInText(u.Elem(), false, seen)
	case *types.Map:
		return addressInText(u.Key(), false, seen) || addressInText(u.Elem(), false, seen)
	}
	return false
}

// variadicValues lists the values stored into the slice built for a
// variadic call.
func variadicValues(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// mutableGlobals lists the package-level variables of the repository that
// are stored to, or whose contents are changed, outside initialisation.
func (e *Engine) mutableGlobals() map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for _, f := range e.p.SortedFuncs() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Pkg == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, a := range written(in) {
					for _, g := range rootsOf(a).globals {
						out[g] = e.p.Pos(in.Pos())
					}
				}
			}
		}
	}
	return out
}

// written lists the addresses, maps and slices whose contents an instruction
// changes.
func written(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case *ssa.Send:
		return []ssa.Value{x.Chan}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "delete", "clear":
				return []ssa.Value{cc.Args[0]}
			case "append":
				return nil
			}
			return nil
		}
		if g := cc.StaticCallee(); g != nil {
			o := g.Object()
			if o != nil && o.Pkg() != nil {
				switch o.Pkg().Path() {
				case "sort", "slices":
					switch o.Name() {
					case "Strings", "Ints", "Float64s", "Slice", "SliceStable", "Sort", "Stable", "SortFunc", "SortStableFunc", "Reverse":
						return []ssa.Value{cc.Args[0]}
					}
				}
			}
		}
	}
	return nil
}

// roots says where the memory behind an address comes from.
type roots struct {
	globals []*ssa.Global
	fresh   bool
	fields  []fieldRoot // loaded from, or located in, these struct fields
	params  []*ssa.Parameter
	other   []ssa.Value
}

type fieldRoot struct {
	t    *types.Named
	name string
	base ssa.Value
}

// rootsOf traces the memory an address, slice or map denotes.
func rootsOf(v ssa.Value) *roots {
	r := &roots{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			r.globals = append(r.globals, x)
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeChan:
			r.fresh = true
		case *ssa.FieldAddr:
			if n, ok := deref(x.X.Type()).(*types.Named); ok {
				r.fields = append(r.fields, fieldRoot{n, n.Underlying().(*types.Struct).Field(x.Field).Name(), x.X})
			}
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// the memory that the loaded pointer, slice or map denotes
				if al, ok := x.X.(*ssa.Alloc); ok {
					r.fresh = true
					for _, q := range *al.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == al {
							walk(st.Val)
						}
					}
					return
				}
				walk(x.X)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Lookup:
			walk(x.X)
		case *ssa.Parameter:
			r.params = append(r.params, x)
		case *ssa.FreeVar:
			if b := captured(x); b != nil {
				walk(b)
			} else {
				r.other = append(r.other, x)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(x.Call.Args[0])
				return
			}
			r.other = append(r.other, x)
		default:
			r.other = append(r.other, v)
		}
	}
	walk(v)
	return r
}

// captured is the variable a closure's free variable stands for.
func captured(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// persistentTypes are the named struct types of the repository that can be
// reached from an engine instance.
func (e *Engine) persistentTypes() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var all []types.Type
	for _, k := range sortedKeys(e.p.SPkgs) {
		sp := e.p.SPkgs[k]
		for _, n := range sortedKeys(sp.Members) {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				all = append(all, t.Type())
			}
		}
	}
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.p.Module) {
				return
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				out[n] = true
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			if _, st := u.Elem().Underlying().(*types.Struct); !st {
				walk(u.Elem())
			}
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		case *types.Interface:
			if u.NumMethods() == 0 {
				return
			}
			for _, c := range all {
				if _, ok := c.Underlying().(*types.Interface); ok {
					continue
				}
				if types.Implements(c, u) || types.Implements(types.NewPointer(c), u) {
					walk(c)
				}
			}
		}
	}
	walk(e.p.NamedType("pkg/bcdice", "BCDice"))
	return out
}

// mapOrder: what the iteration order of a map may influence.
func mapOrder(rg *ssa.Range) string {
	var next *ssa.Next
	for _, q := range *rg.Referrers() {
		if n, ok := q.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	f := rg.Parent()
	used := false
	for _, q := range *next.Referrers() {
		if x, ok := q.(*ssa.Extract); ok && x.Index > 0 && len(*x.Referrers()) > 0 {
			used = true
		}
	}
	if !used {
		return ""
	}
	// the blocks of the loop
	loop := map[*ssa.BasicBlock]bool{}
	if l := naturalLoops(f).byHead[next.Block()]; l != nil {
		loop = l.body
	}
	if len(loop) == 0 {
		return "unrecognised loop"
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.UnOp, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Next, *ssa.Extract, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Lookup, *ssa.Slice, *ssa.Alloc, *ssa.DebugRef, *ssa.ChangeInterface:
			case *ssa.Store:
				// the array of a variadic argument, or an element of fresh memory
				r := rootsOf(x.Addr)
				if len(r.globals)+len(r.fields)+len(r.params)+len(r.other) > 0 {
					return "a store in iteration order"
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "len":
						continue
					case "append":
						if !sortedLater(x) {
							return "a list in iteration order that is not sorted"
						}
						continue
					}
				}
				if x.Call.IsInvoke() && x.Call.Method.Name() == "Clone" {
					continue
				}
				return "a call in iteration order"
			case *ssa.Return, *ssa.Panic:
				return "the first element found"
			default:
				return fmt.Sprintf("%T in iteration order", in)
			}
		}
	}
	return ""
}

// sortedLater: the list an append belongs to is sorted in the same function.
func sortedLater(c *ssa.Call) bool {
	flow := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	found := false
	walk = func(v ssa.Value) {
		if flow[v] || v.Referrers() == nil {
			return
		}
		flow[v] = true
		for _, q := range *v.Referrers() {
			switch x := q.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Store:
				if x.Val == v {
					walk(x.Addr)
				}
			case *ssa.UnOp:
				walk(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					walk(x)
				} else if len(written(x)) > 0 {
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
						found = true
					}
				}
			}
		}
	}
	walk(c)
	return found
}

func init() {
	checks["C08"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "effect analysis of every function that bcdice.ExecuteCommand can reach over the call graph (interface calls resolved to every implementation, function values to every function of the signature whose address is taken) without DieFeeder.Next: calls outside the repository, concurrency, iteration over maps, formatted addresses, reads of variables that change after initialisation and reads of fields of an engine instance that earlier commands may have changed"
		e := newEngine(p)
		next := "pkg/core/dice/feeder.DieFeeder.Next"
		rr := e.reach(map[string]bool{next: true}, e.method("pkg/bcdice", "BCDice", "ExecuteCommand"))
		for _, x := range rr.ext {
			what := p.FuncName(x.caller) + " calls " + x.callee
			switch why := ambient(x); why {
			case "":
				r.OK("ambient-call", what, p.Pos(x.site.Pos()), "a function of its arguments")
			case "?":
				r.Undecided("ambient-call", what+" is not a known library function")
			default:
				r.Fail("ambient-call", what, p.Pos(x.site.Pos()), "command execution "+why+": "+rr.path(x.caller))
			}
			if x.pkg == "fmt" && x.fn != nil && (strings.Contains(x.callee, "Sprint") || strings.Contains(x.callee, "Errorf") || strings.Contains(x.callee, "Fprint")) {
				cc := x.site.Common()
				for _, v := range variadicValues(cc.Args[len(cc.Args)-1]) {
					mi, ok := v.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					t := mi.X.Type()
					r.Check(!addressInText(t, true, map[types.Type]bool{}), "formatted-address", fmt.Sprintf("%s formats %s", p.FuncName(x.caller), shortType(t)), p.Pos(x.site.Pos()), "no address becomes part of a text")
				}
				if len(cc.Args) >= 2 {
					if c, ok := cc.Args[len(cc.Args)-2].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						r.Check(!strings.Contains(constant.StringVal(c.Value), "%p"), "formatted-address", p.FuncName(x.caller)+" format", p.Pos(x.site.Pos()), "no address becomes part of a text")
					}
				}
			}
		}
		mut := e.mutableGlobals()
		sites := 0
		for _, f := range rr.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					sites++
					what := p.FuncName(f)
					switch x := in.(type) {
					case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
						r.Fail("concurrency", what, p.Pos(in.Pos()), "command execution depends on scheduling: "+rr.path(f))
					case *ssa.UnOp:
						if x.Op == token.ARROW {
							r.Fail("concurrency", what, p.Pos(in.Pos()), "command execution receives from a channel: "+rr.path(f))
						}
						if x.Op == token.MUL {
							if g, ok := x.X.(*ssa.Global); ok {
								if at, m := mut[g]; m {
									r.Fail("mutable-global", what+" reads "+g.Name(), p.Pos(in.Pos()), "a package-level variable that is changed at "+at+" is read: "+rr.path(f))
								} else {
									r.OK("mutable-global", what+" reads "+g.Name(), p.Pos(in.Pos()), "never changed after initialisation")
								}
							}
						}
					case *ssa.Range:
						if _, ok := x.X.Type().Underlying().(*types.Map); ok {
							why := mapOrder(x)
							r.Check(why == "", "map-order", what, p.Pos(in.Pos()), "iteration over a map must not show its order "+why)
						}
					case *ssa.Convert:
						if bt, ok := x.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.UnsafePointer || bt.Kind() == types.Uintptr) {
							r.Fail("address-value", what, p.Pos(in.Pos()), "an address is used as a value: "+rr.path(f))
						}
					case *ssa.Call:
						if x.Call.IsInvoke() && strings.HasSuffix(e.relType(x.Call.Value.Type()), "dice/feeder.DieFeeder") {
							r.Check(x.Call.Method.Name() == "Next", "feeder-use", what+" calls "+x.Call.Method.Name(), p.Pos(in.Pos()), "the die feeder is only asked for dice")
						}
					case *ssa.TypeAssert:
						if strings.HasSuffix(e.relType(x.X.Type()), "dice/feeder.DieFeeder") {
							r.Fail("feeder-use", what+" inspects the feeder", p.Pos(in.Pos()), "the kind of the die feeder is inspected: "+rr.path(f))
						}
					}
				}
			}
		}
		e.history(r, rr)
		r.Analysed["functions reachable"] = len(rr.order)
		r.Analysed["instructions"] = sites
		r.Analysed["library calls"] = len(rr.ext)
		r.Min("ambient-call", 50)
		r.Min("feeder-use", 1)
		if len(rr.order) < 200 {
			r.Undecided("call graph", fmt.Sprintf("only %d functions found", len(rr.order)))
		}
	}
	checks["C09"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "effect analysis: no function that bcdice.ExecuteCommand can reach (DieFeeder.Next apart) writes a package-level variable, or memory belonging to an engine instance, its game system, its roller or its feeder; abstract interpretation of ExecuteCommand: every return leaves the instance's fields as they were, and every execution gets an evaluator with an empty dice record"
		e := execEngine(p)
		next := "pkg/core/dice/feeder.DieFeeder.Next"
		rr := e.reach(map[string]bool{next: true}, e.method("pkg/bcdice", "BCDice", "ExecuteCommand"))
		pers := e.persistentTypes()
		for n := range pers {
			r.OK("persistent-type", e.relType(n), "", "part of an engine instance")
		}
		writes := 0
		for _, f := range rr.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, a := range written(in) {
						writes++
						rt := rootsOf(a)
						what := p.FuncName(f)
						for _, g := range rt.globals {
							r.Fail("global-write", what+" writes "+g.Name(), p.Pos(in.Pos()), "a package-level variable or what it holds is changed by command execution: "+rr.path(f))
						}
						for _, fl := range rt.fields {
							if !pers[fl.t] || freshBase(fl.base) {
								continue
							}
							r.Fail("instance-write", fmt.Sprintf("%s writes %s.%s", what, fl.t.Obj().Name(), fl.name), p.Pos(in.Pos()), "memory of an engine instance is changed by command execution: "+rr.path(f))
						}
						for _, pa := range rt.params {
							if n, ok := deref(pa.Type()).(*types.Named); ok && pers[n] && len(rt.fields) == 0 {
								r.Fail("instance-write", what+" writes "+n.Obj().Name(), p.Pos(in.Pos()), "memory of an engine instance is changed by command execution: "+rr.path(f))
							}
						}
					}
				}
			}
		}
		r.OK("instance-write", "all reachable writes", "", fmt.Sprintf("%d writes in %d functions", writes, len(rr.order)))
		r.Analysed["functions reachable"] = len(rr.order)
		r.Analysed["writes"] = writes
		if len(rr.order) < 200 {
			r.Undecided("call graph", fmt.Sprintf("only %d functions found", len(rr.order)))
		}
		r.Try("pipeline", func() { e.pipelineEffects(r) })
	}
}

// history reports the fields of an engine instance, its roller, its feeder or
// its game system that command execution both changes and consults: what a
// command does then depends on the commands before it.
func (e *Engine) history(r *Report, rr *reachable) {
	type field struct {
		t    *types.Named
		name string
	}
	pers := e.persistentTypes()
	changed := map[field]string{}
	for _, f := range rr.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, a := range written(in) {
					for _, fl := range rootsOf(a).fields {
						if pers[fl.t] && !freshBase(fl.base) {
							changed[field{fl.t, fl.name}] = e.p.Pos(in.Pos())
						}
					}
				}
			}
		}
	}
	// counts: a value that is only used to be stored back
	var counts func(v ssa.Value, to ssa.Value, depth int) bool
	counts = func(v, to ssa.Value, depth int) bool {
		for _, q := range *v.Referrers() {
			switch x := q.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if depth > 4 || !counts(x, to, depth+1) {
					return false
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || x.Val != v || fa.Field != to.(*ssa.FieldAddr).Field || !types.Identical(fa.X.Type(), to.(*ssa.FieldAddr).X.Type()) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	reads := 0
	for _, f := range rr.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := deref(fa.X.Type()).(*types.Named)
				if !ok || !pers[n] {
					continue
				}
				reads++
				name := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				what := fmt.Sprintf("%s reads %s.%s", e.p.FuncName(f), n.Obj().Name(), name)
				at, ok := changed[field{n, name}]
				r.Check(!ok || counts(ld, fa, 0), "history", what, e.p.Pos(in.Pos()), "what is read of an engine instance is not changed by commands ("+at+"): "+rr.path(f))
			}
		}
	}
	r.Min("history", 1)
}

// freshBase: the object written to was allocated in the same function.
func freshBase(v ssa.Value) bool {
	r := rootsOf(v)
	return r.fresh && len(r.globals)+len(r.fields)+len(r.params)+len(r.other) == 0
}

// pipelineEffects compares an engine instance before and after a command.
func (e *Engine) pipelineEffects(r *Report) {
	ec := e.method("pkg/bcdice", "BCDice", "ExecuteCommand")
	pos := e.p.Pos(ec.Pos())
	for _, any := range []bool{false, true} {
		e.pipelineScope(any, func(o Outcome, b Value, in *Term) {
			what := "ExecuteCommand"
			if any {
				what += " with any game system"
			}
			after := o.st.load(b.(*PtrV)).(*StructV)
			before := e.beforeB.(*StructV)
			same := true
			for i := range after.F {
				if after.F[i] != before.F[i] && fmt.Sprint(after.F[i]) != fmt.Sprint(before.F[i]) {
					same = false
					r.Fail("instance-unchanged", what+": "+after.T.Underlying().(*types.Struct).Field(i).Name(), pos, "a field of the engine instance differs after a command")
				}
			}
			if same {
				r.OK("instance-unchanged", what, pos, "every field of the engine instance is as before")
			}
			for _, ev := range o.st.eventList() {
				switch ev.Kind {
				case "global-store":
					r.Fail("global-write", what, ev.Pos, "package-level data is changed by command execution")
				case "record-empty":
					r.OK("record-empty", what, ev.Pos, "the evaluator handed on has an empty dice record")
				case "record-used":
					r.Fail("record-empty", what, ev.Pos, "the evaluator handed on may already have recorded dice")
				}
			}
		})
	}
	r.Min("record-empty", 1)
}
