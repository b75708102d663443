package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of grammar expressions: every rule becomes a nonterminal that
// describes the values its actions can build.

type gval struct {
	e      *Engine
	g      *Grammar
	names  map[*GX]string
	anyT   types.Type // interface{}
	listT  types.Type // []interface{}
	bytesT types.Type
	pkg    *ssa.Package
	run    map[string]*ssa.Function // action code by method name
	pre    map[string]map[string]bool
	preAt  map[*GX]map[string]bool
	stateT map[string]types.Type
	failed []string
}

// grammarValues builds the rule nonterminals; it returns the shape of the
// start rule.
func (e *Engine) grammarValues() *Shape {
	if e.startShape != nil {
		return e.startShape
	}
	g, err := extractGrammar(e.p)
	if err != nil {
		undec("%v", err)
	}
	v := &gval{e: e, g: g, names: map[*GX]string{}, run: map[string]*ssa.Function{}, stateT: map[string]types.Type{}}
	v.anyT = types.NewInterfaceType(nil, nil)
	v.listT = types.NewSlice(v.anyT)
	v.bytesT = types.NewSlice(types.Typ[types.Byte])
	v.pkg = e.p.SPkgs[e.p.Module+"/pkg/core/parser"]
	for f := range e.p.Funcs {
		if f.Pkg == v.pkg && f.Signature.Recv() != nil {
			v.run[f.Name()] = f
		}
	}
	for _, n := range g.Order {
		i := 0
		g.Rules[n].walk(func(x *GX) {
			v.names[x] = fmt.Sprintf("g:%s#%d", n, i)
			i++
		})
	}
	v.stateTypes()
	v.definiteState()
	oldObls, oldRound := e.obls, e.round
	e.fixpoint(func() {
		v.failed = nil
		for _, n := range g.Order {
			s := v.eval(g.Rules[n])
			e.include("rule:"+n, s)
		}
	})
	e.parserObls = e.obls
	e.obls, e.round = oldObls, oldRound+e.round
	e.startShape = shapeOf("rule:" + g.Order[0])
	e.grammar = g
	e.gv = v
	return e.startShape
}

// stateTypes finds the type stored under each constant state key.
func (v *gval) stateTypes() {
	for f := range v.e.p.Funcs {
		if f.Pkg != v.pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok {
					continue
				}
				if nt, ok := mu.Map.Type().(*types.Named); !ok || nt.Obj().Name() != "storeDict" {
					continue
				}
				t := mu.Value.Type()
				if mi, ok := mu.Value.(*ssa.MakeInterface); ok {
					t = mi.X.Type()
				}
				key := v.e.constVal(k).(*Term).s
				if old, ok := v.stateT[key]; ok && !types.Identical(old, t) {
					t = v.anyT
				}
				v.stateT[key] = t
			}
		}
	}
}

// definiteState computes which state keys are set whenever an expression is
// reached from the start rule.
func (v *gval) definiteState() {
	sets := map[*types.Func]map[string]bool{}
	setBy := func(f *types.Func) map[string]bool {
		if f == nil {
			return nil
		}
		if s, ok := sets[f]; ok {
			return s
		}
		s := map[string]bool{}
		sets[f] = s
		for _, name := range []string{f.Name(), strings.Replace(f.Name(), "callon", "on", 1)} {
			if sf := v.run[name]; sf != nil && len(sf.Blocks) == 1 {
				for _, in := range sf.Blocks[0].Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if k, ok := mu.Key.(*ssa.Const); ok {
							s[v.e.constVal(k).(*Term).s] = true
						}
					}
				}
			}
		}
		return s
	}
	post := map[string]map[string]bool{}
	v.pre = map[string]map[string]bool{v.g.Order[0]: {}}
	v.preAt = map[*GX]map[string]bool{}
	union := func(a, b map[string]bool) map[string]bool {
		o := map[string]bool{}
		for k := range a {
			o[k] = true
		}
		for k := range b {
			o[k] = true
		}
		return o
	}
	inter := func(a, b map[string]bool) map[string]bool {
		o := map[string]bool{}
		for k := range a {
			if b[k] {
				o[k] = true
			}
		}
		return o
	}
	changed := true
	// post: keys a rule sets on success (least: none)
	var after func(x *GX, in map[string]bool) map[string]bool
	after = func(x *GX, in map[string]bool) map[string]bool {
		v.preAt[x] = in
		switch x.Kind {
		case GSeq:
			cur := in
			for _, s := range x.Subs {
				cur = after(s, cur)
			}
			return cur
		case GChoice:
			var r map[string]bool
			for i, s := range x.Subs {
				a := after(s, in)
				if i == 0 {
					r = a
				} else {
					r = inter(r, a)
				}
			}
			return r
		case GAction, GLabel, GPlus:
			r := after(x.Subs[0], in)
			v.preAt[x] = r // the action runs after its expression
			return r
		case GStar, GOpt, GNot, GAnd:
			after(x.Subs[0], in)
			return in
		case GRef:
			old, ok := v.pre[x.Name]
			var n map[string]bool
			if !ok {
				n = union(in, nil)
			} else {
				n = inter(old, in)
			}
			if !ok || len(n) != len(old) {
				v.pre[x.Name] = n
				changed = true
			}
			return union(in, post[x.Name])
		case GState:
			return union(in, setBy(x.Run))
		}
		return in
	}
	// first the post sets
	for i := 0; i < 10; i++ {
		for _, n := range v.g.Order {
			post[n] = after(v.g.Rules[n], map[string]bool{})
		}
	}
	v.pre = map[string]map[string]bool{v.g.Order[0]: {}}
	v.preAt = map[*GX]map[string]bool{}
	for changed = true; changed; {
		changed = false
		for _, n := range v.g.Order {
			if in, ok := v.pre[n]; ok {
				after(v.g.Rules[n], in)
			}
		}
	}
}

func (v *gval) nilShape() *Shape { return v.e.nilShape().(*AShape).s }

func (v *gval) list(name string, a *ASlice) *Shape {
	key := "list"
	v.e.addAlt(name, key, &AIface{v.listT, a})
	return shapeOf(name, key)
}

func (v *gval) bytes(name string, texts []string) *Shape {
	if len(texts) == 0 {
		v.e.addAlt(name, "bytes", &AIface{v.bytesT, &ABytes{&AScalar{kind: KStr}}})
		return shapeOf(name)
	}
	for _, t := range texts {
		v.e.addAlt(name, fmt.Sprintf("%q", t), &AIface{v.bytesT, &ABytes{&AScalar{kind: KStr, consts: []*Term{tStr(t)}}}})
	}
	return shapeOf(name)
}

func (v *gval) eval(x *GX) *Shape {
	e := v.e
	name := v.names[x]
	switch x.Kind {
	case GRef:
		return shapeOf("rule:" + x.Name)
	case GLabel:
		return v.eval(x.Subs[0])
	case GChoice:
		var s *Shape
		for _, c := range x.Subs {
			cs := v.eval(c)
			if s == nil {
				s = cs
			} else {
				s = s.union(cs)
			}
		}
		return s
	case GSeq:
		a := &ASlice{exact: true, ET: v.anyT, n: constScalar(int64(len(x.Subs)))}
		for _, c := range x.Subs {
			a.elems = append(a.elems, &AShape{s: v.eval(c)})
		}
		return v.list(name, a)
	case GStar, GPlus:
		el := &AShape{s: v.eval(x.Subs[0])}
		n := &AScalar{kind: KInt, bounds: map[*Term]bnd{tZero: {hasDn: true, dn: 0, hasUp: true, up: maxLen}}}
		if x.Kind == GPlus {
			n.bounds[tZero] = bnd{hasDn: true, dn: -1, hasUp: true, up: maxLen}
		}
		return v.list(name, &ASlice{elem: el, n: n, ET: v.anyT, mayNil: x.Kind == GStar})
	case GOpt:
		return v.eval(x.Subs[0]).union(v.nilShape())
	case GNot, GAnd, GState, GPredCode:
		if x.Kind == GState {
			v.execute(x, nil)
		}
		for _, c := range x.Subs {
			v.eval(c)
		}
		return v.nilShape()
	case GLit:
		if !x.IgnoreCase {
			return v.bytes(name, []string{x.Name})
		}
		ts := []string{""}
		for _, r := range x.Name {
			var nt []string
			for _, t := range ts {
				nt = append(nt, t+strings.ToLower(string(r)))
				if strings.ToUpper(string(r)) != strings.ToLower(string(r)) {
					nt = append(nt, t+strings.ToUpper(string(r)))
				}
			}
			ts = nt
			if len(ts) > 8 {
				return v.bytes(name, nil)
			}
		}
		return v.bytes(name, ts)
	case GClass:
		if !x.Inverted && len(x.Classes) == 0 && len(x.Ranges) == 0 && len(x.Chars) <= 4 {
			var ts []string
			seen := map[string]bool{}
			for _, c := range x.Chars {
				for _, t := range []string{string(c), strings.ToUpper(string(c)), strings.ToLower(string(c))} {
					if t != string(c) && !x.IgnoreCase || seen[t] {
						continue
					}
					seen[t] = true
					ts = append(ts, t)
				}
			}
			return v.bytes(name, ts)
		}
		return v.bytes(name, nil)
	case GAny:
		return v.bytes(name, nil)
	case GAction:
		v.eval(x.Subs[0])
		labels := map[string]*Shape{}
		v.labels(x.Subs[0], labels)
		for _, o := range v.execute(x, labels) {
			if _, ok := o.st.resolve(o.ret[1]).(NilV); !ok {
				continue
			}
			f := &folder{e: e, st: o.st, busy: map[int]bool{}}
			a := f.fold(o.ret[0], v.anyT, name)
			sh, ok := a.(*AShape)
			if !ok {
				undec("the value of %s is %T %v", name, a, e.avalString(a))
			}
			e.include(name, sh.s)
		}
		e.nt(name)
		return shapeOf(name)
	}
	undec("grammar expression %s", x)
	return nil
}

// labels collects the labels visible to an action over x.
func (v *gval) labels(x *GX, out map[string]*Shape) {
	switch x.Kind {
	case GLabel:
		out[x.Name] = v.eval(x.Subs[0])
	case GSeq, GAction:
		for _, s := range x.Subs {
			v.labels(s, out)
		}
	}
}

// textSet is the set of bytes the text matched by x may contain (nil: any).
func (v *gval) digitsText(x *GX) bool {
	switch x.Kind {
	case GPlus, GStar, GOpt, GLabel, GAction:
		return v.digitsText(x.Subs[0])
	case GSeq, GChoice:
		for _, s := range x.Subs {
			if !v.digitsText(s) {
				return false
			}
		}
		return true
	case GNot, GAnd, GState:
		return true
	case GLit:
		return strings.Trim(x.Name, "0123456789") == ""
	case GClass:
		if x.Inverted || len(x.Classes) > 0 {
			return false
		}
		for _, c := range x.Chars {
			if c < '0' || c > '9' {
				return false
			}
		}
		for _, c := range x.Ranges {
			if c < '0' || c > '9' {
				return false
			}
		}
		return true
	}
	return false
}

// execute interprets the code of an action or state expression.
func (v *gval) execute(x *GX, labels map[string]*Shape) []Outcome {
	outs, _ := v.executeWith(newState(), x, func(st *State, l string) Value { return v.e.newLazy(st, labels[l], l) }, sortedKeys(labels))
	return outs
}

// executeWith interprets an action with given values of the labels; it
// returns the matched text, too.
func (v *gval) executeWith(st *State, x *GX, val func(st *State, l string) Value, labels []string) ([]Outcome, *Term) {
	e := v.e
	fn := v.run[x.Run.Name()]
	if fn == nil {
		undec("no code %s", x.Run.Name())
	}
	var text *Term
	pt := fn.Params[0].Type().(*types.Pointer).Elem()
	ps := e.zero(pt).(*StructV)
	pst := pt.Underlying().(*types.Struct)
	for i := 0; i < pst.NumFields(); i++ {
		fl := pst.Field(i)
		switch fl.Name() {
		case "vstack":
			m := &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, closed: true, T: types.NewMap(types.Typ[types.String], v.anyT)}
			for _, l := range labels {
				k := tStr(l)
				m.keys[k.String()] = val(st, l)
				m.kvals[k.String()] = k
			}
			mid, sid := e.id(), e.id()
			st.heap[mid] = &Obj{T: m.T, V: m, site: "labels"}
			st.heap[sid] = &Obj{T: fl.Type(), V: &SeqV{exact: true, elems: []Value{&MapV{mid}}, ET: m.T}, site: "vstack"}
			ps.F[i] = &SliceV{obj: sid, lo: tZero, n: tInt(1)}
		case "cur":
			cur := e.zero(fl.Type()).(*StructV)
			cs := fl.Type().Underlying().(*types.Struct)
			for j := 0; j < cs.NumFields(); j++ {
				switch cs.Field(j).Name() {
				case "text":
					t := freshSym(KStr, "text")
					text = t
					if len(x.Subs) > 0 && v.digitsText(x.Subs[0]) {
						st.facts.setBool(app(KBool, "digits", t), true)
					}
					cur.F[j] = &BytesV{t}
				case "state":
					m := &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, closed: true, T: types.NewMap(types.Typ[types.String], v.anyT)}
					for key, t := range v.stateT {
						k := tStr(key)
						if !v.preAt[x][key] {
							m.keys[k.String()] = NilV{}
						} else {
							m.keys[k.String()] = &IfaceV{t, e.havoc(t, "state:"+key, st)}
						}
						m.kvals[k.String()] = k
					}
					mid := e.id()
					st.heap[mid] = &Obj{T: cs.Field(j).Type(), V: m, site: "state"}
					cur.F[j] = &MapV{mid}
				}
			}
			ps.F[i] = cur
		}
	}
	pid := e.id()
	st.heap[pid] = &Obj{T: pt, V: ps, site: "parser"}
	old := e.sumKey
	e.sumKey = "grammar action " + x.Run.Name()
	outs := e.callFunc(nil, nil, fn, []Value{&PtrV{obj: pid}}, nil, st, nil)
	e.sumKey = old
	return outs, text
}
