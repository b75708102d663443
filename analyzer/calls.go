package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- recursion ----

// implsOf lists the repository methods an interface method may denote.
func (e *Engine) implsOf(iface *types.Interface, m *types.Func) []*ssa.Function {
	var out []*ssa.Function
	var paths []string
	for k := range e.p.SPkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := e.p.SPkgs[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(rt, iface) {
					if sel := e.p.SSA.MethodSets.MethodSet(rt).Lookup(m.Pkg(), m.Name()); sel != nil {
						if f := e.p.SSA.MethodValue(sel); f != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	return out
}

// callGraph maps every repository function to its possible callees.
func (e *Engine) callGraph() map[*ssa.Function][]*ssa.Function {
	cg := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range e.p.SortedFuncs() {
		work = append(work, f)
	}
	icache := map[string][]*ssa.Function{}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if _, ok := cg[f]; ok {
			continue
		}
		cg[f] = nil
		add := func(g *ssa.Function) {
			if g == nil || !e.p.IsRepoFunc(g) {
				return
			}
			cg[f] = append(cg[f], g)
			work = append(work, g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						it := cc.Value.Type().Underlying().(*types.Interface)
						k := cc.Value.Type().String() + "." + cc.Method.Name()
						if _, ok := icache[k]; !ok {
							icache[k] = e.implsOf(it, cc.Method)
						}
						for _, g := range icache[k] {
							add(g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	return cg
}

func sccs(cg map[*ssa.Function][]*ssa.Function) (rec map[*ssa.Function]bool, comp map[*ssa.Function]int) {
	rec, comp = map[*ssa.Function]bool{}, map[*ssa.Function]int{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, cn := 0, 0
	var fs []*ssa.Function
	for f := range cg {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range cg[f] {
			if g == f {
				rec[f] = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			cn++
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				comp[g] = cn
				if g == f {
					break
				}
			}
			if len(c) > 1 {
				for _, g := range c {
					rec[g] = true
				}
			}
		}
	}
	for _, f := range fs {
		if index[f] == 0 {
			visit(f)
		}
	}
	return
}

// cutPoints picks functions that lie on every recursive cycle.
func cutPoints(cg map[*ssa.Function][]*ssa.Function, rec map[*ssa.Function]bool) map[*ssa.Function]bool {
	cut := map[*ssa.Function]bool{}
	g := map[*ssa.Function][]*ssa.Function{}
	for f, cs := range cg {
		g[f] = cs
	}
	for {
		r, comp := sccs(g)
		if len(r) == 0 {
			return cut
		}
		deg := map[*ssa.Function][2]map[*ssa.Function]bool{}
		at := func(f *ssa.Function) [2]map[*ssa.Function]bool {
			d, ok := deg[f]
			if !ok {
				d = [2]map[*ssa.Function]bool{{}, {}}
				deg[f] = d
			}
			return d
		}
		for f, cs := range g {
			for _, h := range cs {
				if r[f] && r[h] && comp[f] == comp[h] {
					at(f)[1][h] = true
					at(h)[0][f] = true
				}
			}
		}
		var best *ssa.Function
		bd := -1
		for f := range r {
			d := at(f)
			n := len(d[0]) * len(d[1])
			if d[1][f] {
				n += 1000
			}
			if n > bd || n == bd && f.String() < best.String() {
				best, bd = f, n
			}
		}
		cut[best] = true
		n := map[*ssa.Function][]*ssa.Function{}
		for f, cs := range g {
			if f == best {
				continue
			}
			for _, h := range cs {
				if h != best {
					n[f] = append(n[f], h)
				}
			}
			if n[f] == nil {
				n[f] = []*ssa.Function{}
			}
		}
		g = n
	}
}

func (e *Engine) computeRecursion() {
	cg := e.callGraph()
	rec, _ := sccs(cg)
	e.rec = rec
	e.cut = cutPoints(cg, rec)
	e.readerFns = map[*ssa.Function]bool{}
	wr := e.writers(cg)
	for f := range cg {
		e.readerFns[f] = len(wr[f]) == 0
	}
	e.readerInv = map[string]bool{}
	e.recInv = map[string]bool{}
	for f := range cg {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					cc := ci.Common()
					k := cc.Value.Type().String() + "." + cc.Method.Name()
					if _, done := e.recInv[k]; done {
						continue
					}
					e.recInv[k] = false
					for _, g := range e.implsOf(cc.Value.Type().Underlying().(*types.Interface), cc.Method) {
						if e.rec[g] {
							e.recInv[k] = true
						}
						if _, had := e.readerInv[k]; !had {
							e.readerInv[k] = true
						}
						if !e.readerFns[g] {
							e.readerInv[k] = false
						}
					}
				}
			}
		}
	}
}

// ---- calls ----

func (e *Engine) doCall(fr *Frame, c *Cfg, x *ssa.Call, cc *ssa.CallCommon) []*Cfg {
	fnv := e.get(fr, c, cc.Value)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.get(fr, c, a))
	}
	outs := e.invoke(fr, c, cc, fnv, args, x)
	var cs []*Cfg
	for i, o := range outs {
		n := c
		if i < len(outs)-1 {
			n = c.withState(o.st)
		} else {
			n.st = o.st
		}
		switch x.Type().(type) {
		case *types.Tuple:
			n.env[x] = TupleV(o.ret)
		default:
			if len(o.ret) > 0 {
				n.env[x] = o.ret[0]
			}
		}
		cs = append(cs, n)
	}
	return cs
}

func (e *Engine) invoke(fr *Frame, c *Cfg, cc *ssa.CallCommon, fnv Value, args []Value, site ssa.Instruction) []Outcome {
	e.analysedSites[site] = true
	if cc.IsInvoke() {
		return e.invokeMethod(fr, c, c.st, cc.Value.Type(), cc.Method, fnv, args, site)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, c, b, cc, args, site)
	}
	switch f := c.st.resolve(fnv).(type) {
	case *FuncV:
		return e.callStatic(fr, c, c.st, f.fn, args, f.binds, site)
	case NilV:
		e.obl(false, "nil-deref", fr, site.Pos(), "call of a nil function", "the function value may be nil")
		return nil
	case *UnkV:
		return e.havocCall(c.st, cc.Signature(), "call:"+f.tag, nil)
	}
	undec("call of %T", fnv)
	return nil
}

// havocCall is a call of something unknown: any result, or an error.
func (e *Engine) havocCall(st *State, sig *types.Signature, name string, args []Value) []Outcome {
	rs := sig.Results()
	n := rs.Len()
	if n > 0 && isErrorType(rs.At(n-1).Type()) {
		st2 := st.clone()
		var r1, r2 []Value
		for i := 0; i < n-1; i++ {
			r1 = append(r1, e.havoc(rs.At(i).Type(), fmt.Sprintf("%s.%d", name, i), st))
			r2 = append(r2, e.havoc(rs.At(i).Type(), fmt.Sprintf("%s.%d", name, i), st2))
		}
		r1 = append(r1, NilV{})
		r2 = append(r2, &ErrV{class: "ext", site: name, msg: freshSym(KStr, "err")})
		return []Outcome{{st, r1}, {st2, r2}}
	}
	var r []Value
	for i := 0; i < n; i++ {
		r = append(r, e.havoc(rs.At(i).Type(), fmt.Sprintf("%s.%d", name, i), st))
	}
	return []Outcome{{st, r}}
}

func (e *Engine) invokeMethod(fr *Frame, c *Cfg, st *State, it types.Type, m *types.Func, recv Value, args []Value, site ssa.Instruction) []Outcome {
	recv = st.resolve(recv)
	ik := e.relType(it) + "." + m.Name()
	what := "call of " + ik
	switch r := recv.(type) {
	case NilV:
		e.obl(false, "nil-deref", fr, site.Pos(), what, "the receiver may be nil")
		return nil
	case *LazyV:
		if s, ok := e.istubs["lazy:"+ik]; ok {
			if outs := s(e, fr, st, append([]Value{recv}, args...), site); outs != nil {
				return outs
			}
		}
		if e.recInv[it.String()+"."+m.Name()] {
			e.obl(true, "nil-deref", fr, site.Pos(), what, "")
			if outs := e.partition(fr, st, it, m, r, args, site); outs != nil {
				return outs
			}
			return e.summaryInvoke(fr, c, st, it, m, recv, args, site)
		}
		var out []Outcome
		cfg := &Cfg{st: st, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}
		base, wm := st.clone(), terms.n
		for _, cc := range e.materialise(cfg, r) {
			out = append(out, e.invokeMethod(fr, c, cc.st, it, m, cc.st.resolve(recv), args, site)...)
		}
		rts := resultTypes(m.Type().(*types.Signature))
		e.keyBools = len(rts) == 1
		defer func() { e.keyBools = false }()
		return e.mergeOutcomes(base, wm, out, rts, fmt.Sprintf("%s/%s@%d", fr.ctx, m.Name(), site.Pos()))
	case *ErrV:
		if m.Name() == "Error" {
			msg := r.msg
			if msg == nil {
				msg = freshSym(KStr, "err")
			}
			return []Outcome{{st, []Value{msg}}}
		}
	case *UnkV:
		if s, ok := e.istubs[ik]; ok {
			return s(e, fr, st, append([]Value{recv}, args...), site)
		}
		st.event("ext-call", e.p.Pos(site.Pos()), tStr(ik))
		return e.havocCall(st, m.Type().(*types.Signature), r.tag+"."+m.Name(), args)
	}
	e.obl(true, "nil-deref", fr, site.Pos(), what, "")
	dt := e.dynTypeOf(st, recv)
	if dt == nil {
		undec("method call on %T", recv)
	}
	sel := e.p.SSA.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		undec("no method %s on %s", m.Name(), dt)
	}
	fn := e.p.SSA.MethodValue(sel)
	rv := recv
	if iv, ok := recv.(*IfaceV); ok {
		rv = iv.V
	}
	return e.callStatic(fr, c, st, fn, append([]Value{rv}, args...), nil, site)
}

func (e *Engine) relType(t types.Type) string {
	return strings.ReplaceAll(t.String(), e.p.Module+"/", "")
}

func (e *Engine) callStatic(fr *Frame, c *Cfg, st *State, fn *ssa.Function, args, binds []Value, site ssa.Instruction) []Outcome {
	name := e.p.FuncName(fn)
	if s, ok := e.stubs[name]; ok {
		if outs := s(e, fr, st, args, site); outs != nil {
			return outs
		}
	}
	if !e.p.IsRepoFunc(fn) {
		if m, ok := models[fn.String()]; ok {
			return m(e, fr, c, st, args, site, fn)
		}
		if v := mathCall(fn, args); v != nil {
			return []Outcome{{st, []Value{v}}}
		}
		st.event("ext-call", e.p.Pos(site.Pos()), tStr(fn.String()))
		return e.havocCall(st, fn.Signature, fn.String(), args)
	}
	if e.cut[fn] {
		for _, a := range args {
			if _, ok := st.resolve(a).(*LazyV); ok {
				return e.summaryCall(fr, c, st, fn, args, binds, site)
			}
		}
		f := &folder{e: e, st: st, busy: map[int]bool{}}
		for _, a := range args {
			if p, ok := st.resolve(a).(*PtrV); ok {
				if _, ok := f.unmodified(p); ok || e.readerFns[fn] && baseHeap[p.obj] == nil {
					return e.summaryCall(fr, c, st, fn, args, binds, site)
				}
			}
		}
	}
	return e.callFunc(fr, c, fn, args, binds, st, site)
}

// ---- builtins ----

func (e *Engine) builtin(fr *Frame, c *Cfg, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, site ssa.Instruction) []Outcome {
	st := c.st
	ret := func(v ...Value) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len":
		return ret(e.lenOf(st, st.resolve(args[0])))
	case "cap":
		n := e.lenOf(st, st.resolve(args[0]))
		cp := freshSym(KInt, "len:cap")
		st.facts.addLe(n, cp, 0)
		return ret(cp)
	case "append":
		return ret(e.appendTo(fr, st, args[0], args[1], cc.Args[0].Type()))
	case "copy":
		return ret(e.copyTo(fr, st, args[0], args[1]))
	case "print", "println":
		return ret()
	case "panic":
		e.obl(false, "explicit-panic", fr, site.Pos(), "panic", "an explicit panic is reachable")
		return nil
	case "recover":
		return ret(NilV{})
	case "ssa:wrapnilchk":
		if _, ok := st.resolve(args[0]).(NilV); ok {
			e.obl(false, "nil-deref", fr, site.Pos(), "method value through pointer", "the receiver may be nil")
			return nil
		}
		return ret(args[0])
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			o := *st.obj(m.obj)
			mc := o.V.(*MapC)
			n := &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, T: mc.T, closed: mc.closed}
			ks, known := constKey(args[1])
			if known {
				for a, b := range mc.keys {
					if a != ks {
						n.keys[a] = b
						n.kvals[a] = mc.kvals[a]
					}
				}
			} else {
				n.closed = false
			}
			o.V = n
			st.heap[m.obj] = &o
		}
		return ret()
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(*Term)
			bb, ok2 := args[1].(*Term)
			if ok1 && ok2 && a.kind == KInt {
				st2 := st.clone()
				var out []Outcome
				x, y := a, bb
				if b.Name() == "max" {
					x, y = bb, a
				}
				if st.facts.assume(tLt(a, bb), true) {
					out = append(out, Outcome{st, []Value{x}})
				}
				if st2.facts.assume(tLt(a, bb), false) {
					out = append(out, Outcome{st2, []Value{y}})
				}
				return out
			}
		}
	}
	sig, _ := cc.Value.Type().(*types.Signature)
	if sig != nil {
		return e.havocCall(st, sig, b.Name(), args)
	}
	undec("builtin %s", b.Name())
	return nil
}

func (e *Engine) seqOf(st *State, s *SliceV, t types.Type) *SeqV {
	if s.obj < 0 {
		return &SeqV{exact: true, ET: t.Underlying().(*types.Slice).Elem()}
	}
	q, ok := st.obj(s.obj).V.(*SeqV)
	if !ok {
		undec("slice backing %T", st.obj(s.obj).V)
	}
	return q
}

// view is the part of the sequence a slice covers, as a sequence from 0.
func (e *Engine) view(st *State, s *SliceV, t types.Type, ctx string) *SeqV {
	seq := e.seqOf(st, s, t)
	if seq.exact && s.lo.isConst() && s.n.isConst() {
		return &SeqV{exact: true, ET: seq.ET, elems: append([]Value(nil), seq.elems[s.lo.k:s.lo.k+s.n.k]...)}
	}
	f := &folder{e: e, st: st, stable: allStable, busy: map[int]bool{}, terms: st.facts.intTerms()}
	if !seq.exact && s.lo == tZero {
		u := e.unfocused(f, seq, ctx)
		return u
	}
	return &SeqV{ET: seq.ET, lo: f.seqElem(seq, s.lo, tAdd(s.lo, s.n), ctx), split: s.n, gen: e.contentOf(st, s), glen: s.n}
}

func (e *Engine) appendTo(fr *Frame, st *State, dst, src Value, t types.Type) Value {
	dst, src = st.resolve(dst), st.resolve(src)
	ctx := e.foldCtx(fr) + "/append"
	if b, ok := dst.(*BytesV); ok {
		switch s := src.(type) {
		case *Term:
			return &BytesV{tConcat(b.t, s)}
		case *BytesV:
			return &BytesV{tConcat(b.t, s.t)}
		}
		return &BytesV{freshSym(KStr, "append")}
	}
	if sb, ok := src.(*BytesV); ok {
		if _, isNil := dst.(NilV); isNil {
			return &BytesV{sb.t}
		}
	}
	if u, ok := dst.(*UnkV); ok {
		return u
	}
	if u, ok := src.(*UnkV); ok {
		src = e.havoc(t, u.tag, st)
	}
	a, ok1 := asSlice(dst)
	b, ok2 := asSlice(src)
	if !ok1 || !ok2 {
		undec("append of %T to %T", src, dst)
	}
	if b.n == tZero {
		return dst
	}
	va := e.view(st, a, t, ctx)
	vb := e.view(st, b, t, ctx)
	ga, gb := e.contentOf(st, a), e.contentOf(st, b)
	id := e.id()
	e.shares(id, a)
	et := t.Underlying().(*types.Slice).Elem()
	if va.exact && vb.exact {
		n := &SeqV{exact: true, ET: et, elems: append(append([]Value(nil), va.elems...), vb.elems...)}
		st.heap[id] = &Obj{T: t, V: n, site: "append"}
		return &SliceV{obj: id, lo: tZero, n: tInt(int64(len(n.elems)))}
	}
	f := &folder{e: e, st: st, stable: allStable, busy: map[int]bool{}, terms: st.facts.intTerms()}
	var el AVal
	if va.exact {
		el = f.seqElem(va, nil, nil, ctx)
	} else {
		el = f.seqElem(va, tZero, a.n, ctx)
	}
	var el2 AVal
	if vb.exact {
		el2 = f.seqElem(vb, nil, nil, ctx)
	} else {
		el2 = f.seqElem(vb, tZero, b.n, ctx)
	}
	el, _ = e.joinAVal(el, el2, ctx)
	n := tAdd(a.n, b.n)
	if len(linBases(n)) > 1 {
		m := freshSym(KInt, "len:append")
		lo, hi := st.facts.bounds2(b.n)
		st.facts.addLe(a.n, m, -lo)
		if hi < maxLen {
			st.facts.addLe(m, a.n, hi)
		}
		lo, hi = st.facts.bounds2(a.n)
		st.facts.addLe(b.n, m, -lo)
		if hi < maxLen {
			st.facts.addLe(m, b.n, hi)
		}
		n = m
	}
	st.facts.addLe(n, tZero, maxLen)
	st.heap[id] = &Obj{T: t, V: &SeqV{ET: et, lo: el, split: n, gen: tCat(ga, gb), glen: n}, site: "append"}
	return &SliceV{obj: id, lo: tZero, n: n}
}

func linBases(t *Term) []*Term {
	b, _, _ := linParts(t)
	return b
}

func (e *Engine) copyTo(fr *Frame, st *State, dst, src Value) Value {
	dst, src = st.resolve(dst), st.resolve(src)
	ctx := e.foldCtx(fr) + "/copy"
	if _, ok := dst.(*BytesV); ok {
		return freshSym(KInt, "len:copy")
	}
	a, ok1 := asSlice(dst)
	b, ok2 := asSlice(src)
	if !ok1 || !ok2 {
		undec("copy of %T to %T", src, dst)
	}
	if a.obj < 0 || b.obj < 0 {
		return tZero
	}
	t := st.obj(a.obj).T
	st.wroteTo(a.obj, "")
	sa := e.seqOf(st, a, t)
	vb := e.view(st, b, t, ctx)
	if sa.exact && vb.exact && a.lo.isConst() && a.n.isConst() {
		n := &SeqV{exact: true, ET: sa.ET, elems: append([]Value(nil), sa.elems...)}
		k := 0
		for ; k < len(vb.elems) && int64(k) < a.n.k; k++ {
			n.elems[int(a.lo.k)+k] = vb.elems[k]
		}
		o := *st.obj(a.obj)
		o.V = n
		st.heap[a.obj] = &o
		return tInt(int64(k))
	}
	e.summarise(st, a.obj, ctx)
	o := *st.obj(a.obj)
	sa = o.V.(*SeqV)
	f := &folder{e: e, st: st, stable: allStable, busy: map[int]bool{}, terms: st.facts.intTerms()}
	var el AVal
	if vb.exact {
		el = f.seqElem(vb, nil, nil, ctx)
	} else {
		el = f.seqElem(vb, tZero, b.n, ctx)
	}
	cnt := freshSym(KInt, "len:copied")
	st.facts.addLe(cnt, a.n, 0)
	st.facts.addLe(cnt, b.n, 0)
	full := st.facts.leq(a.n, b.n) // every element of dst is overwritten
	if full {
		cnt = a.n
	}
	sa = e.unfocused(f, sa, ctx)
	if full && a.lo == tZero {
		hi := sa.hi
		if e.coversAll(st, a, sa) {
			hi = nil
		}
		o.V = &SeqV{ET: sa.ET, lo: el, split: a.n, hi: hi, gen: e.contentOf(st, &SliceV{obj: b.obj, lo: b.lo, n: a.n}), glen: a.n}
	} else {
		lo, _ := e.joinAVal(sa.lo, el, ctx)
		hi, _ := e.joinAVal(sa.hi, el, ctx)
		o.V = &SeqV{ET: sa.ET, lo: lo, hi: hi, split: sa.split}
	}
	st.heap[a.obj] = &o
	return cnt
}

func (e *Engine) coversAll(st *State, a *SliceV, s *SeqV) bool { return false }

// ---- errors ----

// controls returns the branch blocks that b is directly control dependent on.
func (e *Engine) controls(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	if m, ok := e.cdeps[fn]; ok {
		return m
	}
	m := controlDeps(fn)
	e.cdeps[fn] = m
	return m
}

func controlDeps(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// post-dominator sets by iteration
	pd := make([]map[int]bool, n)
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = all
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			s := map[int]bool{}
			for k := range pd[b.Succs[0].Index] {
				in := true
				for _, t := range b.Succs[1:] {
					if !pd[t.Index][k] {
						in = false
					}
				}
				if in {
					s[k] = true
				}
			}
			s[i] = true
			if len(s) != len(pd[i]) {
				pd[i] = s
				ch = true
			}
		}
	}
	out := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		if len(b.Succs) < 2 {
			continue
		}
		for _, x := range fn.Blocks {
			dep := false
			for _, s := range b.Succs {
				if pd[s.Index][x.Index] {
					dep = true
				}
			}
			if dep && (!pd[b.Index][x.Index] || x == b) {
				out[x] = append(out[x], b)
			}
		}
	}
	return out
}

// errClass decides what an error created at site is about: the values
// involved ("user"), or only the kind of a node or operator ("kind").
func (e *Engine) errClass(fr *Frame, c *Cfg, site ssa.Instruction, args []Value) string {
	for _, a := range args {
		if cl := errIn(c.st, a); cl != "" {
			return cl
		}
	}
	fn := fr
	blk := site.Block()
	dec := c.dec
	env := c.env
	for fn != nil {
		cs := e.controls(fn.fn)[blk]
		var rel []*ssa.BasicBlock
		for _, b := range cs {
			if b != blk {
				rel = append(rel, b)
			}
		}
		if len(rel) > 0 {
			for _, b := range rel {
				if dec[b] {
					return "user"
				}
				if env != nil {
					if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if bo, ok := i.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
							for _, o := range []ssa.Value{bo.X, bo.Y} {
								if isErrorType(o.Type()) {
									if v, ok := env[o]; ok {
										if ev, ok := c.st.resolve(v).(*ErrV); ok {
											return ev.class
										}
									}
								}
							}
						}
					}
				}
			}
			return "kind"
		}
		if fn.site == nil {
			break
		}
		blk = fn.site.Block()
		dec = fn.siteDec
		env = nil
		fn = fn.parent
	}
	return "kind"
}

func errIn(st *State, v Value) string {
	switch x := st.resolve(v).(type) {
	case *ErrV:
		return x.class
	case *SliceV:
		if s, ok := st.obj(x.obj).V.(*SeqV); ok {
			for _, el := range s.elems {
				if c := errIn(st, el); c != "" {
					return c
				}
			}
		}
	case *IfaceV:
		return errIn(st, x.V)
	}
	return ""
}

// boolSet: which results a method may have on an alternative.
type boolSet struct {
	round  int
	vals   [2]bool
	others bool
}

// partition calls a method that only reads and returns a bool on a value
// that is one of several alternatives: for each result, the alternatives
// that may have it remain.
func (e *Engine) partition(fr *Frame, st *State, it types.Type, m *types.Func, l *LazyV, args []Value, site ssa.Instruction) []Outcome {
	sig := m.Type().(*types.Signature)
	if !e.mergeCalls || !e.readerInv[it.String()+"."+m.Name()] || len(args) != 0 || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
		return nil
	}
	b := st.binds[l.id]
	var sh [2]*Shape
	all := [2]bool{true, true}
	alts := e.altsOf(b.shape)
	for _, a := range alts {
		if _, ok := a.alt.v.(*ANil); ok {
			return nil
		}
		bs := e.boolAlt(fr, it, m, a, site)
		for i, v := range bs.vals {
			if !v {
				all[i] = false
				continue
			}
			s := shapeOf(a.nt, a.alt.key)
			if sh[i] == nil {
				sh[i] = s
			} else {
				sh[i] = sh[i].union(s)
			}
		}
	}
	out := []Outcome{}
	for i := range sh {
		if sh[i] == nil {
			continue
		}
		s := st
		if i == 0 && sh[1] != nil {
			s = st.clone()
		}
		if !all[i] {
			n := *b
			n.shape = sh[i]
			s.binds[l.id] = &n
		}
		out = append(out, Outcome{s, []Value{tBool(i == 1)}})
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Engine) boolAlt(fr *Frame, it types.Type, m *types.Func, a ntAlt, site ssa.Instruction) *boolSet {
	k := e.ns + "|" + it.String() + "." + m.Name() + "|" + a.nt + "|" + a.alt.key
	bs := e.boolAlts[k]
	if bs == nil {
		bs = &boolSet{round: -1}
		e.boolAlts[k] = bs
	}
	if bs.round == e.round {
		return bs
	}
	bs.round = e.round
	st := newState()
	lz := e.newLazy(st, shapeOf(a.nt, a.alt.key), "partition")
	c := &Cfg{st: st, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}
	for _, cc := range e.materialise(c, lz) {
		for _, o := range e.invokeMethod(&Frame{fn: fr.fn, ctx: "partition"}, cc, cc.st, it, m, cc.st.resolve(lz), nil, site) {
			t, _ := o.st.resolve(o.ret[0]).(*Term)
			for i := range bs.vals {
				if t != nil && t.isConst() && t.b != (i == 1) || bs.vals[i] {
					continue
				}
				bs.vals[i] = true
				e.changed = true
			}
		}
	}
	return bs
}

// mathCall is a call of a function of floating point numbers.
func mathCall(fn *ssa.Function, args []Value) Value {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "math" || fn.Signature.Results().Len() != 1 {
		return nil
	}
	if b := basicOf(fn.Signature.Results().At(0).Type()); b == nil || b.Info()&types.IsFloat == 0 {
		return nil
	}
	var ts []*Term
	for _, a := range args {
		f, ok := a.(*FloatV)
		if !ok {
			return nil
		}
		ts = append(ts, f.t)
	}
	return &FloatV{app(KOther, fn.String(), ts...)}
}
