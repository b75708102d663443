package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary is what a recursive function does for all arguments of a shape.
type Summary struct {
	id    int
	key   string
	outs  map[string]*sumOut
	round int
	busy  bool
}

type sumOut struct {
	key  string
	ret  []AVal
	post []AVal // per formal lazy value
	objs []AVal // per reachable object; nil: unchanged
	evs  map[string]bool
}

type AArgP struct {
	i    int
	path string
}
type ALz struct{ i int }
type ASlArg struct {
	i      int
	lo, n  AVal
	mayNil bool
}
type AMapArg struct{ i int }

// gen abstracts the arguments of a call into a template.
type gen struct {
	e       *Engine
	st      *State
	f       *folder
	objs    []int
	idx     map[int]int
	content []AVal
	lazies  []int // ids of lazy values; -id for materialised objects
	lidx    map[int]int
	shapes  []*Shape
	reader  bool
	ctx     string
}

func (g *gen) val(v Value, t types.Type) AVal {
	v = g.st.resolve(v)
	switch x := v.(type) {
	case *LazyV:
		if i, ok := g.lidx[x.id]; ok {
			return &ALz{i}
		}
		i := len(g.lazies)
		g.lazies = append(g.lazies, x.id)
		g.lidx[x.id] = i
		g.shapes = append(g.shapes, g.e.flatten(g.st.binds[x.id].shape))
		return &ALz{i}
	case *Term:
		return g.f.scalar(x)
	case NilV:
		return &ANil{}
	case *PtrV:
		if _, ok := baseHeap[x.obj]; ok {
			return &AConstPtr{x}
		}
		if i, ok := g.lidx[-x.obj]; ok {
			return &ALz{i}
		}
		if _, known := g.idx[x.obj]; !known {
			if sh, ok := g.f.unmodified(x); ok {
				i := len(g.lazies)
				g.lazies = append(g.lazies, -x.obj)
				g.lidx[-x.obj] = i
				g.shapes = append(g.shapes, g.e.flatten(sh))
				return &ALz{i}
			}
		}
		if g.reader && x.path == "" {
			if sh, ok := g.f.fold(x, nil, g.ctx).(*AShape); ok {
				i := len(g.lazies)
				g.lazies = append(g.lazies, -x.obj)
				g.lidx[-x.obj] = i
				g.shapes = append(g.shapes, sh.s)
				return &ALz{i}
			}
		}
		return &AArgP{g.obj(x.obj), x.path}
	case *IfaceV:
		return &AIface{x.T, g.val(x.V, x.T)}
	case *StructV:
		s := &AStruct{T: x.T}
		for i, f := range x.F {
			s.F = append(s.F, g.val(f, x.T.Underlying().(*types.Struct).Field(i).Type()))
		}
		return s
	case *SliceV:
		i := g.obj(x.obj)
		lo, n := g.f.scalar(x.lo), g.f.scalar(x.n)
		if sl, ok := g.content[i].(*ASlice); !ok || !sl.exact {
			// how many elements there are does not distinguish contexts
			n = &AScalar{kind: KInt}
			if !x.lo.isConst() || x.lo.k != 0 {
				lo = &AScalar{kind: KInt}
			}
		}
		return &ASlArg{i, lo, n, x.mayNil}
	case *MapV:
		if _, ok := baseHeap[x.obj]; ok {
			return &AMapArg{-x.obj}
		}
		return &AMapArg{g.obj(x.obj)}
	case *BytesV:
		return &ABytes{g.f.scalar(x.t).(*AScalar)}
	case *ErrV:
		return &AErr{x}
	case *UnkV:
		return &AUnk{x}
	case *FuncV:
		if len(x.binds) == 0 {
			return &AFunc{x}
		}
	case *ExtV:
		return &AUnk{&UnkV{x.T, "ext"}}
	case *FloatV:
		return &AUnk{&UnkV{types.Typ[types.Float64], "float"}}
	}
	return &AAny{fmt.Sprintf("argument %T", v)}
}

func (g *gen) obj(id int) int {
	if i, ok := g.idx[id]; ok {
		return i
	}
	i := len(g.objs)
	g.objs = append(g.objs, id)
	g.idx[id] = i
	g.content = append(g.content, nil)
	o := g.st.obj(id)
	switch x := o.V.(type) {
	case *SeqV:
		if x.exact && len(x.elems) == 0 {
			g.content[i] = &ASlice{exact: true, ET: x.ET}
		} else {
			g.content[i] = &ASlice{elem: g.f.seqElem(x, nil, nil, "arg"), ET: x.ET}
		}
	case *MapC:
		s := &ASlice{exact: true}
		var ks []string
		for k := range x.keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s.elems = append(s.elems, g.val(x.keys[k], x.T.Elem()))
		}
		g.content[i] = s
	default:
		g.content[i] = g.val(o.V, o.T)
	}
	return i
}

func (e *Engine) genString(a AVal) string {
	switch x := a.(type) {
	case *AArgP:
		return fmt.Sprintf("obj%d.%s", x.i, x.path)
	case *ALz:
		return fmt.Sprintf("lz%d", x.i)
	case *ASlArg:
		return fmt.Sprintf("sl%d:%s:%s", x.i, e.genString(x.lo), e.genString(x.n))
	case *AMapArg:
		return fmt.Sprintf("map%d", x.i)
	case *AStruct:
		s := shortType(x.T) + "{"
		for _, f := range x.F {
			s += e.genString(f) + ","
		}
		return s + "}"
	case *ASlice:
		s := "["
		for _, f := range x.elems {
			s += e.genString(f) + ","
		}
		if x.elem != nil {
			s += "..." + e.avalString(x.elem)
		}
		return s + "]"
	case *AIface:
		return shortType(x.T) + "(" + e.genString(x.V) + ")"
	case *AScalar:
		// numeric bounds do not distinguish contexts
		if len(x.consts) == 1 && x.consts[0].isConst() {
			return x.consts[0].String()
		}
		return "?"
	}
	return e.avalString(a)
}

// inst builds the template in a fresh state.
type inst struct {
	e      *Engine
	st     *State
	ids    []int
	lazies []Value
}

func (n *inst) val(a AVal) Value {
	switch x := a.(type) {
	case *AArgP:
		return &PtrV{n.ids[x.i], x.path}
	case *ALz:
		return n.lazies[x.i]
	case *ASlArg:
		lo := n.e.instScalar(n.st, gscal(x.lo), "lo")
		ln := n.e.instScalar(n.st, gscal(x.n), "len:arg")
		n.st.facts.addLe(tZero, lo, 0)
		n.st.facts.addLe(tZero, ln, 0)
		return &SliceV{obj: n.ids[x.i], lo: lo, n: ln, mayNil: x.mayNil}
	case *AMapArg:
		if x.i < 0 {
			return &MapV{-x.i}
		}
		return &MapV{n.ids[x.i]}
	case *AStruct:
		s := &StructV{T: x.T}
		for _, f := range x.F {
			s.F = append(s.F, n.val(f))
		}
		return s
	case *AIface:
		return &IfaceV{x.T, n.val(x.V)}
	case *AScalar:
		return n.e.instScalar(n.st, gscal(x), "arg")
	}
	return n.e.instantiate(n.st, a, "arg", nil, nil)
}

// gscal keeps only constants: contexts differ in nothing else.
func gscal(a AVal) *AScalar {
	x := a.(*AScalar)
	if len(x.consts) == 1 && x.consts[0].isConst() {
		return x
	}
	return &AScalar{kind: x.kind}
}

func (e *Engine) summaryCall(fr *Frame, c *Cfg, st *State, fn *ssa.Function, args, binds []Value, site ssa.Instruction) []Outcome {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	return e.summarised(fr, c, st, e.p.FuncName(fn), e.readerFns[fn], basicResults(fn.Signature), args, binds, ts, site, func(nst *State, nargs, nbinds []Value) []Outcome {
		return e.callFunc(nil, nil, fn, nargs, nbinds, nst, nil)
	})
}

func (e *Engine) summaryInvoke(fr *Frame, c *Cfg, st *State, it types.Type, m *types.Func, recv Value, args []Value, site ssa.Instruction) []Outcome {
	all := append([]Value{recv}, args...)
	ts := []types.Type{it}
	sig := m.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return e.summarised(fr, c, st, "invoke "+e.relType(it)+"."+m.Name(), e.readerInv[it.String()+"."+m.Name()], basicResults(m.Type().(*types.Signature)), all, nil, ts, site, func(nst *State, nargs, _ []Value) []Outcome {
		var out []Outcome
		cfg := &Cfg{st: nst, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}
		for _, cc := range e.materialise(cfg, nargs[0]) {
			rv := cc.st.resolve(nargs[0])
			if _, ok := rv.(NilV); ok {
				e.obl(false, "nil-deref", fr, site.Pos(), "call of "+m.Name(), "the receiver may be nil")
				continue
			}
			nc := &Cfg{st: cc.st, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}
			out = append(out, e.invokeMethod(&Frame{fn: fr.fn, ctx: e.sumCtx}, nc, cc.st, it, m, rv, nargs[1:], site)...)
		}
		return out
	})
}

func (e *Engine) summarised(fr *Frame, c *Cfg, st *State, name string, reader, basic bool, args, binds []Value, ts []types.Type, site ssa.Instruction, run func(*State, []Value, []Value) []Outcome) []Outcome {
	g := &gen{e: e, st: st, f: &folder{e: e, st: st, busy: map[int]bool{}}, idx: map[int]int{}, lidx: map[int]int{}}
	g.reader, g.ctx = reader, "ciarg:"+name
	var tmpl, tb []AVal
	var key strings.Builder
	key.WriteString(e.ns + name + "(")
	for i, a := range args {
		tmpl = append(tmpl, g.val(a, ts[i]))
	}
	for _, b := range binds {
		tb = append(tb, g.val(b, types.Typ[types.Invalid]))
	}
	for _, a := range append(append([]AVal(nil), tmpl...), tb...) {
		key.WriteString(e.genString(a) + "; ")
	}
	for i, cn := range g.content {
		fmt.Fprintf(&key, "o%d=%s; ", i, e.genString(cn))
	}
	if reader {
		og := e.collGroup
		e.collGroup = name
		for i, s := range g.shapes {
			nt := fmt.Sprintf("ci%s:%s#%d", e.ns, name, i)
			e.collapse(s, nt)
			if basic {
				g.shapes[i] = shapeOf(nt)
				continue
			}
			ks := map[string]bool{}
			for _, a := range e.altsOf(s) {
				ks[e.collapsedKey(a)] = true
			}
			g.shapes[i] = shapeOf(nt, sortedKeys(ks)...)
		}
		e.collGroup = og
	}
	for i, s := range g.shapes {
		fmt.Fprintf(&key, "l%d=%s; ", i, s)
	}
	k := key.String()
	s := e.sums[k]
	if s == nil {
		s = &Summary{id: len(e.sums) + 1, key: k, outs: map[string]*sumOut{}, round: -1}
		e.sums[k] = s
		e.changed = true
	}
	if !s.busy && s.round != e.round {
		s.busy = true
		s.round = e.round
		old := e.sumKey
		e.sumKey = fmt.Sprintf("summary %d of %s", s.id, name)
		oldc := e.sumCtx
		e.sumCtx = fmt.Sprintf("S%d", s.id)
		e.runSummary(s, g, tmpl, tb, name, reader, run)
		e.sumKey = old
		e.sumCtx = oldc
		s.busy = false
	}
	// apply
	var out []Outcome
	var keys []string
	for kk := range s.outs {
		keys = append(keys, kk)
	}
	sort.Strings(keys)
	for i, kk := range keys {
		o := s.outs[kk]
		ns := st
		if i < len(keys)-1 {
			ns = st.clone()
		}
		out = append(out, Outcome{ns, nil})
		_ = o
	}
	for i, kk := range keys {
		o := s.outs[kk]
		ns := out[i].st
		ap := &inst{e: e, st: ns, ids: g.objs}
		for _, id := range g.lazies {
			if id < 0 {
				ap.lazies = append(ap.lazies, &PtrV{obj: -id})
			} else {
				ap.lazies = append(ap.lazies, &LazyV{id})
			}
		}
		for li, p := range o.post {
			if p == nil {
				continue
			}
			sh, ok := p.(*AShape)
			if !ok {
				if any, ok := p.(*AAny); ok {
					undec("%s", any.why)
				}
				undec("argument became %T", p)
			}
			if id := -g.lazies[li]; id > 0 {
				if e.shapeWithin(sh.s, g.shapes[li]) {
					continue
				}
				alts := e.altsOf(sh.s)
				var body AVal
				for _, al := range alts {
					body, _ = e.joinAVal(body, al.alt.v, "post")
				}
				ao, ok := body.(*AObj)
				if !ok {
					undec("an argument object became %s", sh.s)
				}
				np := e.instantiate(ns, ao, "post", nil, nil).(*PtrV)
				ob := *ns.obj(id)
				ob.V = ns.obj(np.obj).V
				ob.origin = &Origin{shape: sh.s, content: ob.V}
				ns.heap[id] = &ob
				continue
			}
			b := *ns.binds[g.lazies[li]]
			if e.shapeWithin(sh.s, b.shape) {
				continue
			}
			b.shape = sh.s
			b.scope = nil
			ns.binds[g.lazies[li]] = &b
		}
		for oi, a := range o.objs {
			if a == nil {
				continue
			}
			ob := *ns.obj(g.objs[oi])
			ob.V = ap.content(a, ob.V)
			ns.heap[g.objs[oi]] = &ob
		}
		for _, ev := range sortedKeys(o.evs) {
			// by name: a draw comes before a snapshot unless it is a late one
			ns.event(ev, "")
		}
		var ret []Value
		old := e.scope
		e.scope = &tagScope{owner: fmt.Sprintf("S%d{%s}", s.id, kk), m: map[string]*Term{}}
		for _, r := range o.ret {
			ret = append(ret, ap.ret(r))
		}
		e.scope = old
		out[i].ret = ret
	}
	return out
}

func (n *inst) content(a AVal, old Value) Value {
	switch x := a.(type) {
	case *ASlice:
		if x.exact {
			s := &SeqV{exact: true, ET: x.ET}
			for _, el := range x.elems {
				s.elems = append(s.elems, n.ret(el))
			}
			return s
		}
		return &SeqV{ET: x.ET, hi: x.elem}
	}
	return n.ret(a)
}

func (n *inst) ret(a AVal) Value {
	switch x := a.(type) {
	case *AArgP:
		return &PtrV{n.ids[x.i], x.path}
	case *ALz:
		return n.lazies[x.i]
	case *AStruct:
		s := &StructV{T: x.T}
		for _, f := range x.F {
			s.F = append(s.F, n.ret(f))
		}
		return s
	case *ASlArg:
		lo := n.e.instScalar(n.st, x.lo.(*AScalar), "lo")
		ln := n.e.instScalar(n.st, x.n.(*AScalar), "len:ret")
		n.st.facts.addLe(tZero, lo, 0)
		n.st.facts.addLe(tZero, ln, 0)
		return &SliceV{obj: n.ids[x.i], lo: lo, n: ln, mayNil: x.mayNil}
	case *AMapArg:
		return &MapV{n.ids[x.i]}
	case *AIface:
		return &IfaceV{x.T, n.ret(x.V)}
	}
	return n.e.instantiate(n.st, a, "ret", nil, nil)
}

func (e *Engine) runSummary(s *Summary, g *gen, tmpl, tb []AVal, name string, reader bool, run func(*State, []Value, []Value) []Outcome) {
	ns := newState()
	in := &inst{e: e, st: ns}
	for _, sh := range g.shapes {
		in.lazies = append(in.lazies, e.newLazy(ns, sh, "arg"))
	}
	for _, id := range g.objs {
		nid := e.id()
		in.ids = append(in.ids, nid)
		ns.heap[nid] = &Obj{T: g.st.obj(id).T, site: "arg"}
	}
	initial := map[int]Value{}
	for i, cn := range g.content {
		o := *ns.heap[in.ids[i]]
		switch x := cn.(type) {
		case *ASlice:
			if mc, ok := g.st.obj(g.objs[i]).V.(*MapC); ok {
				n := &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, closed: mc.closed, T: mc.T}
				var ks []string
				for k := range mc.keys {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for j, k := range ks {
					n.keys[k] = in.val(x.elems[j])
					n.kvals[k] = mc.kvals[k]
				}
				o.V = n
			} else if x.exact {
				sq := &SeqV{exact: true, ET: x.ET}
				for _, el := range x.elems {
					sq.elems = append(sq.elems, in.val(el))
				}
				o.V = sq
			} else {
				o.V = &SeqV{ET: x.ET, hi: x.elem}
			}
		default:
			o.V = in.val(cn)
		}
		ns.heap[in.ids[i]] = &o
		initial[i] = o.V
	}
	var nargs, nb []Value
	for _, a := range tmpl {
		nargs = append(nargs, in.val(a))
	}
	for _, a := range tb {
		nb = append(nb, in.val(a))
	}
	back := map[int]int{}
	for i, id := range in.ids {
		back[id] = i
	}
	lback := map[int]int{}
	for i, l := range in.lazies {
		lback[l.(*LazyV).id] = i
	}
	outs := run(ns, nargs, nb)
	for _, o := range outs {
		rk := e.retKey(o.st, o.ret)
		ctx := fmt.Sprintf("S%d{%s}", s.id, rk)
		mk := func(withLazy bool) *folder {
			ff := &folder{e: e, st: o.st, busy: map[int]bool{}}
			ff.argp = func(p *PtrV) (AVal, bool) {
				if i, ok := back[p.obj]; ok {
					return &AArgP{i, p.path}, true
				}
				return nil, false
			}
			ff.argsl = func(x *SliceV) (AVal, bool) {
				if i, ok := back[x.obj]; ok {
					return &ASlArg{i, ff.scalar(x.lo), ff.scalar(x.n), x.mayNil}, true
				}
				return nil, false
			}
			if withLazy {
				ff.lazyArg = func(l *LazyV) (AVal, bool) {
					if i, ok := lback[l.id]; ok {
						return &ALz{i}, true
					}
					return nil, false
				}
				// an object a formal argument was resolved to
				inner := ff.argp
				ff.argp = func(p *PtrV) (AVal, bool) {
					if a, ok := inner(p); ok {
						return a, true
					}
					for id, i := range lback {
						if b := o.st.binds[id]; b != nil && b.val != nil {
							if q, ok := b.val.(*PtrV); ok && *q == *p {
								return &ALz{i}, true
							}
						}
					}
					return nil, false
				}
			}
			return ff
		}
		no := &sumOut{key: rk, evs: map[string]bool{}}
		for _, ev := range o.st.eventList() {
			no.evs[ev.Kind] = true
			if o.st.late {
				no.evs["late-draw"] = true
			}
		}
		fr := mk(true)
		fr.tagOwner = ctx
		for i, r := range o.ret {
			no.ret = append(no.ret, fr.fold(r, nil, fmt.Sprintf("%s.ret%d", ctx, i)))
		}
		fp := mk(false)
		for i, l := range in.lazies {
			if reader {
				no.post = append(no.post, nil)
				continue
			}
			no.post = append(no.post, fp.fold(l, nil, fmt.Sprintf("%s.post%d", ctx, i)))
		}
		for i, id := range in.ids {
			ob := o.st.obj(id)
			if ob.V == initial[i] || valueEq(ob.V, initial[i]) {
				no.objs = append(no.objs, nil)
				continue
			}
			octx := fmt.Sprintf("%s.obj%d", ctx, i)
			switch x := ob.V.(type) {
			case *SeqV:
				if x.exact {
					sl := &ASlice{exact: true, ET: x.ET}
					for _, el := range x.elems {
						sl.elems = append(sl.elems, fr.fold(el, x.ET, octx))
					}
					no.objs = append(no.objs, sl)
				} else {
					no.objs = append(no.objs, &ASlice{elem: fr.seqElem(x, nil, nil, octx), ET: x.ET, n: &AScalar{kind: KInt}})
				}
			case *MapC:
				no.objs = append(no.objs, &AAny{"a map argument is modified by " + name})
			default:
				no.objs = append(no.objs, fr.fold(ob.V, ob.T, octx))
			}
		}
		e.mergeOut(s, no)
	}
}

func (e *Engine) mergeOut(s *Summary, n *sumOut) {
	o := s.outs[n.key]
	if o == nil {
		s.outs[n.key] = n
		e.changed = true
		return
	}
	j := func(a, b []AVal, what string) []AVal {
		out := make([]AVal, len(a))
		for i := range a {
			if what == "objs" && (a[i] == nil) != (b[i] == nil) {
				// unchanged in one case: describe the unchanged content lazily as any
				if a[i] == nil {
					out[i] = b[i]
				} else {
					out[i] = a[i]
				}
				if out[i] != a[i] {
					e.changed = true
				}
				if !e.mergeableUnchanged(out[i]) {
					out[i] = &AAny{"an argument object is changed on some paths only in " + s.key}
				}
				continue
			}
			if a[i] == nil && b[i] == nil {
				continue
			}
			v, ch := e.joinAVal(a[i], b[i], fmt.Sprintf("S%d.%s%d", s.id, what, i))
			out[i] = v
			if ch {
				e.changed = true
				if e.trace {
					fmt.Printf("  change S%d %s %s%d: %s\n", s.id, n.key, what, i, e.avalString(v))
				}
			}
		}
		return out
	}
	o.ret = j(o.ret, n.ret, "ret")
	o.post = j(o.post, n.post, "post")
	o.objs = j(o.objs, n.objs, "objs")
	for k := range n.evs {
		if !o.evs[k] {
			o.evs[k] = true
			e.changed = true
		}
	}
}

func (e *Engine) mergeableUnchanged(a AVal) bool { return true }

// retKey classifies a result: outcomes with equal keys are merged.
func (e *Engine) retKey(st *State, ret []Value) string {
	var ks []string
	for _, r := range ret {
		r = st.resolve(r)
		switch x := r.(type) {
		case *Term:
			if x.isConst() && x.kind == KBool {
				ks = append(ks, x.String())
			} else {
				ks = append(ks, "_")
			}
		case NilV:
			ks = append(ks, "nil")
		case *PtrV:
			ks = append(ks, shortType(st.dynType(x)))
		case *ErrV:
			if x.class == "kind" {
				ks = append(ks, "err:kind:"+x.site)
			} else {
				ks = append(ks, "err:"+x.class)
			}
		case *IfaceV:
			k := shortType(x.T)
			if _, ok := x.V.(NilV); ok {
				k += "(nil)"
			}
			ks = append(ks, k)
		default:
			ks = append(ks, fmt.Sprintf("%T", r))
		}
	}
	return strings.Join(ks, ",")
}

// fixpoint repeats f until no summary or nonterminal grows; the obligations
// of the last round count.
func (e *Engine) fixpoint(f func()) {
	for i := 0; ; i++ {
		if i > 25 {
			undec("the summaries do not stabilise")
		}
		e.changed = false
		e.round++
		e.obls = map[string]*Obl{}
		f()
		if e.trace {
			fmt.Printf("round %d: %d summaries, %d nonterminals, changed %v, steps %d\n", e.round, len(e.sums), len(e.nts), e.changed, e.steps)
		}
		if e.trace {
			e.dumpSums()
		}
		if !e.changed {
			return
		}
	}
}
