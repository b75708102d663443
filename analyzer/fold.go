package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// ---- nonterminals ----

type ntAlt struct {
	nt  string
	alt *Alt
}

func (e *Engine) nt(name string) *NT {
	n := e.nts[name]
	if n == nil {
		n = &NT{name: name, alts: map[string]*Alt{}, incl: &Shape{m: map[string]map[string]bool{}}}
		e.nts[name] = n
	}
	return n
}

// altsOf lists the alternatives of a shape with the nonterminal that owns them.
func (e *Engine) altsOf(s *Shape) []ntAlt {
	var out []ntAlt
	seen := map[string]bool{}
	var walk func(s *Shape, filter map[string]bool)
	walk = func(s *Shape, filter map[string]bool) {
		var nts []string
		for nt := range s.m {
			nts = append(nts, nt)
		}
		sort.Strings(nts)
		for _, ntn := range nts {
			keys := s.m[ntn]
			n := e.nt(ntn)
			var ks []string
			for k := range n.alts {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if keys != nil && !keys[k] || filter != nil && !filter[k] {
					continue
				}
				id := ntn + "\x00" + k
				if seen[id] {
					continue
				}
				seen[id] = true
				out = append(out, ntAlt{ntn, n.alts[k]})
			}
			if len(n.incl.m) > 0 {
				vid := "incl\x00" + ntn + "\x00" + fmt.Sprint(sortedKeys(keys)) + "\x00" + fmt.Sprint(sortedKeys(filter))
				if seen[vid] {
					continue
				}
				seen[vid] = true
				f := filter
				if keys != nil {
					if f == nil {
						f = keys
					} else {
						nf := map[string]bool{}
						for k := range f {
							if keys[k] {
								nf[k] = true
							}
						}
						f = nf
					}
				}
				walk(n.incl, f)
			}
		}
	}
	walk(s, nil)
	return out
}

// flatten expands inclusions, so that equal sets have equal names.
func (e *Engine) flatten(s *Shape) *Shape {
	out := &Shape{m: map[string]map[string]bool{}}
	for _, a := range e.altsOf(s) {
		if out.m[a.nt] == nil {
			out.m[a.nt] = map[string]bool{}
		}
		out.m[a.nt][a.alt.key] = true
	}
	return out
}

func (e *Engine) mayBeNil(st *State, l *LazyV) bool {
	for _, a := range e.altsOf(st.binds[l.id].shape) {
		if _, ok := a.alt.v.(*ANil); ok {
			return true
		}
	}
	return false
}

func (e *Engine) altType(a *Alt) types.Type {
	switch v := a.v.(type) {
	case *AObj:
		return types.NewPointer(v.T)
	case *AIface:
		return v.T
	}
	return nil
}

// include adds shape s to nonterminal nt.
func (e *Engine) include(nt string, s *Shape) {
	n := e.nt(nt)
	x := &Shape{m: map[string]map[string]bool{}}
	for k, v := range s.m {
		if k == nt {
			continue
		}
		x.m[k] = v
	}
	if x.subset(n.incl) {
		return
	}
	n.incl = n.incl.union(x)
	e.changed = true
}

// addAlt joins an alternative into a nonterminal.
func (e *Engine) addAlt(nt, key string, v AVal) {
	n := e.nt(nt)
	old := n.alts[key]
	if old == nil {
		n.alts[key] = &Alt{key: key, v: v}
		e.changed = true
		return
	}
	j, ch := e.joinAVal(old.v, v, nt+"/"+key)
	if ch {
		old.v = j
		n.alts[key] = &Alt{key: key, v: j}
		e.changed = true
	}
}

// ---- joining abstract values ----

func (e *Engine) joinAVal(a, b AVal, ctx string) (AVal, bool) {
	if a == nil {
		return b, b != nil
	}
	if b == nil {
		return a, false
	}
	switch x := a.(type) {
	case *AScalar:
		if y, ok := b.(*AScalar); ok && x.kind == y.kind {
			return joinScalar(x, y)
		}
	case *AObj:
		if y, ok := b.(*AObj); ok && types.Identical(x.T, y.T) {
			f, ch := e.joinFields(x.F, y.F, ctx)
			if !ch {
				return a, false
			}
			return &AObj{x.T, f}, true
		}
	case *AStruct:
		if y, ok := b.(*AStruct); ok && types.Identical(x.T, y.T) {
			f, ch := e.joinFields(x.F, y.F, ctx)
			if !ch {
				return a, false
			}
			return &AStruct{x.T, f}, true
		}
	case *AIface:
		if y, ok := b.(*AIface); ok && types.Identical(x.T, y.T) {
			v, ch := e.joinAVal(x.V, y.V, ctx)
			if !ch {
				return a, false
			}
			return &AIface{x.T, v}, true
		}
	case *AShape:
		switch y := b.(type) {
		case *AShape:
			own := x.own
			if own != y.own && !y.s.subset(e.nilShape().(*AShape).s) {
				own = ""
			}
			root := x.root
			if root != y.root && !y.s.subset(e.nilShape().(*AShape).s) {
				root = ""
			}
			if y.s.subset(x.s) && own == x.own && root == x.root {
				return a, false
			}
			return &AShape{s: x.s.union(y.s), own: own, root: root}, true
		case *ANil:
			return e.joinAVal(a, e.nilShape(), ctx)
		}
	case *ANil:
		switch b.(type) {
		case *ANil:
			return a, false
		case *AShape:
			r, _ := e.joinAVal(b, e.nilShape(), ctx)
			return r, true
		}
	case *ASlice:
		if y, ok := b.(*ASlice); ok {
			return e.joinSlice(x, y, ctx)
		}
	case *ABytes:
		if y, ok := b.(*ABytes); ok {
			s, ch := joinScalar(x.s, y.s)
			if !ch {
				return a, false
			}
			return &ABytes{s.(*AScalar)}, true
		}
	case *AErr:
		if y, ok := b.(*AErr); ok {
			if y.e.class == x.e.class && y.e.site == x.e.site {
				return a, false
			}
			if x.e.class == "kind" || y.e.class != "kind" {
				return a, false
			}
			return b, true
		}
	case *AUnk:
		if _, ok := b.(*AUnk); ok {
			return a, false
		}
		return a, false
	case *AFunc:
		if y, ok := b.(*AFunc); ok && x.f.fn == y.f.fn {
			return a, false
		}
	case *AConstPtr:
		if y, ok := b.(*AConstPtr); ok && *x.p == *y.p {
			return a, false
		}
	case *AArgP:
		if y, ok := b.(*AArgP); ok && *x == *y {
			return a, false
		}
	case *ALz:
		if y, ok := b.(*ALz); ok && *x == *y {
			return a, false
		}
	case *ASlArg:
		if y, ok := b.(*ASlArg); ok && x.i == y.i {
			l, c1 := joinScalar(x.lo.(*AScalar), y.lo.(*AScalar))
			n, c2 := joinScalar(x.n.(*AScalar), y.n.(*AScalar))
			if !c1 && !c2 {
				return a, false
			}
			return &ASlArg{x.i, l, n, x.mayNil || y.mayNil}, true
		}
	case *AMapArg:
		if y, ok := b.(*AMapArg); ok && *x == *y {
			return a, false
		}
	case *AAny:
		return a, false
	}
	if _, ok := b.(*AUnk); ok {
		return b, true
	}
	return &AAny{fmt.Sprintf("join of %T and %T at %s", a, b, ctx)}, true
}

func (e *Engine) nilShape() AVal {
	n := e.nt("nil")
	if n.alts["nil"] == nil {
		n.alts["nil"] = &Alt{key: "nil", v: &ANil{}}
	}
	return &AShape{s: shapeOf("nil", "nil")}
}

func (e *Engine) joinFields(a, b []AVal, ctx string) ([]AVal, bool) {
	out := make([]AVal, len(a))
	ch := false
	for i := range a {
		v, c := e.joinAVal(a[i], b[i], fmt.Sprintf("%s.%d", ctx, i))
		out[i] = v
		ch = ch || c
	}
	return out, ch
}

func joinScalar(x, y *AScalar) (AVal, bool) {
	n := &AScalar{kind: x.kind, bounds: map[*Term]bnd{}, widen: x.widen}
	ch := false
	if x.consts != nil {
		if y.consts == nil {
			ch = true
		} else {
			n.consts = append(n.consts, x.consts...)
			for _, c := range y.consts {
				found := false
				for _, d := range n.consts {
					if c == d {
						found = true
					}
				}
				if !found {
					n.consts = append(n.consts, c)
					ch = true
				}
			}
			if len(n.consts) > 12 {
				n.consts = nil
			}
		}
	}
	for t, b := range x.bounds {
		o, ok := y.bounds[t]
		if !ok {
			ch = true
			continue
		}
		m := bnd{}
		if b.hasUp && o.hasUp {
			m.hasUp, m.up = true, b.up
			if o.up > b.up {
				ch = true
				m.up = o.up
				if x.widen > 3 {
					m.hasUp = false
				}
			}
		} else if b.hasUp {
			ch = true
		}
		if b.hasDn && o.hasDn {
			m.hasDn, m.dn = true, b.dn
			if o.dn > b.dn {
				ch = true
				m.dn = o.dn
				if x.widen > 3 {
					m.hasDn = false
				}
			}
		} else if b.hasDn {
			ch = true
		}
		if m.hasUp || m.hasDn {
			n.bounds[t] = m
		}
	}
	n.tag = x.tag
	if x.tag != "" && x.tag != y.tag {
		n.tag = ""
		ch = true
	}
	if !ch {
		return x, false
	}
	n.widen++
	return n, true
}

func (e *Engine) joinSlice(x, y *ASlice, ctx string) (AVal, bool) {
	if x.exact && y.exact && len(x.elems) == len(y.elems) {
		f, ch := e.joinFields(x.elems, y.elems, ctx)
		if !ch && (x.mayNil || !y.mayNil) {
			return x, false
		}
		return &ASlice{exact: true, elems: f, ET: x.ET, mayNil: x.mayNil || y.mayNil}, true
	}
	ax, ay := e.summSlice(x, ctx), e.summSlice(y, ctx)
	el, c1 := e.joinAVal(ax.elem, ay.elem, ctx+"[]")
	n, c2 := joinScalar(ax.n, ay.n)
	if !x.exact && !c1 && !c2 && (x.mayNil || !y.mayNil) {
		return x, false
	}
	return &ASlice{elem: el, n: n.(*AScalar), ET: x.ET, mayNil: x.mayNil || y.mayNil}, true
}

func (e *Engine) summSlice(x *ASlice, ctx string) *ASlice {
	if !x.exact {
		return x
	}
	var el AVal
	for _, v := range x.elems {
		el, _ = e.joinAVal(el, v, ctx+"[]")
	}
	n := int64(len(x.elems))
	return &ASlice{elem: el, n: constScalar(n), ET: x.ET, mayNil: x.mayNil}
}

func constScalar(n int64) *AScalar {
	return &AScalar{kind: KInt, consts: []*Term{tInt(n)}, bounds: map[*Term]bnd{tZero: {up: n, dn: -n, hasUp: true, hasDn: true}}}
}

// ---- folding values into abstract values ----

type folder struct {
	e      *Engine
	st     *State
	stable func(*Term) bool // terms that may be mentioned (nil: constants only)
	terms  []*Term          // stable terms for relational bounds
	busy   map[int]bool
	// folding a result: equal lengths are tagged
	tagOwner string
	tagTerms []*Term
	inElem   int
	lazyArg  func(l *LazyV) (AVal, bool)
	argp     func(p *PtrV) (AVal, bool)
	argsl    func(p *SliceV) (AVal, bool)
}

func (f *folder) scalar(t *Term) AVal {
	s := &AScalar{kind: t.kind, bounds: map[*Term]bnd{}}
	if t.isConst() || f.stable != nil && f.stable(t) {
		s.consts = []*Term{t}
	}
	if t.kind == KInt {
		add := func(r *Term) {
			var b bnd
			if u, ok := f.st.facts.upper(t, r); ok && u < math.MaxInt64/2 {
				b.up, b.hasUp = u, true
			}
			if u, ok := f.st.facts.upper(r, t); ok && u < math.MaxInt64/2 {
				b.dn, b.hasDn = u, true
			}
			if b.hasUp || b.hasDn {
				s.bounds[r] = b
			}
		}
		add(tZero)
		lo, hi := f.st.facts.bounds2(t)
		b := s.bounds[tZero]
		if hi < math.MaxInt64/2 && (!b.hasUp || hi < b.up) {
			b.up, b.hasUp = hi, true
		}
		if lo > math.MinInt64/2 && (!b.hasDn || -lo < b.dn) {
			b.dn, b.hasDn = -lo, true
		}
		if b.hasUp || b.hasDn {
			s.bounds[tZero] = b
		}
		for _, r := range f.terms {
			if r != t && r.kind == KInt {
				add(r)
			}
		}
	}
	if t.kind == KStr && !t.isConst() {
		// remember emptiness only
	}
	return s
}

// keyOf is the discriminator of an alternative: the type and the constant
// values of its named, boolean and string fields.
func keyOf(t types.Type, v AVal) string {
	var sb strings.Builder
	sb.WriteString(shortType(t))
	discr(&sb, v)
	return sb.String()
}

func discr(sb *strings.Builder, v AVal) {
	switch x := v.(type) {
	case *AObj:
		discrF(sb, x.T, x.F)
	case *AStruct:
		discrF(sb, x.T, x.F)
	case *ABytes:
		if len(x.s.consts) == 1 {
			sb.WriteString(":" + x.s.consts[0].String())
		}
	case *AIface:
		discr(sb, x.V)
	case *AErr:
		sb.WriteString(":" + x.e.class + ":" + x.e.site)
	case *ASlice:
		if x.exact {
			fmt.Fprintf(sb, "[%d]", len(x.elems))
			for _, el := range x.elems {
				discr(sb, el)
			}
		}
	}
}

func discrF(sb *strings.Builder, t types.Type, fs []AVal) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	sb.WriteString("{")
	for i, f := range fs {
		switch x := f.(type) {
		case *AScalar:
			if len(x.consts) == 1 && x.consts[0].isConst() {
				ft := st.Field(i).Type()
				_, named := ft.(*types.Named)
				if named || x.kind == KBool || x.kind == KStr {
					fmt.Fprintf(sb, "%s=%s ", st.Field(i).Name(), x.consts[0])
				}
			}
		case *AStruct:
			discr(sb, x)
		}
	}
	sb.WriteString("}")
}

// fold abstracts v of static type t; new alternatives go to nonterminals
// named after ctx.
func (f *folder) fold(v Value, t types.Type, ctx string) AVal {
	e := f.e
	if l, ok := v.(*LazyV); ok {
		if f.lazyArg != nil {
			if a, ok := f.lazyArg(l); ok {
				return a
			}
		}
		b := f.st.binds[l.id]
		if b == nil {
			undec("unbound lazy value at %s", ctx)
		}
		root := ""
		if b.scope != nil {
			root = b.scope.owner
		}
		if b.val == nil {
			return &AShape{s: b.shape, root: root}
		}
		if p, isP := f.st.resolve(b.val).(*PtrV); b.chosen != nil && f.lazySame(l) && !(isP && f.sized(p)) {
			return &AShape{s: b.chosen, root: root}
		}
		return f.fold(b.val, t, ctx)
	}
	switch x := v.(type) {
	case *Term:
		return f.scalar(x)
	case NilV:
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				return &ASlice{exact: true, ET: sl.Elem(), mayNil: true, n: constScalar(0)}
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				return &ANil{}
			}
			if _, ok := t.Underlying().(*types.Signature); ok {
				return &ANil{}
			}
		}
		return e.nilShape()
	case *PtrV:
		if f.argp != nil {
			if a, ok := f.argp(x); ok {
				return a
			}
		}
		if _, ok := baseHeap[x.obj]; ok {
			// package-level object: keep its identity
			key := fmt.Sprintf("global:%d:%s", x.obj, x.path)
			e.addAltQuiet("globals", key, &AConstPtr{x})
			return &AShape{s: shapeOf("globals", key)}
		}
		if s, ok := f.unmodified(x); ok && !f.sized(x) {
			return &AShape{s: s, root: f.st.obj(x.obj).origin.root}
		}
		if x.path != "" {
			return &AAny{"pointer into an object at " + ctx}
		}
		if f.busy[x.obj] {
			return &AAny{"cyclic structure at " + ctx}
		}
		o := f.st.obj(x.obj)
		var body AVal
		f.busy[x.obj] = true
		if sv, ok := o.V.(*StructV); ok {
			body = &AObj{o.T, f.fields(sv, ctx)}
		} else {
			body = &AAny{fmt.Sprintf("pointer to %s at %s", o.T, ctx)}
		}
		delete(f.busy, x.obj)
		if ao, ok := body.(*AObj); ok {
			key := keyOf(ao.T, ao)
			e.addAlt(ctx, key, ao)
			own := f.tagOwner
			if f.inElem > 0 {
				own = ""
			}
			return &AShape{s: shapeOf(ctx, key), own: own}
		}
		return body
	case *ElemV:
		return &AAny{"element pointer at " + ctx}
	case *IfaceV:
		a := &AIface{x.T, f.fold(x.V, x.T, ctx+":"+shortType(x.T))}
		key := shortType(x.T)
		var sb strings.Builder
		discr(&sb, a.V)
		key += sb.String()
		e.addAlt(ctx, key, a)
		return &AShape{s: shapeOf(ctx, key)}
	case *StructV:
		return &AStruct{x.T, f.fields(x, ctx)}
	case *SliceV:
		if f.argsl != nil {
			if a, ok := f.argsl(x); ok {
				return a
			}
		}
		return f.slice(x, ctx)
	case *BytesV:
		return &ABytes{f.scalar(x.t).(*AScalar)}
	case *ErrV:
		key := "err:" + x.class + ":" + x.site
		e.addAltQuiet("errors", key, &AErr{x})
		return &AShape{s: shapeOf("errors", key)}
	case *FuncV:
		if len(x.binds) == 0 {
			return &AFunc{x}
		}
		return &AAny{"closure at " + ctx}
	case *UnkV:
		key := "unk:" + shortType(x.T) + ":" + x.tag
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Interface, *types.Pointer:
				e.addAltQuiet("unknowns", key, &AUnk{x})
				return &AShape{s: shapeOf("unknowns", key)}
			}
		}
		return &AUnk{x}
	case *ExtV:
		return &AUnk{&UnkV{x.T, "ext"}}
	case *FloatV:
		return &AUnk{&UnkV{types.Typ[types.Float64], "float"}}
	}
	return &AAny{fmt.Sprintf("%T at %s", v, ctx)}
}

func (e *Engine) addAltQuiet(nt, key string, v AVal) {
	n := e.nt(nt)
	if n.alts[key] == nil {
		n.alts[key] = &Alt{key: key, v: v}
	}
}

func (f *folder) fields(s *StructV, ctx string) []AVal {
	st := s.T.Underlying().(*types.Struct)
	out := make([]AVal, len(s.F))
	for i, v := range s.F {
		out[i] = f.fold(v, st.Field(i).Type(), ctx+"."+st.Field(i).Name())
	}
	return out
}

func (f *folder) slice(x *SliceV, ctx string) AVal {
	o := f.st.obj(x.obj)
	seq, ok := o.V.(*SeqV)
	if !ok {
		return &AAny{"slice backing at " + ctx}
	}
	if seq.exact && x.lo.isConst() && x.n.isConst() && x.n.k <= 8 {
		a := &ASlice{exact: true, ET: seq.ET, mayNil: x.mayNil, n: constScalar(x.n.k)}
		f.inElem++
		defer func() { f.inElem-- }()
		for i := int64(0); i < x.n.k; i++ {
			a.elems = append(a.elems, f.fold(seq.elems[x.lo.k+i], seq.ET, ctx+fmt.Sprintf("[%d]", i)))
		}
		return a
	}
	el := f.seqElem(seq, x.lo, tAdd(x.lo, x.n), ctx)
	n := f.scalar(x.n).(*AScalar)
	n.tag = f.tagOf(x.n)
	return &ASlice{elem: el, n: n, ET: seq.ET, mayNil: x.mayNil}
}

// tagOf names the class of equal lengths t belongs to.
func (f *folder) tagOf(t *Term) string {
	if f.tagOwner == "" || f.inElem > 0 || t.isConst() {
		return ""
	}
	for i, r := range f.tagTerms {
		if r == t || f.st.facts.leq(r, t) && f.st.facts.leq(t, r) {
			return fmt.Sprintf("%s#%d", f.tagOwner, i)
		}
	}
	f.tagTerms = append(f.tagTerms, t)
	return fmt.Sprintf("%s#%d", f.tagOwner, len(f.tagTerms)-1)
}

// seqElem joins everything a sequence may hold between lo and end.
func (f *folder) seqElem(seq *SeqV, lo, end *Term, ctx string) AVal {
	var el AVal
	f.inElem++
	defer func() { f.inElem-- }()
	if seq.exact {
		for i, v := range seq.elems {
			if lo != nil && lo.isConst() && int64(i) < lo.k {
				continue
			}
			if end != nil && end.isConst() && int64(i) >= end.k {
				continue
			}
			el, _ = f.e.joinAVal(el, f.fold(v, seq.ET, ctx+"[]"), ctx)
		}
		return el
	}
	s := f.e.unfocused(f, seq, ctx)
	wantLo, wantHi := true, true
	sp := s.split
	if sp == nil {
		sp = tZero
	}
	if end != nil && f.st.facts.leq(end, sp) {
		wantHi = false
	}
	if lo != nil && f.st.facts.leq(sp, lo) {
		wantLo = false
	}
	if wantLo {
		el, _ = f.e.joinAVal(el, f.refold(s.lo, ctx), ctx)
	}
	if wantHi {
		el, _ = f.e.joinAVal(el, f.refold(s.hi, ctx), ctx)
	}
	return el
}

// refold drops terms that may not be mentioned any more.
func (f *folder) refold(a AVal, ctx string) AVal {
	switch x := a.(type) {
	case nil:
		return nil
	case *AScalar:
		n := &AScalar{kind: x.kind, bounds: map[*Term]bnd{}, widen: x.widen}
		keep := true
		for _, c := range x.consts {
			if !c.isConst() && (f.stable == nil || !f.stable(c)) {
				keep = false
			}
		}
		if keep {
			n.consts = x.consts
		} else if x.kind == KInt {
			// bounds of the dropped terms
			var lo, hi int64 = math.MaxInt64, math.MinInt64
			for _, c := range x.consts {
				l, h := f.st.facts.bounds2(c)
				if l < lo {
					lo = l
				}
				if h > hi {
					hi = h
				}
			}
			b := bnd{}
			if hi < math.MaxInt64/2 {
				b.up, b.hasUp = hi, true
			}
			if lo > math.MinInt64/2 {
				b.dn, b.hasDn = -lo, true
			}
			if b.hasUp || b.hasDn {
				n.bounds[tZero] = b
			}
		}
		for t, b := range x.bounds {
			if t == tZero {
				o := n.bounds[tZero]
				if b.hasUp && (!o.hasUp || b.up < o.up) {
					o.up, o.hasUp = b.up, true
				}
				if b.hasDn && (!o.hasDn || b.dn < o.dn) {
					o.dn, o.hasDn = b.dn, true
				}
				n.bounds[tZero] = o
				continue
			}
			if f.stable != nil && f.stable(t) {
				n.bounds[t] = b
				continue
			}
			// derive bounds against zero
			lo, hi := f.st.facts.bounds2(t)
			o := n.bounds[tZero]
			if b.hasUp && hi < math.MaxInt64/2 {
				u := satAdd(hi, b.up)
				if !o.hasUp || u < o.up {
					o.up, o.hasUp = u, true
				}
			}
			if b.hasDn && lo > math.MinInt64/2 {
				d := satAdd(-lo, b.dn)
				if !o.hasDn || d < o.dn {
					o.dn, o.hasDn = d, true
				}
			}
			if o.hasUp || o.hasDn {
				n.bounds[tZero] = o
			}
		}
		return n
	case *AStruct:
		n := &AStruct{T: x.T}
		for _, v := range x.F {
			n.F = append(n.F, f.refold(v, ctx))
		}
		return n
	case *ASlice:
		n := *x
		n.elem = f.refold(x.elem, ctx)
		if x.n != nil {
			n.n = f.refold(x.n, ctx).(*AScalar)
		}
		n.elems = nil
		for _, v := range x.elems {
			n.elems = append(n.elems, f.refold(v, ctx))
		}
		return &n
	case *ABytes:
		return &ABytes{f.refold(x.s, ctx).(*AScalar)}
	}
	return a
}

// sized: the object holds a list whose length may be tagged.
func (f *folder) sized(p *PtrV) bool {
	if f.tagOwner == "" || f.inElem > 0 || p.path != "" {
		return false
	}
	o := f.st.obj(p.obj)
	sv, ok := o.V.(*StructV)
	if !ok || f.e.treeType(o.T) {
		return false
	}
	for _, v := range sv.F {
		if s, ok := v.(*SliceV); ok && !s.n.isConst() {
			return true
		}
	}
	return false
}

// unmodified finds the shape an object was instantiated from if neither it
// nor anything below it was changed since.
func (f *folder) unmodified(p *PtrV) (*Shape, bool) {
	if p.path != "" {
		return nil, false
	}
	o := f.st.obj(p.obj)
	if o == nil || o.origin == nil {
		return nil, false
	}
	if !f.sameContent(o.V, o.origin.content) {
		return nil, false
	}
	return o.origin.shape, true
}

func (f *folder) sameContent(v, org Value) bool {
	switch x := org.(type) {
	case *StructV:
		y, ok := v.(*StructV)
		if !ok || len(y.F) != len(x.F) {
			return false
		}
		for i := range x.F {
			if !f.sameContent(y.F[i], x.F[i]) {
				return false
			}
		}
		return true
	case *LazyV:
		y, ok := v.(*LazyV)
		if !ok || x.id != y.id {
			return false
		}
		return f.lazySame(x)
	case *Term:
		return v == org
	case *PtrV:
		y, ok := v.(*PtrV)
		if !ok || *x != *y {
			return false
		}
		if _, base := baseHeap[x.obj]; base {
			return true
		}
		_, same := f.unmodified(x)
		return same
	case *SliceV:
		y, ok := v.(*SliceV)
		if !ok || x != y {
			return false
		}
		so := f.st.obj(x.obj)
		if so.origin == nil {
			return false
		}
		return f.sameSeq(so.V, so.origin.content)
	case *IfaceV:
		y, ok := v.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && f.sameContent(y.V, x.V)
	case NilV:
		_, ok := v.(NilV)
		return ok
	}
	return v == org
}

func (f *folder) sameSeq(v, org Value) bool {
	x, ok1 := v.(*SeqV)
	y, ok2 := org.(*SeqV)
	if !ok1 || !ok2 || x.exact != y.exact {
		return false
	}
	if x.exact {
		if len(x.elems) != len(y.elems) {
			return false
		}
		for i := range x.elems {
			if !f.sameContent(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	}
	if x.hi != y.hi {
		return false
	}
	if x.lo != nil {
		if !avalSubset(x.lo, y.hi) {
			return false
		}
	}
	if x.fidx != nil {
		el := f.fold(x.fval, x.ET, "probe")
		if !avalSubset(el, y.hi) {
			return false
		}
	}
	return true
}

func avalSubset(a, b AVal) bool {
	switch x := a.(type) {
	case *AShape:
		y, ok := b.(*AShape)
		return ok && x.s.subset(y.s)
	case *AScalar:
		y, ok := b.(*AScalar)
		if !ok {
			return false
		}
		_, ch := joinScalar(y, x)
		return !ch
	}
	return false
}

func (f *folder) lazySame(l *LazyV) bool {
	b := f.st.binds[l.id]
	if f.e.hasNilAlt(b.init) {
		// a value known not to be absent is more than what was handed in
		if b.val == nil {
			if !f.e.hasNilAlt(b.shape) {
				return false
			}
		} else if f.e.nilness(f.st, l) == "nonnil" {
			return false
		}
	}
	if b.val == nil {
		return f.e.shapeWithin(b.shape, b.init)
	}
	switch x := b.val.(type) {
	case *PtrV:
		if _, base := baseHeap[x.obj]; base {
			return true
		}
		s, ok := f.unmodified(x)
		return ok && f.e.shapeWithin(s, b.init)
	case NilV:
		return true
	case *IfaceV:
		if b.ivals == nil {
			return constScalarValue(x.V)
		}
		return f.sameContent(x.V, b.ivals)
	case *LazyV:
		return f.lazySame(x)
	case *ErrV, *UnkV:
		return true
	}
	return false
}

// hasNilAlt: the shape includes an absent value or the absent-value node.
func (e *Engine) hasNilAlt(s *Shape) bool {
	for _, a := range e.altsOf(s) {
		switch a.alt.v.(type) {
		case *ANil, *AConstPtr:
			return true
		}
	}
	return false
}

func constScalarValue(v Value) bool {
	_, ok := v.(*Term)
	return ok
}

func (e *Engine) shapeWithin(s, in *Shape) bool {
	if s.subset(in) {
		return true
	}
	return e.flatten(s).subset(e.flatten(in))
}

// ---- instantiating ----

// instantiate makes a value of an abstract value in st.
func (e *Engine) instantiate(st *State, a AVal, why string, org *Shape, args []Value) Value {
	switch x := a.(type) {
	case *AScalar:
		return e.instScalar(st, x, why)
	case *AObj:
		id := e.id()
		sv := &StructV{T: x.T}
		s := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			sv.F = append(sv.F, e.provField(s.Field(i).Name(), func() Value {
				return e.instantiate(st, f, why+"."+s.Field(i).Name(), nil, args)
			}))
		}
		o := &Obj{T: x.T, V: sv, site: why}
		if org != nil {
			o.origin = &Origin{shape: org, content: sv}
			if e.scope != nil {
				o.origin.root = e.scope.owner
			}
		}
		st.heap[id] = o
		return &PtrV{obj: id}
	case *AStruct:
		sv := &StructV{T: x.T}
		for i, f := range x.F {
			sv.F = append(sv.F, e.provField(x.T.Underlying().(*types.Struct).Field(i).Name(), func() Value {
				return e.instantiate(st, f, why, nil, args)
			}))
		}
		return sv
	case *ASlice:
		id := e.id()
		if x.exact {
			if len(x.elems) == 0 && x.mayNil {
				return NilV{}
			}
			seq := &SeqV{exact: true, ET: x.ET}
			for i, el := range x.elems {
				e.provField(fmt.Sprintf("[%d]", i), func() Value {
					seq.elems = append(seq.elems, e.instantiate(st, el, fmt.Sprintf("%s[%d]", why, i), nil, args))
					return nil
				})
			}
			st.heap[id] = &Obj{T: types.NewSlice(x.ET), V: seq, origin: &Origin{content: seq}, site: why}
			return &SliceV{obj: id, lo: tZero, n: tInt(int64(len(x.elems)))}
		}
		n := e.instScalar(st, x.n, "len:"+why)
		st.facts.addLe(tZero, n, 0)
		seq := &SeqV{ET: x.ET, hi: x.elem, gen: e.newGen(why, n), glen: n}
		e.provGen(seq.gen)
		st.heap[id] = &Obj{T: types.NewSlice(x.ET), V: seq, origin: &Origin{content: seq}, site: why}
		return &SliceV{obj: id, lo: tZero, n: n, mayNil: x.mayNil}
	case *AIface:
		return &IfaceV{x.T, e.instantiate(st, x.V, why, nil, args)}
	case *AShape:
		if alts := e.altsOf(x.s); len(alts) == 1 {
			switch y := alts[0].alt.v.(type) {
			case *ANil:
				return NilV{}
			case *AConstPtr:
				return y.p
			case *AErr:
				return y.e
			case *AUnk:
				return y.u
			}
		}
		l := e.newLazy(st, x.s, why)
		if sc := e.scope; sc != nil && x.own != "" && x.own == sc.owner {
			st.binds[l.id].scope = sc
		} else if x.root != "" {
			st.binds[l.id].scope = &tagScope{owner: x.root, m: map[string]*Term{}}
		}
		return l
	case *ANil:
		return NilV{}
	case *AConstPtr:
		return x.p
	case *ABytes:
		return &BytesV{e.instScalar(st, x.s, why)}
	case *AErr:
		return x.e
	case *AUnk:
		if n, ok := x.u.T.(*types.Named); ok && x.u.tag == "ext" {
			return &ExtV{T: n, text: freshSym(KStr, "ext")}
		}
		if b, ok := x.u.T.(*types.Basic); ok && b.Kind() == types.Float64 {
			return &FloatV{freshSym(KOther, "float")}
		}
		return x.u
	case *AFunc:
		return x.f
	case *AAny:
		undec("%s", x.why)
	}
	undec("cannot instantiate %T at %s", a, why)
	return nil
}

func (e *Engine) newLazy(st *State, s *Shape, why string) *LazyV {
	l := &LazyV{e.id()}
	st.binds[l.id] = &Bind{shape: s, init: s, why: why}
	if e.prov != nil {
		p := *e.prov
		e.provL[l.id] = &p
	}
	return l
}

func (e *Engine) instScalar(st *State, x *AScalar, why string) *Term {
	if len(x.consts) == 1 {
		if c := x.consts[0]; !e.seqMode || e.prov == nil || c.kind != KInt {
			return c
		}
	}
	var s *Term
	defer func() {
		if e.prov != nil && s != nil && e.provT[s] == nil {
			p := *e.prov
			e.provT[s] = &p
		}
	}()
	if sc := e.scope; sc != nil && x.tag != "" && strings.HasPrefix(x.tag, sc.owner+"#") {
		if s = sc.m[x.tag]; s == nil {
			s = freshSym(x.kind, why)
			sc.m[x.tag] = s
		}
	} else {
		s = freshSym(x.kind, why)
	}
	if len(x.consts) == 1 {
		st.facts.addLe(s, x.consts[0], 0)
		st.facts.addLe(x.consts[0], s, 0)
	}
	for t, b := range x.bounds {
		if b.hasUp {
			st.facts.addLe(s, t, b.up)
		}
		if b.hasDn {
			st.facts.addLe(t, s, b.dn)
		}
	}
	return s
}

// ---- sequences ----

// summarise turns an exact sequence into a summary.
func (e *Engine) summarise(st *State, obj int, ctx string) {
	o := *st.obj(obj)
	seq := o.V.(*SeqV)
	if !seq.exact {
		return
	}
	o.V = e.toSummary(st, seq, ctx, func(*Term) bool { return true })
	st.heap[obj] = &o
}

func (e *Engine) toSummary(st *State, seq *SeqV, ctx string, stable func(*Term) bool) *SeqV {
	if !seq.exact {
		return seq
	}
	f := &folder{e: e, st: st, stable: stable, busy: map[int]bool{}}
	n := &SeqV{ET: seq.ET}
	n.lo = f.seqElem(seq, nil, nil, ctx)
	n.split = tInt(int64(len(seq.elems)))
	n.gen, n.glen = e.listCode(st, seq.elems), n.split
	return n
}

func (e *Engine) foldElem(st *State, v Value, t types.Type, ctx string, stable func(*Term) bool) AVal {
	f := &folder{e: e, st: st, stable: stable, busy: map[int]bool{}}
	return f.fold(v, t, ctx)
}

var allStable = func(*Term) bool { return true }

// unfocused is seq with the individually known element put back.
func (e *Engine) unfocused(f *folder, seq *SeqV, ctx string) *SeqV {
	if seq.exact || seq.fidx == nil {
		return seq
	}
	n := &SeqV{ET: seq.ET, lo: seq.lo, hi: seq.hi, split: seq.split, gen: seq.gen, glen: seq.glen}
	if n.split == nil {
		n.split = tZero
	}
	el := f.fold(seq.fval, seq.ET, ctx+"[]")
	switch {
	case tEq(seq.fidx, n.split) == tTrue || f.st.facts.truth(tEq(seq.fidx, n.split)) == 1:
		n.lo, _ = e.joinAVal(n.lo, el, ctx)
		n.split = tAddK(n.split, 1)
	case f.st.facts.leq(tAddK(seq.fidx, 1), n.split):
		n.lo, _ = e.joinAVal(n.lo, el, ctx)
	case f.st.facts.leq(n.split, seq.fidx):
		n.hi, _ = e.joinAVal(n.hi, el, ctx)
	default:
		n.lo, _ = e.joinAVal(n.lo, el, ctx)
		n.hi, _ = e.joinAVal(n.hi, el, ctx)
	}
	return n
}

// focus makes the element idx of a summarised sequence individually known.
func (e *Engine) focus(st *State, obj int, idx *Term, ctx string) {
	o := *st.obj(obj)
	seq, ok := o.V.(*SeqV)
	if !ok || seq.exact {
		undec("focus on an exact sequence")
	}
	if seq.fidx == idx {
		return
	}
	f := &folder{e: e, st: st, stable: allStable, busy: map[int]bool{}, terms: st.facts.intTerms()}
	n := *e.unfocused(f, seq, ctx+"/elems")
	if n.split == nil {
		n.split = tZero
	}
	var el AVal
	switch {
	case st.facts.leq(tAddK(idx, 1), n.split):
		el = n.lo
	case st.facts.leq(n.split, idx):
		el = n.hi
	default:
		el, _ = e.joinAVal(n.lo, n.hi, ctx)
	}
	if el == nil {
		el, _ = e.joinAVal(n.lo, n.hi, ctx)
	}
	if el == nil {
		undec("element of an empty sequence")
	}
	n.fidx = idx
	oldProv := e.prov
	e.prov = nil
	if e.seqMode && n.gen != nil {
		e.prov = &prov{gen: n.gen, idx: idx}
	}
	n.fval = e.instantiate(st, el, ctx+"[]", nil, nil)
	e.prov = oldProv
	o.V = &n
	st.heap[obj] = &o
}

func (f *Facts) intTerms() []*Term {
	m := map[*Term]bool{}
	for x, es := range f.up {
		m[x] = true
		for y := range es {
			m[y] = true
		}
	}
	var out []*Term
	for t := range m {
		if t != tZero {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 12 {
		out = out[len(out)-12:]
	}
	return out
}
