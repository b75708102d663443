package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// verdict is the outcome of comparing a loop with what it should compute.
type verdict struct {
	ok  bool
	bad string // the loop computes something else
	unk string // the loop has a form that is not understood
}

func vBad(f string, a ...interface{}) verdict { return verdict{bad: fmt.Sprintf(f, a...)} }
func vUnk(f string, a ...interface{}) verdict { return verdict{unk: fmt.Sprintf(f, a...)} }

var vOK = verdict{ok: true}

func (r *Report) verdict(v verdict, rule, construct, pos string) {
	switch {
	case v.ok:
		r.OK(rule, construct, pos, "")
	case v.bad != "":
		r.Fail(rule, construct, pos, v.bad)
	default:
		undec("%s: %s", construct, v.unk)
	}
}

// walk is the way a loop goes through a list: the element looked at is
// sig+off, sig being moved by step each time.
type walk struct {
	rec       *loopRec
	gen, n    *Term
	sig       *Term
	off, step int64
}

// leaves are the symbols a term depends on.
func leaves(t *Term, f func(*Term)) {
	if t.op == "sym" {
		f(t)
	}
	for _, a := range t.args {
		leaves(a, f)
	}
}

// understood: after naming the elements of lists nothing but inputs, places
// of loops and elements of lists is left.
func (e *Engine) understood(t *Term) bool {
	ok := true
	var sub func(t *Term)
	sub = func(t *Term) {
		ok = ok && t.op != "sub"
		for _, a := range t.args {
			sub(a)
		}
	}
	sub(e.canon(t))
	leaves(e.canon(t), func(s *Term) {
		if e.recOf[s] == nil && e.genLen[s] == nil && !e.inputs[s] {
			ok = false
		}
	})
	return ok
}

// definite: a value is understood and is not what another loop computes.
func (e *Engine) definite(val, sig *Term) bool {
	if !e.understood(val) {
		return false
	}
	ok := true
	own := e.recOf[sig]
	leaves(e.canon(val), func(s *Term) {
		if p := e.recOf[s]; p != nil && (own == nil || p.rec != own.rec) {
			ok = false
		}
	})
	return ok
}

// elemTerms are the elements of the list that a state knows something about.
func (e *Engine) elemTerms(st *State, gen *Term, vs []Value) (out []*Term) {
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if p := e.provT[t]; p != nil && e.canon(p.gen) == gen {
			out = append(out, e.canon(p.idx))
		}
		if strings.HasPrefix(t.op, "at") && len(t.args) == 2 && t.op != "atoi" && e.canon(t.args[0]) == gen {
			out = append(out, e.canon(t.args[1]))
		}
		if p := e.provG[t]; p != nil {
			if e.canon(p.gen) == gen {
				out = append(out, e.canon(p.idx))
			}
			add(p.gen)
		}
		if p := e.provT[t]; p != nil {
			add(p.gen)
		}
		for _, a := range t.args {
			add(a)
		}
	}
	for _, v := range vs {
		if v != nil {
			add(e.code(st, v))
		}
	}
	for t := range st.facts.bools {
		add(t)
	}
	for t, es := range st.facts.up {
		add(t)
		for u := range es {
			add(u)
		}
	}
	return out
}

// walkOf finds out how a loop goes through a list of n elements, and whether
// it has seen all of them once in state st behind the loop.
func (e *Engine) walkOf(rec *loopRec, st *State, gen, n *Term) (w walk, v verdict) {
	return e.walkFrom(rec, st, gen, n, 0)
}

func (e *Engine) walkFrom(rec *loopRec, st *State, gen, n *Term, from int64) (w walk, v verdict) {
	return e.walkTo(rec, st, gen, n, from, 0)
}

// walkTo: as walkFrom, with some elements more after the last iteration that
// went all the way.
func (e *Engine) walkTo(rec *loopRec, st *State, gen, n *Term, from, more int64) (w walk, v verdict) {
	gen = e.canon(gen)
	if n == nil {
		n = e.lengthOf(st, gen)
	}
	if n == nil {
		return w, vUnk("a list of unknown length")
	}
	own := map[*Term]*recPos{}
	for _, p := range rec.pos {
		if t, ok := p.cur.(*Term); ok && t.op == "sym" && own[t] == nil {
			own[t] = p
		}
	}
	var idx *Term
	for i, b := range rec.backs {
		var vs []Value
		for _, p := range rec.pos {
			vs = append(vs, p.backs[i])
		}
		for _, t := range e.elemTerms(b, gen, vs) {
			mine := false
			leaves(t, func(s *Term) { mine = mine || own[s] != nil })
			if !mine {
				continue
			}
			if idx != nil && idx != t {
				return w, vUnk("more than one element is looked at: %s and %s", idx, t)
			}
			idx = t
		}
	}
	if idx == nil {
		return w, vUnk("no element of %s is looked at in a loop of %s", gen, e.p.FuncName(rec.fn))
	}
	bs, cs, k := linParts(idx)
	if len(bs) != 1 || cs[0] != 1 || own[bs[0]] == nil {
		return w, vUnk("the index %s", idx)
	}
	p := own[bs[0]]
	w = walk{rec: rec, gen: gen, n: n, sig: bs[0], off: k}
	for i, b := range p.backs {
		t, ok := b.(*Term)
		if !ok {
			return w, vUnk("the index becomes a %T", b)
		}
		d := tSub(t, w.sig)
		if !d.isConst() {
			return w, vUnk("the index becomes %s", t)
		}
		if i == 0 {
			w.step = d.k
		}
		if d.k != w.step {
			return w, vBad("the index of the element moves by %d or by %d", w.step, d.k)
		}
	}
	en, ok := p.entry.(*Term)
	if !ok {
		return w, vUnk("the index starts with a %T", p.entry)
	}
	first := tAddK(en, w.off)
	same := func(st *State, a, b *Term) bool { return a == b || st.facts.leq(a, b) && st.facts.leq(b, a) }
	switch w.step {
	case 1:
		if !same(rec.entry, first, tInt(from)) {
			if first.isConst() {
				return w, vBad("the first element looked at is number %d", first.k)
			}
			return w, vUnk("the first element is %s", first)
		}
		if !same(st, tAddK(w.sig, w.off+more), n) {
			if !e.understood(n) {
				return w, vUnk("the length %s", n)
			}
			return w, vBad("the loop may end before all elements have been looked at")
		}
	case -1:
		if !same(rec.entry, tAddK(first, 1), n) {
			return w, vUnk("the first element is %s", first)
		}
		if !same(st, tAddK(w.sig, w.off-more), tInt(from-1)) {
			return w, vBad("the loop may end before all elements have been looked at")
		}
	default:
		return w, vBad("the index moves by %d", w.step)
	}
	return w, vOK
}

// elem names the element (or a part of it) that an iteration looks at.
func (w walk) elem(kind TKind, path string) *Term {
	return app(kind, "at"+path, w.gen, tAddK(w.sig, w.off))
}

// folds checks that t, found in state st, is the result of going through all
// elements of the list once, starting with init and continuing by step.
func (e *Engine) folds(st *State, t *Term, init *Term, gen, n *Term, step func(w walk, b *State, sig, val *Term) verdict) verdict {
	v := e.foldsOf(st, t, init, gen, n, step)
	if v.unk != "" && e.ignores(st, t, gen, n) {
		return vBad("the result does not depend on every element: %s", e.canon(t))
	}
	return v
}

// ignores: the list may have more than two elements, and nothing a result
// depends on mentions an element but those at fixed places.
func (e *Engine) ignores(st *State, t *Term, gen, n *Term) bool {
	gen = e.canon(gen)
	if n == nil || gen == nil || st.facts.leq(n, tInt(2)) || !e.understood(n) {
		return false
	}
	seen := map[*Term]bool{}
	free := true
	inFacts := 0
	var add func(t *Term)
	fact := func(t *Term) {
		inFacts++
		add(t)
		inFacts--
	}
	add = func(t *Term) {
		t = e.canon(t)
		if t == nil || seen[t] || !free {
			return
		}
		seen[t] = true
		if t == gen {
			if dbgIgn {
				println("ignores: whole list")
			}
			free = false
			return
		}
		if (strings.HasPrefix(t.op, "at") && t.op != "atoi" || t.op == "sub") && len(t.args) >= 2 && e.canon(t.args[0]) == gen {
			fixed := true
			for _, a := range t.args[1:] {
				fixed = fixed && a.isConst()
			}
			if fixed {
				return
			}
		}
		if t.op == "sym" {
			p := e.recOf[t]
			if p == nil {
				if e.genLen[t] == nil && inFacts > 0 {
					// left over from other elements or iterations
					return
				}
				if e.genLen[t] == nil && !e.inputs[t] {
					if dbgIgn {
						println("ignores: unknown", t.String())
					}
					free = false
				}
				return
			}
			for i, b := range p.rec.backs {
				for _, q := range p.rec.pos {
					add(e.code(b, q.backs[i]))
				}
				for f := range b.facts.bools {
					if _, old := p.rec.entry.facts.bools[f]; !old {
						fact(f)
					}
				}
				// a number an iteration has to do with
				for f, es := range b.facts.up {
					if p.rec.entry.facts.up[f] != nil {
						continue
					}
					fact(f)
					for g := range es {
						if p.rec.entry.facts.up[g] == nil {
							fact(g)
						}
					}
				}
			}
			for _, q := range p.rec.pos {
				add(e.code(p.rec.entry, q.entry))
			}
			return
		}
		for _, a := range t.args {
			add(a)
		}
	}
	add(t)
	return free
}

func (e *Engine) foldsOf(st *State, t *Term, init *Term, gen, n *Term, step func(w walk, b *State, sig, val *Term) verdict) verdict {
	t = e.canon(t)
	if t.isConst() {
		if t != init {
			return vBad("the result may be %s", t)
		}
		if st.facts.leq(n, tZero) {
			return vOK
		}
		if e.understood(n) {
			return vBad("the result may be %s although there are elements", t)
		}
		return vUnk("constant result")
	}
	p := e.recOf[t]
	k := int64(0)
	more := int64(0)
	if p == nil && t.op == "cat" && len(t.args) == 2 && t.args[1].op == "list" && len(t.args[1].args) == 1 && e.recOf[t.args[0]] != nil {
		// an iteration that was left after its element was added
		p, more = e.recOf[t.args[0]], 1
	}
	if p == nil {
		bs, cs, c := linParts(t)
		if len(bs) == 1 && cs[0] == 1 && e.recOf[bs[0]] != nil {
			p, k = e.recOf[bs[0]], c
		}
	}
	if p == nil {
		return vUnk("the result is %s", t)
	}
	from := int64(0)
	if first, ok := p.entry.(*Term); ok && init.op == "list" && len(init.args) == 0 {
		if first = e.canon(first); first.op == "list" {
			// the first elements are dealt with before the loop
			from = int64(len(first.args))
			for i, x := range first.args {
				one := walk{rec: p.rec, gen: e.canon(gen), n: n, sig: tInt(int64(i))}
				if v := step(one, p.rec.entry, init, app(KOther, "cat", init, app(KOther, "list", x))); !v.ok {
					return v
				}
			}
		}
	}
	w, v := e.walkTo(p.rec, st, gen, n, from, more)
	if !v.ok {
		return v
	}
	if more != 0 {
		if v := step(w, st, t.args[0], t); !v.ok {
			return v
		}
	}
	en, ok := p.entry.(*Term)
	if !ok {
		return vUnk("starts with a %T", p.entry)
	}
	if k != 0 {
		en = tAddK(en, k)
	}
	if from == 0 && e.canon(en) != init && !e.fillsUp(p, st, init, n) {
		if e.understood(en) {
			return vBad("starts with %s and not with %s", e.canon(en), init)
		}
		return vUnk("starts with %s", en)
	}
	for i, b := range p.backs {
		bt, ok := b.(*Term)
		if !ok {
			return vUnk("becomes a %T", b)
		}
		if v := step(w, p.rec.backs[i], p.cur.(*Term), e.canon(bt)); !v.ok {
			return v
		}
	}
	return vOK
}

// fillsUp: a list of the right length is made first, and its elements are
// stored one after the other.
func (e *Engine) fillsUp(p *recPos, st *State, init, n *Term) bool {
	en, ok := p.entry.(*Term)
	if !ok || init.op != "list" || len(init.args) != 0 {
		return false
	}
	if en = e.canon(en); en.op != "zeros" {
		return false
	}
	if k := en.args[0]; k != e.canon(n) && (!st.facts.leq(k, n) || !st.facts.leq(n, k)) {
		return false
	}
	for _, b := range p.backs {
		if t, ok := b.(*Term); !ok || e.canon(t).op != "upd" {
			return false
		}
	}
	return true
}

// adds: the step adds the given part of the element.
func (e *Engine) adds(path string) func(w walk, b *State, sig, val *Term) verdict {
	return func(w walk, b *State, sig, val *Term) verdict {
		want := tAdd(sig, w.elem(KInt, path))
		if val == want {
			return vOK
		}
		if x := e.standFor(b, w.elem(KInt, path)); x != nil && val == sig && b.facts.leq(x, tZero) && b.facts.leq(tZero, x) {
			return vOK
		}
		if e.definite(val, sig) {
			return vBad("a step makes %s of %s instead of adding %s", val, sig, w.elem(KInt, path))
		}
		return vUnk("a step makes %s", val)
	}
}

// counts: the step adds one if the condition holds of the element.
func (e *Engine) counts(cond func(x *Term) *Term, path string) func(w walk, b *State, sig, val *Term) verdict {
	return func(w walk, b *State, sig, val *Term) verdict {
		d := tSub(val, sig)
		if !d.isConst() {
			if e.definite(val, sig) {
				return vBad("a step makes %s of %s", val, sig)
			}
			return vUnk("a step makes %s", val)
		}
		if d.k != 0 && d.k != 1 {
			return vBad("an element counts %d times", d.k)
		}
		// the terms of the state that stand for the element
		x := e.standFor(b, w.elem(KInt, path))
		if x == nil {
			return vBad("an element is counted %d times whatever its value", d.k)
		}
		f := b.clone().facts
		if f.assume(cond(x), d.k == 0) {
			return vBad("an element is counted %d times although the comparison is %v, if%s", d.k, d.k == 0, factsText(b))
		}
		return vOK
	}
}

// standFor is the symbol of a state that stands for (a part of) an element.
func (e *Engine) standFor(st *State, el *Term) *Term {
	var out *Term
	add := func(t *Term) {
		var f func(t *Term)
		f = func(t *Term) {
			if e.provT[t] != nil && e.canon(t) == el {
				out = t
			}
			for _, a := range t.args {
				f(a)
			}
		}
		f(t)
	}
	for t := range st.facts.bools {
		add(t)
	}
	for t, es := range st.facts.up {
		add(t)
		for u := range es {
			add(u)
		}
	}
	return out
}

// comparison is the condition an operator of the dice language denotes.
func comparison(op string, a, b *Term) *Term {
	switch op {
	case "=":
		return tEq(a, b)
	case "<>":
		return tNot(tEq(a, b))
	case "<":
		return tLt(a, b)
	case ">":
		return tLt(b, a)
	case "<=":
		return tLe(a, b)
	case ">=":
		return tLe(b, a)
	}
	return nil
}

// maps: the step appends one element, described by f.
func (e *Engine) maps(f func(w walk, b *State, el *Term) verdict) func(w walk, b *State, sig, val *Term) verdict {
	return func(w walk, b *State, sig, val *Term) verdict {
		if val.op == "cat" && val.args[0] == sig && val.args[1].op == "list" && len(val.args[1].args) == 1 {
			return f(w, b, val.args[1].args[0])
		}
		if val.op == "upd" && val.args[0] == sig {
			if val.args[1] != tAddK(w.sig, w.off) {
				return vBad("the result of element %s is stored at %s", tAddK(w.sig, w.off), val.args[1])
			}
			return f(w, b, val.args[2])
		}
		if val == sig {
			return vBad("an element may be left out")
		}
		if e.definite(val, sig) {
			return vBad("a step makes %s of %s", val, sig)
		}
		return vUnk("a step makes %s", val)
	}
}

// refTo takes the code of a reference to a struct apart.
func refTo(t *Term, typ string) []*Term {
	if t.op == "ref:"+typ {
		return t.args[1:]
	}
	return nil
}

func (e *Engine) input(ts ...*Term) {
	if e.inputs == nil {
		e.inputs = map[*Term]bool{}
	}
	for _, t := range ts {
		e.inputs[t] = true
	}
}

// anyList is a list of any length whose elements are like the one given.
func (e *Engine) anyList(st *State, et types.Type, why string, el Value) *SliceV {
	f := &folder{e: e, st: st, stable: func(*Term) bool { return false }, busy: map[int]bool{}}
	a := f.fold(el, et, "list:"+why)
	n := freshSym(KInt, "len:"+why)
	st.facts.addLe(tZero, n, 0)
	st.facts.addLe(n, tZero, 10000)
	id := e.id()
	st.heap[id] = &Obj{T: types.NewSlice(et), V: &SeqV{ET: et, hi: a, gen: e.newGen(why, n), glen: n}, site: why}
	e.input(n)
	return &SliceV{obj: id, lo: tZero, n: n}
}

// nodeWith makes a syntax node whose list field holds any number of nodes.
func (e *Engine) nodeWith(st *State, node Value, field string, els func(st *State) (Value, *State)) (*SliceV, *State) {
	p, ok := st.resolve(node).(*PtrV)
	if !ok {
		undec("node of %T", node)
	}
	s := st.load(p).(*StructV)
	i := structField(s.T, field)
	if i < 0 {
		undec("no field %s", field)
	}
	lt := s.T.Underlying().(*types.Struct).Field(i).Type()
	v, st := els(st)
	sl := e.anyList(st, elemType(lt), field, v)
	st.facts.addLe(tInt(1), sl.n, 0)
	st.store(&PtrV{p.obj, pathAdd(p.path, i)}, sl)
	return sl, st
}

// fieldOf reads a field of the struct a pointer refers to.
func (e *Engine) fieldOf(st *State, v Value, name string) Value {
	p, ok := st.resolve(v).(*PtrV)
	if !ok {
		if iv, isI := st.resolve(v).(*IfaceV); isI {
			return e.fieldOf(st, iv.V, name)
		}
		undec("field %s of %T", name, st.resolve(v))
	}
	s, ok := st.load(p).(*StructV)
	if !ok {
		undec("field %s of %T", name, st.load(p))
	}
	i := structField(s.T, name)
	if i < 0 {
		undec("no field %s of %s", name, s.T)
	}
	return st.resolve(s.F[i])
}

// evaluated interprets Eval on a node built by mk and calls each for every
// successful outcome.
func (e *Engine) evaluated(r *Report, what string, mk func(st *State) (Value, *State), each func(o Outcome, pos string)) {
	r.Try(what, func() {
		ev := e.method("pkg/core/evaluator", "Evaluator", "Eval")
		var outs []Outcome
		e.inScope("seq:"+what, func() {
			st := newState()
			evl, st := e.newEvaluator(st)
			node, st := mk(st)
			st.events = nil
			outs = e.callFunc(nil, nil, ev, []Value{evl, node}, nil, st, nil)
		})
		n := 0
		for _, o := range outs {
			if e.nilness(o.st, o.ret[1]) == "nonnil" {
				continue
			}
			if u := unknownCalls(o.st); u != "" {
				undec("depends on %s", u)
			}
			n++
			each(o, e.p.Pos(ev.Pos()))
		}
		if n == 0 {
			undec("no successful outcome")
		}
	})
}

func (e *Engine) intNode(st *State, name string) (Value, *Term, *State) {
	t := namedSym(KInt, name)
	e.input(t)
	v, st := e.construct(st, "NewInt", t)
	return v, t, st
}

// drawn is the one list of dice drawn in a state.
func (e *Engine) drawn(st *State) (gen, n *Term) {
	ds := eventsOf(st, "draw")
	if len(ds) != 1 {
		undec("dice are drawn %d times", len(ds))
	}
	return ds[0].Vals[2].(*Term), ds[0].Vals[0].(*Term)
}

func (e *Engine) elementsOf(st *State, v Value) (gen, n *Term) {
	switch s := st.resolve(v).(type) {
	case *SliceV:
		return e.contentOf(st, s), s.n
	case NilV:
		return app(KOther, "list"), tZero
	}
	undec("list of %T", st.resolve(v))
	return nil, nil
}

// lengthOf is the length a state knows for a list.
func (e *Engine) lengthOf(st *State, gen *Term) *Term {
	if n := e.genLen[gen]; n != nil {
		return n
	}
	var out *Term
	for id := range st.heap {
		if q, ok := st.obj(id).V.(*SeqV); ok && q.gen != nil && q.glen != nil && e.canon(q.gen) == gen {
			if out == nil || q.glen.id < out.id {
				out = q.glen
			}
		}
	}
	return out
}

// the recurrence a term stands for, and what is added to it
func (e *Engine) accumulator(t *Term) (*recPos, *Term) {
	bs, cs, k := linParts(t)
	rest := tInt(k)
	var p *recPos
	for i, b := range bs {
		if q := e.recOf[b]; q != nil && cs[i] == 1 && p == nil {
			p = q
			continue
		}
		rest = tAdd(rest, tMul(tInt(cs[i]), b))
	}
	return p, rest
}

var dbgIgn = os.Getenv("VFA_IGN") != ""
