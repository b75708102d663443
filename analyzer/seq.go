package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a list contains is named by a term: an unknown list by a symbol, a
// known one by list(elements...), a copy by the name of what was copied, and
// the result of appending by cat(list, list). A loop that has been brought to
// a fixed point is described by the recurrences of everything it changes:
// the value on entry, the value at the loop's head, and the value each path
// through the body leaves behind. With the elements of lists named by
// (list, index), these recurrences say what the loop computes for lists of
// any length.

type prov struct {
	gen  *Term
	idx  *Term
	path string
}

// recPos is a place that a loop changes.
type recPos struct {
	rec   *loopRec
	name  string
	cur   Value
	entry Value
	backs []Value
}

type loopRec struct {
	ctx   string
	fn    *ssa.Function
	head  *ssa.BasicBlock
	entry *State
	at    *State
	backs []*State
	exits []*State // states that leave the loop, not by returning
	pos   []*recPos
}

func (e *Engine) newGen(why string, n *Term) *Term {
	if !e.seqMode {
		return nil
	}
	g := freshSym(KOther, "content:"+why)
	e.genLen[g] = n
	return g
}

// provGen: the list is itself part of an element of a list.
func (e *Engine) provGen(g *Term) {
	if g != nil && e.prov != nil {
		p := *e.prov
		e.provG[g] = &p
	}
}

func (e *Engine) provField(name string, f func() Value) Value {
	if e.prov == nil {
		return f()
	}
	old := e.prov
	p := *old
	p.path += "." + name
	e.prov = &p
	defer func() { e.prov = old }()
	return f()
}

// sequences switches the naming of list contents on.
func (e *Engine) sequences() {
	e.inlining()
	e.seqMode = true
	e.provT = map[*Term]*prov{}
	e.provL = map[int]*prov{}
	e.provG = map[*Term]*prov{}
	e.genLen = map[*Term]*Term{}
	e.piecesOf = map[*Term]*Term{}
	e.inputs = map[*Term]bool{}
	e.sharing = map[int][]int{}
	e.recOf = map[*Term]*recPos{}
	e.recOfLazy = map[int]*recPos{}
}

// shares notes that the result of an append may be stored behind the
// elements of the list appended to.
func (e *Engine) shares(id int, a *SliceV) {
	if e.seqMode && a.obj >= 0 {
		e.sharing[id] = append(e.sharing[id], a.obj)
	}
}

// contentOf names the elements of a slice.
func (e *Engine) contentOf(st *State, s *SliceV) *Term {
	if !e.seqMode {
		return nil
	}
	if s.obj < 0 || s.n == tZero {
		return app(KOther, "list")
	}
	if st.obj(s.obj) == nil {
		return nil
	}
	q, ok := st.obj(s.obj).V.(*SeqV)
	if !ok {
		return nil
	}
	if q.exact {
		if s.lo.isConst() && s.n.isConst() {
			return e.listCode(st, q.elems[s.lo.k:s.lo.k+s.n.k])
		}
		return nil
	}
	if q.gen == nil {
		return nil
	}
	if s.lo == tZero && (q.glen == s.n || q.glen != nil && st.facts.leq(q.glen, s.n) && st.facts.leq(s.n, q.glen)) {
		return q.gen
	}
	return app(KOther, "sub", q.gen, s.lo, s.n)
}

func (e *Engine) listCode(st *State, vs []Value) *Term {
	if !e.seqMode {
		return nil
	}
	var cs []*Term
	for _, v := range vs {
		cs = append(cs, e.code(st, v))
	}
	return app(KOther, "list", cs...)
}

// tCat concatenates list contents.
func tCat(a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	if a.op == "list" && len(a.args) == 0 {
		return b
	}
	if b.op == "list" && len(b.args) == 0 {
		return a
	}
	if a.op == "list" && b.op == "list" {
		return app(KOther, "list", append(append([]*Term(nil), a.args...), b.args...)...)
	}
	if b.op == "cat" {
		return tCat(tCat(a, b.args[0]), b.args[1])
	}
	if a.op == "cat" && a.args[1].op == "list" && b.op == "list" {
		return tCat(a.args[0], tCat(a.args[1], b))
	}
	return app(KOther, "cat", a, b)
}

// code names a value; references to structs are described by their content.
func (e *Engine) code(st *State, v Value) *Term { return e.codeAt(st, v, 0) }

func (e *Engine) codeAt(st *State, v Value, depth int) *Term {
	if depth > 6 {
		return freshSym(KOther, "deep")
	}
	if l, ok := v.(*LazyV); ok {
		if p := e.provL[l.id]; p != nil {
			return e.provTerm(p)
		}
		if b := st.binds[l.id]; b != nil && b.val == nil {
			return app(KOther, fmt.Sprintf("lazy%d", l.id))
		}
	}
	switch x := st.resolve(v).(type) {
	case *Term:
		return x
	case NilV:
		return app(KOther, "nil")
	case *IfaceV:
		return e.codeAt(st, x.V, depth)
	case *StructV:
		var fs []*Term
		for _, f := range x.F {
			fs = append(fs, e.codeAt(st, f, depth+1))
		}
		return app(KOther, "struct:"+shortType(x.T), fs...)
	case *PtrV:
		if x.path == "" && st.obj(x.obj) != nil {
			if s, ok := st.obj(x.obj).V.(*StructV); ok {
				fs := []*Term{tInt(int64(x.obj))}
				for _, f := range s.F {
					fs = append(fs, e.codeAt(st, f, depth+1))
				}
				return app(KOther, "ref:"+shortType(s.T), fs...)
			}
		}
		return app(KOther, fmt.Sprintf("ptr%d%s", x.obj, x.path))
	case *SliceV:
		if c := e.contentOf(st, x); c != nil {
			return c
		}
	case *LazyV:
		if p := e.provL[x.id]; p != nil {
			return e.provTerm(p)
		}
		return app(KOther, fmt.Sprintf("lazy%d", x.id))
	}
	return freshSym(KOther, fmt.Sprintf("other:%T", st.resolve(v)))
}

func (e *Engine) provTerm(p *prov) *Term {
	return app(KOther, "at"+p.path, p.gen, p.idx)
}

// canon replaces symbols that stand for (parts of) elements of lists by the
// part's name.
func (e *Engine) canon(t *Term) *Term {
	if t == nil {
		return nil
	}
	if p := e.provT[t]; p != nil {
		return app(t.kind, "at"+p.path, e.canon(p.gen), e.canon(p.idx))
	}
	if p := e.provG[t]; p != nil {
		return app(t.kind, "at"+p.path, e.canon(p.gen), e.canon(p.idx))
	}
	if len(t.args) == 0 || t.op == "sym" {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = e.canon(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return rebuild(t, args)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "cat":
		return tCat(args[0], args[1])
	case "lin":
		r := tInt(t.k)
		for i, a := range args {
			r = tAdd(r, tMul(tInt(t.coefs[i]), a))
		}
		return r
	}
	return app(t.kind, t.op, args...)
}

// recordLoop describes what a loop whose state at the head is S does.
func (e *Engine) recordLoop(fr *Frame, l *loop, ctx string, entry, S *Cfg, watermark int, lc *loopCtx) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VFA_STACK") != "" {
				fmt.Fprintln(os.Stderr, "recordLoop:", r)
			}
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
		}
	}()
	var backs []*Cfg
	var exits []exitCfg
	lcc := &loopCtx{loop: l, mode: "collect", parent: lc, backs: &backs, exits: &exits}
	e.mute++
	func() {
		defer func() { e.mute-- }()
		e.body(fr, S.clone(), l.head, 0, lcc)
	}()
	rec := &loopRec{ctx: ctx, fn: fr.fn, head: l.head, entry: entry.st, at: S.st}
	for _, b := range backs {
		rec.backs = append(rec.backs, b.st)
	}
	for _, x := range exits {
		rec.exits = append(rec.exits, x.c.st)
	}
	j := &joiner{e: e, fr: fr, l: l, ctx: ctx, iter: 0, base: S.clone(), entry: nil, in: append([]*Cfg{S.clone(), entry.clone()}, backs...), watermark: watermark}
	j.record = func(name string, vs []Value) {
		if len(vs) != len(backs)+2 {
			return
		}
		p := &recPos{rec: rec, name: name, cur: vs[0], entry: vs[1], backs: append([]Value(nil), vs[2:]...)}
		rec.pos = append(rec.pos, p)
		same := vs[1] == vs[0]
		for _, b := range p.backs {
			same = same && b == vs[0]
		}
		if same {
			return // the loop leaves it as it is
		}
		if t, ok := p.cur.(*Term); ok && t.op == "sym" && e.recOf[t] == nil {
			e.recOf[t] = p
		}
		if z, ok := p.cur.(*LazyV); ok && e.recOfLazy[z.id] == nil {
			e.recOfLazy[z.id] = p
		}
	}
	j.join()
	e.loopRecs = append(e.loopRecs, rec)
}

// String describes a recurrence.
func (e *Engine) recText(p *recPos) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %s := %s", p.name, e.valText(p.rec.at, p.cur), e.valText(p.rec.entry, p.entry))
	for i, b := range p.backs {
		fmt.Fprintf(&sb, " | %s", e.valText(p.rec.backs[i], b))
	}
	return sb.String()
}

func (e *Engine) valText(st *State, v Value) string {
	if v == nil {
		return "?"
	}
	t, ok := v.(*Term)
	if !ok {
		t = e.code(st, v)
	}
	if t = e.canon(t); t == nil {
		return "?"
	}
	return t.String()
}

func elemType(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

func (e *Engine) debugSeq(name string) {
	var fn *ssa.Function
	for _, f := range e.p.SortedFuncs() {
		if e.p.FuncName(f) == name {
			fn = f
		}
	}
	if fn == nil {
		undec("no function %s", name)
	}
	e.stubRollDice()
	e.inScope("seq", func() {
		e.loopRecs = nil
		st := newState()
		var args []Value
		for i, prm := range fn.Params {
			if i == 0 && strings.Contains(prm.Type().String(), "evaluator.Evaluator") {
				var v Value
				v, st = e.newEvaluator(st)
				args = append(args, v)
				continue
			}
			if pt, ok := prm.Type().(*types.Pointer); ok {
				args = append(args, e.pointee(st, pt))
				continue
			}
			args = append(args, e.havoc(prm.Type(), prm.Name(), st))
		}
		outs := e.callFunc(nil, nil, fn, args, nil, st, nil)
		for _, r := range e.loopRecs {
			fmt.Println("LOOP", e.p.FuncName(r.fn), r.head.Index, "paths", len(r.backs))
			for _, q := range r.pos {
				fmt.Println("   ", e.recText(q))
			}
		}
		for _, o := range outs {
			fmt.Print("OUT")
			for _, v := range o.ret {
				fmt.Print(" ", e.valText(o.st, v))
			}
			fmt.Println()
		}
	})
}

// whole recognises a struct that consists of all parts of one element.
func whole(t *Term) *Term {
	if !strings.HasPrefix(t.op, "struct:") || len(t.args) == 0 {
		return t
	}
	var gen, idx *Term
	for _, a := range t.args {
		if !strings.HasPrefix(a.op, "at.") || len(a.args) != 2 || strings.Count(a.op, ".") != 1 {
			return t
		}
		if gen == nil {
			gen, idx = a.args[0], a.args[1]
		}
		if a.args[0] != gen || a.args[1] != idx {
			return t
		}
	}
	seen := map[string]bool{}
	for _, a := range t.args {
		if seen[a.op] {
			return t
		}
		seen[a.op] = true
	}
	return app(KOther, "at", gen, idx)
}

// norm replaces the result of a loop that copies a list by the list.
func (e *Engine) norm(st *State, t *Term) *Term {
	if t == nil {
		return freshSym(KOther, "unknown content")
	}
	t = e.canon(t)
	if t.op == "cat" {
		return tCat(e.norm(st, t.args[0]), e.norm(st, t.args[1]))
	}
	p := e.recOf[t]
	if p == nil || len(p.backs) == 0 {
		return t
	}
	en, ok := p.entry.(*Term)
	if !ok {
		return t
	}
	var src *Term
	for _, b := range p.backs {
		bt, ok := b.(*Term)
		if !ok {
			return t
		}
		bt = e.canon(bt)
		var x *Term
		switch {
		case bt.op == "cat" && bt.args[0] == t && bt.args[1].op == "list" && len(bt.args[1].args) == 1:
			x = bt.args[1].args[0]
		case bt.op == "upd" && bt.args[0] == t:
			x = bt.args[2]
		default:
			return t
		}
		x = whole(x)
		if x.op != "at" || src != nil && src != x.args[0] {
			return t
		}
		src = x.args[0]
		n := e.genLen[src]
		if n == nil {
			return t
		}
		w, v := e.walkOf(p.rec, st, src, n)
		if !v.ok && len(p.rec.exits) > 0 {
			// however the loop is left
			for _, x := range p.rec.exits {
				if w, v = e.walkOf(p.rec, x, src, n); !v.ok {
					break
				}
			}
		}
		if !v.ok || w.step != 1 || x.args[1] != tAddK(w.sig, w.off) {
			return t
		}
		if bt.op == "upd" && (bt.args[1] != x.args[1] || en.op != "zeros" || en.args[0] != n) {
			return t
		}
	}
	if en.op == "zeros" {
		return e.norm(st, src)
	}
	return tCat(e.norm(st, en), e.norm(st, src))
}

func parts(t *Term) []*Term {
	if t.op == "cat" {
		return append(parts(t.args[0]), parts(t.args[1])...)
	}
	if t.op == "list" && len(t.args) == 0 {
		return nil
	}
	return []*Term{t}
}

// nonEmpty leaves out the lists that have no elements.
func (e *Engine) nonEmpty(st *State, ts []*Term) (out []*Term) {
	for _, x := range ts {
		n := e.genLen[x]
		switch {
		case x.op == "zeros" && len(x.args) == 1:
			n = x.args[0]
		case x.op == "sub" && len(x.args) == 3:
			n = x.args[2]
		}
		if n == nil || !st.facts.leq(n, tZero) {
			out = append(out, x)
		}
	}
	return out
}

// sameList compares two lists by their names and by the recurrences of the
// loops that build them.
func (e *Engine) sameList(st *State, a, b *Term) verdict {
	if a == nil || b == nil {
		return vUnk("a list of unknown content")
	}
	as, bs := e.nonEmpty(st, parts(e.norm(st, a))), e.nonEmpty(st, parts(e.norm(st, b)))
	for len(as) > 0 && len(bs) > 0 {
		if v := e.samePart(st, as[0], bs[0]); !v.ok {
			return v
		}
		as, bs = as[1:], bs[1:]
	}
	for _, x := range append(as, bs...) {
		if e.understood(x) {
			return vBad("%s is missing or too much: %s and %s", x, e.norm(st, a), e.norm(st, b))
		}
		return vUnk("%s and %s", e.norm(st, a), e.norm(st, b))
	}
	return vOK
}

func (e *Engine) samePart(st *State, a, b *Term) verdict {
	if a == b {
		return vOK
	}
	pa, pb := e.recOf[a], e.recOf[b]
	if pa != nil && pb != nil && pa.rec == pb.rec {
		ea, ok1 := pa.entry.(*Term)
		eb, ok2 := pb.entry.(*Term)
		if !ok1 || !ok2 {
			return vUnk("a loop starts with %T and %T", pa.entry, pb.entry)
		}
		// one of them may be filled in by index
		if ea.op != "zeros" && eb.op == "zeros" {
			pa, pb, ea, eb, a, b = pb, pa, eb, ea, b, a
		}
		if ea.op == "zeros" {
			return e.filled(st, pa, pb, a, b, ea.args[0])
		}
		if v := e.sameList(pa.rec.entry, ea, eb); !v.ok {
			return v
		}
		for i := range pa.backs {
			x, ok1 := pa.backs[i].(*Term)
			y, ok2 := pb.backs[i].(*Term)
			if !ok1 || !ok2 {
				return vUnk("a loop makes %T and %T", pa.backs[i], pb.backs[i])
			}
			ps, qs := parts(e.canon(x)), parts(e.canon(y))
			if len(ps) > 0 && len(qs) > 0 && ps[0] == a && qs[0] == b {
				ps, qs = ps[1:], qs[1:]
			}
			bst := pa.rec.backs[i]
			for len(ps) > 0 && len(qs) > 0 {
				if v := e.samePart(bst, ps[0], qs[0]); !v.ok {
					return v
				}
				ps, qs = ps[1:], qs[1:]
			}
			if len(ps)+len(qs) > 0 {
				return e.differentLists(bst, e.canon(x), e.canon(y))
			}
		}
		return vOK
	}
	if a.op == "list" && b.op == "list" && len(a.args) == len(b.args) {
		for i := range a.args {
			if !e.sameElem(st, a.args[i], b.args[i]) {
				return e.differentLists(st, a, b)
			}
		}
		return vOK
	}
	return e.differentLists(st, a, b)
}

// sameElem compares two elements.
func (e *Engine) sameElem(st *State, a, b *Term) bool {
	a, b = whole(a), whole(b)
	if a == b {
		return true
	}
	if a.kind == KInt && b.kind == KInt {
		return st.facts.leq(a, b) && st.facts.leq(b, a)
	}
	if a.op == b.op && a.op != "sym" && a.op != "lin" && len(a.args) == len(b.args) {
		for i := range a.args {
			if !e.sameElem(st, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) differentLists(st *State, a, b *Term) verdict {
	if e.understood(a) && e.understood(b) {
		return vBad("%s and %s", a, b)
	}
	return vUnk("%s and %s", a, b)
}

// filled compares a list that is made with its full length and filled in by
// index with one that grows by appending.
func (e *Engine) filled(st *State, pa, pb *recPos, a, b *Term, n *Term) verdict {
	if eb, ok := pb.entry.(*Term); !ok || eb.op != "list" || len(eb.args) != 0 {
		return vUnk("a list that starts with %s", e.valText(pb.rec.entry, pb.entry))
	}
	var sig *Term
	for i := range pa.backs {
		x, ok1 := pa.backs[i].(*Term)
		y, ok2 := pb.backs[i].(*Term)
		if !ok1 || !ok2 {
			return vUnk("a loop makes %T and %T", pa.backs[i], pb.backs[i])
		}
		x, y = e.canon(x), e.canon(y)
		if x.op != "upd" || x.args[0] != a || y.op != "cat" || y.args[0] != b || y.args[1].op != "list" || len(y.args[1].args) != 1 {
			return e.differentLists(pa.rec.backs[i], x, y)
		}
		if !e.sameElem(pa.rec.backs[i], x.args[2], y.args[1].args[0]) {
			return e.differentLists(pa.rec.backs[i], x, y)
		}
		bs, cs, k := linParts(x.args[1])
		p := e.recOf[firstOr(bs)]
		if len(bs) != 1 || cs[0] != 1 || p == nil || p.rec != pa.rec {
			return vUnk("the index %s", x.args[1])
		}
		if sig != nil && sig != x.args[1] {
			return vUnk("the indices %s and %s", sig, x.args[1])
		}
		sig = x.args[1]
		en, ok := p.entry.(*Term)
		if !ok {
			return vUnk("the index starts with a %T", p.entry)
		}
		en = tAddK(en, k)
		if en != tZero {
			if en.isConst() {
				return vBad("the first element filled in is number %d", en.k)
			}
			return vUnk("the first index is %s", en)
		}
		for _, z := range p.backs {
			zt, ok := z.(*Term)
			if !ok || !tSub(zt, p.cur.(*Term)).isConst() {
				return vUnk("the index becomes %s", e.valText(p.rec.at, z))
			}
			if d := tSub(zt, p.cur.(*Term)).k; d != 1 {
				return vBad("the index moves by %d", d)
			}
		}
	}
	if sig == nil {
		return vUnk("an endless loop")
	}
	if st.facts.leq(sig, n) && st.facts.leq(n, sig) {
		return vOK
	}
	return vBad("the loop may end before the list is filled")
}

func firstOr(ts []*Term) *Term {
	if len(ts) == 0 {
		return nil
	}
	return ts[0]
}
