package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHead map[*ssa.BasicBlock]*loop
}

// loopInfo finds the natural loops of fn.
func (e *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	if li := e.loops[fn]; li != nil {
		return li
	}
	li := naturalLoops(fn)
	e.loops[fn] = li
	return li
}

func naturalLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return li
}

func (e *Engine) runLoop(fr *Frame, c *Cfg, l *loop, prev *ssa.BasicBlock, lc *loopCtx) (out []Outcome) {
	e.setPhis(fr, c, l.head, prev)
	entry := c.clone()
	// 1. unrolling, as long as every exit test is decided
	done := func() (ok bool) {
		id := &loopCtx{loop: l, mode: "unroll", parent: lc}
		undo := e.collected(lc)
		defer func() {
			if r := recover(); r != nil {
				if a, isA := r.(loopAbort); isA && a.lc.loop == l && a.lc.parent == lc {
					undo()
					ok = false
					return
				}
				panic(r)
			}
		}()
		out = e.body(fr, c, l.head, 0, id)
		return true
	}()
	if done {
		return out
	}
	// 2. join until stable
	S := entry
	var prevKey string
	var prevB map[string]bnd
	ctx := fmt.Sprintf("%s/%s.L%d", fr.ctx, fr.fn.Name(), l.head.Index)
	watermark := terms.n
	for iter := 0; ; iter++ {
		if iter > 14 {
			if e.trace {
				fmt.Println("KEY:", prevKey)
			}
			undec("%s: loop does not stabilise", e.p.FuncName(fr.fn))
		}
		var backs []*Cfg
		lcc := &loopCtx{loop: l, mode: "collect", parent: lc, backs: &backs}
		e.mute++
		e.body(fr, S.clone(), l.head, 0, lcc)
		e.mute--
		if e.trace {
			fmt.Println("LOOP", fr.fn.Name(), l.head.Index, "iter", iter, "backs", len(backs))
		}
		if len(backs) == 0 {
			break
		}
		j := &joiner{e: e, fr: fr, l: l, ctx: ctx, iter: iter, base: S, entry: entry, in: append([]*Cfg{S}, backs...), watermark: watermark, prevB: prevB}
		N := j.join()
		key := j.key()
		prevB = j.outB
		S = N
		if key == prevKey {
			break
		}
		if e.trace && iter >= 13 {
			fmt.Println("KEY", iter, key)
		}
		prevKey = key
	}
	if e.seqMode {
		e.recordLoop(fr, l, ctx, entry, S, watermark, lc)
	}
	fin := &loopCtx{loop: l, mode: "final", parent: lc}
	if !e.mergeCalls {
		return e.body(fr, S, l.head, 0, fin)
	}
	var exits []exitCfg
	fin.exits = &exits
	base := S.st.clone()
	out = e.body(fr, S, l.head, 0, fin)
	return append(out, e.leaveLoop(fr, l, exits, base, watermark, lc)...)
}

// leaveLoop continues behind a loop; many states leaving by the same edge
// are joined first.
func (e *Engine) leaveLoop(fr *Frame, l *loop, exits []exitCfg, base *State, watermark int, lc *loopCtx) (out []Outcome) {
	type edge struct{ b, prev *ssa.BasicBlock }
	groups := map[edge][]*Cfg{}
	var order []edge
	for _, x := range exits {
		k := edge{x.b, x.prev}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], x.c)
	}
	for gi, k := range order {
		g := groups[k]
		if e.trace {
			fmt.Println("EXIT", fr.fn.Name(), l.head.Index, k.b.Index, len(g))
		}
		if len(g) <= 3 {
			for _, c := range g {
				out = append(out, e.enter(fr, c, k.b, k.prev, lc)...)
			}
			continue
		}
		// the variables of the loop that are used behind it
		var live []ssa.Value
		var ts []types.Type
		for _, b := range fr.fn.Blocks {
			if !l.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				outside := false
				for _, r := range *v.Referrers() {
					if !l.body[r.Block()] {
						outside = true
					}
				}
				for _, c := range g {
					if c.env[v] == nil {
						outside = false
					}
				}
				if outside {
					live = append(live, v)
					ts = append(ts, v.Type())
				}
			}
		}
		var outs []Outcome
		dec := map[*ssa.BasicBlock]bool{}
		for _, c := range g {
			o := Outcome{st: c.st}
			for _, v := range live {
				o.ret = append(o.ret, c.env[v])
			}
			outs = append(outs, o)
			for b, v := range c.dec {
				dec[b] = dec[b] || v
			}
		}
		for _, o := range e.mergeOutcomes(base, watermark, outs, ts, fmt.Sprintf("%s/%s.L%dx%d", fr.ctx, fr.fn.Name(), l.head.Index, gi)) {
			c := g[0].withState(o.st)
			c.dec = dec
			for i, v := range live {
				c.env[v] = o.ret[i]
			}
			out = append(out, e.enter(fr, c, k.b, k.prev, lc)...)
		}
	}
	return out
}

type jpos struct {
	name string
	sym  *Term
	vals []*Term
}

type joiner struct {
	e          *Engine
	fr         *Frame
	l          *loop
	ctx        string
	iter       int
	base       *Cfg
	entry      *Cfg
	in         []*Cfg
	out        *Cfg
	watermark  int
	memo       map[string]*jpos
	pos        []*jpos
	slmemo     map[string]Value
	keyb       strings.Builder
	prevB      map[string]bnd
	outB       map[string]bnd
	names      map[*Term]string
	folders    []*folder
	pendingSeq []func()
	rets       [][]Value // joining the outcomes of a call: the results
	retT       []types.Type
	retOut     []Value
	scope      *tagScope
	record     func(name string, vs []Value)
}

// mergeOutcomes joins the outcomes of a call whose results are alike.
func (e *Engine) mergeOutcomes(base *State, watermark int, outs []Outcome, ts []types.Type, ctx string) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		k := e.mergeKey(o.st, o.ret)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	if len(order) == len(outs) {
		return outs
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		bs := base.clone()
		j := &joiner{e: e, ctx: fmt.Sprintf("%s/m(%s)", ctx, k), watermark: watermark, base: &Cfg{st: bs}, retT: ts}
		// objects and lazy values made before the paths parted
		for id, o := range g[0].st.heap {
			if _, ok := bs.heap[id]; ok {
				continue
			}
			if _, ok := baseHeap[id]; ok {
				continue
			}
			all := true
			for _, x := range g[1:] {
				if _, ok := x.st.heap[id]; !ok {
					all = false
					break
				}
			}
			if all {
				bs.heap[id] = o
			}
		}
		for id, b := range g[0].st.binds {
			if _, ok := bs.binds[id]; ok {
				continue
			}
			all, same := true, true
			for _, x := range g[1:] {
				y, ok := x.st.binds[id]
				if !ok {
					all = false
					break
				}
				same = same && y == b
			}
			if all && same {
				bs.binds[id] = b
			} else if all {
				n := *b
				n.val, n.ivals, n.chosen = nil, nil, nil
				bs.binds[id] = &n
			}
		}
		for _, o := range g {
			j.in = append(j.in, &Cfg{st: o.st})
			j.rets = append(j.rets, o.ret)
		}
		out := j.join()
		if e.trace {
			n := 0
			for _, m := range out.st.facts.up {
				n += len(m)
			}
			fmt.Println("MERGE", len(g), len(j.pos), "edges", n, "heap", len(out.st.heap), "binds", len(out.st.binds), ctx[max(0, len(ctx)-100):])
		}
		res = append(res, Outcome{out.st, j.retOut})
	}
	return res
}

func (e *Engine) mergeKey(st *State, ret []Value) string {
	k := e.retKey(st, ret)
	if e.keepApart != nil {
		k += "|" + e.keepApart(st, ret)
	}
	for i, r := range ret {
		if t, ok := st.resolve(r).(*Term); ok && t.isConst() && (t.kind != KBool || e.keyBools) {
			k += fmt.Sprintf("|%d=%s", i, t)
		}
	}
	return k
}

// joinFacts keeps what all joined states know about stable terms.
func (j *joiner) joinFacts() {
	o := j.out.st.facts
	for x, es := range j.in[0].st.facts.up {
		if !j.stable(x) {
			continue
		}
		for y := range es {
			if !j.stable(y) {
				continue
			}
			worst, ok := int64(math.MinInt64), true
			for _, c := range j.in {
				u, k := c.st.facts.dist(x, y)
				if !k {
					ok = false
					break
				}
				if u > worst {
					worst = u
				}
			}
			if ok {
				if cur, k := o.dist(x, y); !k || worst < cur {
					o.setUp(x, y, worst)
				}
			}
		}
	}
	for t, v := range j.in[0].st.facts.bools {
		if _, known := o.bools[t]; known || !j.stable(t) {
			continue
		}
		ok := true
		for _, c := range j.in[1:] {
			if w, k := c.st.facts.bools[t]; !k || w != v {
				ok = false
				break
			}
		}
		if ok {
			o.setBool(t, v)
		}
	}
}

// joinEvents keeps everything that may have happened.
func (j *joiner) joinEvents() {
	// events: everything that may have happened
	base := j.base.st.events
	have := map[*Event]bool{}
	known := map[string]bool{}
	for ev := base; ev != nil; ev = ev.prev {
		have[ev] = true
		known[ev.Kind+ev.Pos] = true
	}
	for _, c := range j.in {
		var nw []*Event
		for ev := c.st.events; ev != nil && !have[ev]; ev = ev.prev {
			have[ev] = true
			if j.l != nil && known[ev.Kind+ev.Pos] {
				continue
			}
			known[ev.Kind+ev.Pos] = true
			nw = append(nw, ev)
		}
		for i := len(nw) - 1; i >= 0; i-- {
			j.out.st.event(nw[i].Kind, nw[i].Pos, nw[i].Vals...)
		}
	}
	st := j.out.st
	st.drew, st.snap, st.late = false, false, false
	for _, c := range j.in {
		st.drew = st.drew || c.st.drew
		st.snap = st.snap || c.st.snap
		st.late = st.late || c.st.late
	}
	st.snapN = j.in[0].st.snapN
	for _, c := range j.in {
		if c.st.snapN != st.snapN {
			st.snapN = nil
		}
	}
}

// stable terms existed before the loop was entered.
func (j *joiner) stable(t *Term) bool {
	return !t.mentions(func(x *Term) bool { return x.op == "sym" && x.id > j.watermark }) && t.id <= j.watermark || t.isConst()
}

func (j *joiner) join() *Cfg {
	e := j.e
	j.out = j.base.clone()
	if j.l == nil {
		j.scope = &tagScope{owner: j.ctx, m: map[string]*Term{}}
	}
	j.memo = map[string]*jpos{}
	j.slmemo = map[string]Value{}
	j.names = map[*Term]string{}
	var stab []*Term
	inStab := map[*Term]bool{}
	for _, c := range j.in {
		for _, t := range c.st.facts.intTerms2() {
			if j.stable(t) && !inStab[t] {
				inStab[t] = true
				stab = append(stab, t)
			}
		}
	}
	// what the loop itself decides by comes first
	decides := map[*Term]bool{}
	for _, c := range j.in[1:] {
		for t := range c.st.facts.bools {
			if _, before := j.in[0].st.facts.bools[t]; !before {
				leaves(t, func(x *Term) { decides[x] = true })
			}
		}
	}
	sort.Slice(stab, func(a, b int) bool {
		if x, y := stab[a], stab[b]; decides[x] != decides[y] {
			return decides[y]
		}
		return stab[a].id < stab[b].id
	})
	if len(stab) > 14 {
		stab = stab[len(stab)-14:]
	}
	for _, c := range j.in {
		j.folders = append(j.folders, &folder{e: e, st: c.st, stable: j.stable, terms: stab, busy: map[int]bool{}})
	}
	// lazies
	var lids []int
	for id, b := range j.base.st.binds {
		if b.val == nil && j.record == nil {
			lids = append(lids, id)
		}
	}
	sort.Ints(lids)
	for _, id := range lids {
		j.joinLazy(id)
	}
	if j.record == nil {
		j.joinEvents()
	}
	if j.l == nil {
		j.joinFacts()
		for i, t := range j.retT {
			var vs []Value
			for _, r := range j.rets {
				vs = append(vs, r[i])
			}
			j.retOut = append(j.retOut, j.val(fmt.Sprintf("ret%d", i), vs, t))
		}
	}
	// loop variables
	var head []ssa.Instruction
	if j.l != nil {
		head = j.l.head.Instrs
	}
	for _, in := range head {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Value
		for _, c := range j.in {
			vs = append(vs, c.env[ph])
		}
		v := j.val("phi:"+ph.Name(), vs, ph.Type())
		j.out.env[ph] = v
		j.describe("phi:"+ph.Name(), v)
	}
	// heap
	var ids []int
	for id := range j.base.st.heap {
		ids = append(ids, id)
	}
	// base objects first modified inside the loop
	seen := map[int]bool{}
	for _, id := range ids {
		seen[id] = true
	}
	for _, c := range j.in {
		for id := range c.st.heap {
			if _, isBase := baseHeap[id]; isBase && !seen[id] {
				seen[id] = true
				ids = append(ids, id)
			}
		}
	}
	sort.Ints(ids)
	var later []int
	joinObj := func(id int, name string) {
		same := true
		if j.record != nil {
			for _, c := range j.in {
				if c.st.obj(id) == nil {
					return
				}
			}
		}
		o0 := j.base.st.obj(id)
		for _, c := range j.in {
			if c.st.obj(id) != o0 {
				same = false
			}
		}
		if same {
			return
		}
		var vs []Value
		for _, c := range j.in {
			vs = append(vs, c.st.obj(id).V)
		}
		n := *o0
		n.V = j.content(name, vs, o0.T)
		j.out.st.heap[id] = &n
		j.describe(name, n.V)
	}
	for rank, id := range ids {
		if j.entry != nil && j.entry.st.obj(id) == nil && baseHeap[id] == nil {
			later = append(later, id)
			continue
		}
		kind := ""
		if o := j.base.st.obj(id); o != nil && o.T != nil {
			kind = ":" + shortType(o.T)
		}
		joinObj(id, fmt.Sprintf("obj%d%s", rank, kind))
	}
	// objects made by earlier joins count only if they are still in use
	if len(later) > 0 {
		isLater := map[int]bool{}
		for _, id := range later {
			isLater[id] = true
		}
		live := map[int]bool{}
		var queue []int
		mark := func(id int) {
			if isLater[id] && !live[id] {
				live[id] = true
				queue = append(queue, id)
			}
		}
		seenB := map[int]bool{}
		var scan func(v Value)
		scan = func(v Value) {
			switch x := v.(type) {
			case *LazyV:
				if b := j.out.st.binds[x.id]; b != nil && b.val != nil && !seenB[x.id] {
					seenB[x.id] = true
					scan(b.val)
				}
			case *PtrV:
				mark(x.obj)
			case *ElemV:
				mark(x.obj)
			case *SliceV:
				mark(x.obj)
			case *MapV:
				mark(x.obj)
			case *IfaceV:
				scan(x.V)
			case *StructV:
				for _, f := range x.F {
					scan(f)
				}
			case TupleV:
				for _, f := range x {
					scan(f)
				}
			case *SeqV:
				for _, f := range x.elems {
					scan(f)
				}
				if x.fidx != nil {
					scan(x.fval)
				}
			case *MapC:
				for _, f := range x.keys {
					scan(f)
				}
			case *FuncV:
				for _, f := range x.binds {
					scan(f)
				}
			case *IterV:
				scan(x.over)
			}
		}
		for _, v := range j.out.env {
			scan(v)
		}
		for id, o := range j.out.st.heap {
			if !isLater[id] {
				scan(o.V)
			}
		}
		k := 0
		for done := map[int]bool{}; len(queue) > 0; {
			sort.Ints(queue)
			id := queue[0]
			queue = queue[1:]
			if done[id] {
				continue
			}
			done[id] = true
			joinObj(id, fmt.Sprintf("made%d", k))
			k++
			scan(j.out.st.obj(id).V)
		}
		for _, id := range later {
			if !live[id] {
				delete(j.out.st.heap, id)
			}
		}
	}
	for _, f := range j.pendingSeq {
		f()
	}
	// facts among the joined positions and the stable terms
	j.outB = map[string]bnd{}
	type node struct {
		name string
		t    *Term
		vals []*Term
	}
	var nodes []node
	for _, p := range j.pos {
		if p.sym.kind == KInt {
			nodes = append(nodes, node{p.name, p.sym, p.vals})
		}
	}
	np := len(nodes)
	ext := append([]*Term{tZero}, stab...)
	for _, t := range ext {
		vs := make([]*Term, len(j.in))
		for i := range vs {
			vs[i] = t
		}
		nodes = append(nodes, node{"t" + fmt.Sprint(t.id), t, vs})
	}
	type jedge struct {
		a, b int
		c    int64
	}
	var es []jedge
	for a := range nodes {
		for b := range nodes {
			if a == b || a >= np && b >= np {
				continue
			}
			worst := int64(math.MinInt64)
			ok := true
			for i, c := range j.in {
				u, k := c.st.facts.upper(nodes[a].vals[i], nodes[b].vals[i])
				if !k || u > math.MaxInt64/4 {
					u2, k2 := c.st.facts.upperLin(nodes[a].vals[i], nodes[b].vals[i])
					if !k2 {
						ok = false
						break
					}
					u = u2
				} else if u2, k2 := c.st.facts.upperLin(nodes[a].vals[i], nodes[b].vals[i]); k2 && u2 < u {
					u = u2
				}
				if u > worst {
					worst = u
				}
			}
			if !ok {
				continue
			}
			nm := nodes[a].name + "-" + nodes[b].name
			if j.iter >= 3 {
				pb, had := j.prevB[nm]
				switch {
				case had && worst <= pb.up:
				case had && worst <= -1:
					// less than is what most loops keep
					worst = -1
				case had && worst == 0:
				default:
					continue // widen
				}
			}
			j.outB[nm] = bnd{up: worst, hasUp: true}
			es = append(es, jedge{a, b, worst})
		}
	}
	// bounds first; relations only where the bounds do not imply them
	hi := map[int]int64{}
	lo := map[int]int64{}
	for _, x := range es {
		if x.b == np {
			hi[x.a] = x.c
		}
		if x.a == np {
			lo[x.b] = -x.c
		}
	}
	for k := np + 1; k < len(nodes); k++ {
		l, h := j.out.st.facts.bounds(nodes[k].t)
		if l > math.MinInt64/4 {
			lo[k] = l
		}
		if h < math.MaxInt64/4 {
			hi[k] = h
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, x := range es {
			zero := x.a == np || x.b == np
			if zero != (pass == 0) {
				continue
			}
			if !zero {
				h, ok1 := hi[x.a]
				l, ok2 := lo[x.b]
				if ok1 && ok2 && h-l <= x.c {
					continue
				}
			}
			j.out.st.facts.addRaw(nodes[x.a].t, nodes[x.b].t, x.c)
		}
	}
	// decisions inside the loop are forgotten
	return j.out
}

// upperLin bounds a-b when the difference is linear in bounded terms.
func (f *Facts) upperLin(a, b *Term) (int64, bool) {
	d := tSub(a, b)
	if d.isConst() {
		// exact only when neither wraps; positions are lengths and counters
		_, ha := f.bounds2(a)
		la, _ := f.bounds2(a)
		lb, hb := f.bounds2(b)
		if ha < math.MaxInt64/2 && la > math.MinInt64/2 && hb < math.MaxInt64/2 && lb > math.MinInt64/2 {
			return d.k, true
		}
		return 0, false
	}
	_, hi := f.linBounds(d)
	if hi < math.MaxInt64/4 {
		return hi, true
	}
	return 0, false
}

func (f *Facts) intTerms2() []*Term {
	m := map[*Term]bool{}
	for x, es := range f.up {
		m[x] = true
		for y := range es {
			m[y] = true
		}
	}
	var out []*Term
	for t := range m {
		if t != tZero {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (j *joiner) key() string {
	var ks []string
	for k, b := range j.outB {
		ks = append(ks, fmt.Sprintf("%s<=%d", k, b.up))
	}
	sort.Strings(ks)
	return j.keyb.String() + "\n" + strings.Join(ks, ";")
}

// term joins scalar values.
func (j *joiner) term(name string, vs []*Term) *Term {
	if j.record != nil {
		r := make([]Value, len(vs))
		for i, v := range vs {
			r[i] = v
		}
		j.record(name, r)
	}
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%d,", v.id)
	}
	if p, ok := j.memo[sb.String()]; ok {
		return p.sym
	}
	s := freshSym(vs[0].kind, name)
	isLen := true
	for _, v := range vs {
		if vs[0].kind == KInt {
			_ = v
		}
	}
	_ = isLen
	p := &jpos{name, s, vs}
	j.memo[sb.String()] = p
	j.pos = append(j.pos, p)
	j.names[s] = name
	return s
}

func (j *joiner) joinLazy(id int) {
	b0 := j.base.st.binds[id]
	same := true
	for _, c := range j.in {
		if c.st.binds[id] != b0 {
			same = false
		}
	}
	if same {
		return
	}
	var s AVal
	l := &LazyV{id}
	for i := range j.in {
		if i == 0 && j.l != nil {
			s = &AShape{s: b0.shape}
			continue
		}
		f := j.folders[i]
		a := f.fold(l, nil, fmt.Sprintf("%s.lz%s", j.ctx, b0.why))
		s, _ = j.e.joinAVal(s, a, j.ctx)
	}
	sh, ok := s.(*AShape)
	if !ok {
		undec("join of lazy values at %s: %v", j.ctx, s)
	}
	n := *b0
	if j.l != nil && j.e.shapeWithin(sh.s, b0.shape) {
		n.shape = b0.shape
	} else {
		n.shape = sh.s
	}
	j.out.st.binds[id] = &n
	if j.entry != nil && j.entry.st.binds[id] == nil {
		// made by an earlier join: described where it is used
		if !j.e.shapeWithin(n.shape, b0.shape) {
			fmt.Fprintf(&j.keyb, "grown %d\n", j.iter)
		}
		return
	}
	fmt.Fprintf(&j.keyb, "lazy%d=%s\n", id, j.e.flatten(n.shape))
}

func (j *joiner) val(name string, vs []Value, t types.Type) Value {
	allTerm, allSame := true, true
	for i := range vs {
		vs[i] = j.in[i].st.resolveKeep(vs[i])
		if _, ok := vs[i].(*Term); !ok {
			allTerm = false
		}
		if !valueEq(vs[i], vs[0]) {
			allSame = false
		}
	}
	if !allTerm && j.record != nil {
		j.record(name, append([]Value(nil), vs...))
	}
	if allTerm {
		ts := make([]*Term, len(vs))
		for i, v := range vs {
			ts[i] = v.(*Term)
		}
		return j.term(name, ts)
	}
	if allSame {
		if l, ok := vs[0].(*LazyV); ok {
			if _, ok := j.base.st.binds[l.id]; ok {
				return vs[0]
			}
		} else {
			switch x := vs[0].(type) {
			case *PtrV:
				if j.base.st.obj(x.obj) != nil {
					return vs[0]
				}
			case *SliceV, *MapV:
				return j.sliceOrSame(name, vs, t)
			case *ElemV:
			default:
				return vs[0]
			}
		}
	}
	allSlice, allStruct, allBytes, allIface, allErrNil := true, true, true, true, true
	for _, v := range vs {
		if _, ok := asSlice(v); !ok {
			allSlice = false
		}
		if _, ok := v.(*StructV); !ok {
			allStruct = false
		}
		if _, ok := v.(*BytesV); !ok {
			allBytes = false
		}
		if iv, ok := v.(*IfaceV); !ok || !types.Identical(iv.T, iface0(vs[0])) {
			allIface = false
		}
		switch v.(type) {
		case *ErrV, NilV:
		default:
			allErrNil = false
		}
	}
	_, isSlice := t.Underlying().(*types.Slice)
	switch {
	case allSlice && isSlice:
		return j.sliceOrSame(name, vs, t)
	case allStruct:
		s0 := vs[0].(*StructV)
		st := s0.T.Underlying().(*types.Struct)
		n := &StructV{T: s0.T}
		for k := range s0.F {
			var fs []Value
			for _, v := range vs {
				fs = append(fs, v.(*StructV).F[k])
			}
			n.F = append(n.F, j.val(fmt.Sprintf("%s.%s", name, st.Field(k).Name()), fs, st.Field(k).Type()))
		}
		return n
	case allBytes:
		ts := make([]*Term, len(vs))
		for i, v := range vs {
			ts[i] = v.(*BytesV).t
		}
		return &BytesV{j.term(name, ts)}
	case allIface && !allErrNil:
		var fs []Value
		for _, v := range vs {
			fs = append(fs, v.(*IfaceV).V)
		}
		it := vs[0].(*IfaceV).T
		return &IfaceV{it, j.val(name, fs, it)}
	}
	switch vs[0].(type) {
	case *FloatV:
		return &FloatV{freshSym(KOther, name)}
	case *ExtV:
		var ts []*Term
		for _, v := range vs {
			x, ok := v.(*ExtV)
			if !ok {
				undec("join at %s", name)
			}
			ts = append(ts, x.text)
		}
		return &ExtV{T: vs[0].(*ExtV).T, text: j.term(name, ts)}
	case *RunesV, *UnkV:
		if _, ok := vs[0].(*RunesV); ok {
			return &RunesV{freshSym(KStr, name), 0}
		}
	}
	var a AVal
	for i, v := range vs {
		if j.l == nil {
			j.folders[i].tagOwner = j.ctx
		}
		x := j.folders[i].fold(v, t, j.ctx+"."+name)
		a, _ = j.e.joinAVal(a, x, j.ctx+"."+name)
	}
	if any, ok := a.(*AAny); ok {
		undec("%s", any.why)
	}
	fmt.Fprintf(&j.keyb, "%s=%s\n", name, j.e.avalString(a))
	old := j.e.scope
	j.e.scope = j.scope
	defer func() { j.e.scope = old }()
	return j.e.instantiate(j.out.st, a, name, nil, nil)
}

func iface0(v Value) types.Type {
	if iv, ok := v.(*IfaceV); ok {
		return iv.T
	}
	return types.Typ[types.Invalid]
}

// resolveKeep follows chosen alternatives to scalars and non-objects, but
// keeps lazies whose identity matters.
func (s *State) resolveKeep(v Value) Value {
	l, ok := v.(*LazyV)
	if !ok {
		return v
	}
	b := s.binds[l.id]
	if b == nil || b.val == nil {
		return v
	}
	return s.resolve(v)
}

func valueEq(a, b Value) bool {
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && *x == *y
	case *LazyV:
		y, ok := b.(*LazyV)
		return ok && x.id == y.id
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && *x == *y
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !valueEq(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *BytesV:
		y, ok := b.(*BytesV)
		return ok && x.t == y.t
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && valueEq(x.V, y.V)
	case *ErrV:
		y, ok := b.(*ErrV)
		return ok && (x == y || x.site == y.site && x.class == y.class)
	case *UnkV:
		y, ok := b.(*UnkV)
		return ok && x.tag == y.tag
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !valueEq(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ExtV:
		y, ok := b.(*ExtV)
		return ok && x.text == y.text
	case TupleV:
		return false
	}
	return a == b
}

func (j *joiner) sliceOrSame(name string, vs []Value, t types.Type) Value {
	if _, ok := vs[0].(*MapV); ok {
		return vs[0]
	}
	ss := make([]*SliceV, len(vs))
	sameObj, mayNil := true, false
	var vec strings.Builder
	for i, v := range vs {
		s, _ := asSlice(v)
		ss[i] = s
		if s.obj != ss[0].obj {
			sameObj = false
		}
		mayNil = mayNil || s.mayNil
		fmt.Fprintf(&vec, "%d:%d:%d,", s.obj, s.lo.id, s.n.id)
	}
	if v, ok := j.slmemo[vec.String()]; ok {
		return v
	}
	ns := make([]*Term, len(ss))
	for i, s := range ss {
		ns[i] = s.n
	}
	n := j.term(name+".len", ns)
	if !n.isConst() {
		j.out.st.facts.addLe(tZero, n, 0)
		j.out.st.facts.addLe(n, tZero, maxLen)
	}
	if sameObj && ss[0].obj < 0 {
		return NilV{}
	}
	if sameObj && j.base.st.obj(ss[0].obj) != nil {
		los := make([]*Term, len(ss))
		for i, s := range ss {
			los[i] = s.lo
		}
		r := &SliceV{obj: ss[0].obj, lo: j.term(name+".lo", los), n: n, mayNil: mayNil}
		j.slmemo[vec.String()] = r
		return r
	}
	// different backing arrays: one summary for all
	id := j.e.id()
	et := t.Underlying().(*types.Slice).Elem()
	r := &SliceV{obj: id, lo: tZero, n: n, mayNil: mayNil}
	j.slmemo[vec.String()] = r
	j.out.st.heap[id] = &Obj{T: t, V: &SeqV{ET: et}, site: name}
	var cs []Value
	if j.retT != nil && n.isConst() {
		// outcomes of a call with lists of the same length
		for i, s := range ss {
			if s.obj < 0 || !s.lo.isConst() {
				break
			}
			seq, ok := j.in[i].st.obj(s.obj).V.(*SeqV)
			if !ok || !seq.exact {
				break
			}
			cs = append(cs, &SeqV{exact: true, ET: et, elems: seq.elems[s.lo.k : s.lo.k+n.k]})
		}
		if len(cs) == len(ss) {
			j.out.st.heap[id].V = j.content(name+".elems", cs, t)
			return r
		}
		cs = nil
	}
	for i, s := range ss {
		if s.obj < 0 {
			cs = append(cs, &SeqV{exact: true, ET: et})
			continue
		}
		seq, ok := j.in[i].st.obj(s.obj).V.(*SeqV)
		if !ok {
			undec("slice backing at %s", name)
		}
		if s.lo != tZero || seq.exact {
			f := j.folders[i]
			el := f.seqElem(seq, s.lo, tAdd(s.lo, s.n), j.ctx+"."+name)
			seq = &SeqV{ET: et, lo: el, split: s.n, gen: j.e.contentOf(j.in[i].st, s), glen: s.n}
		}
		cs = append(cs, seq)
	}
	v := j.content(name+".elems", cs, t)
	if sv, ok := v.(*SeqV); ok && sv.exact {
		v = j.e.toSummary(j.out.st, sv, j.ctx+"."+name, j.stable)
	}
	j.out.st.heap[id].V = v
	snap := true
	for i, s := range ss {
		snap = snap && j.in[i].st.isSnapshot(s)
	}
	if snap {
		j.out.st.heap[id].site = "snapshot"
		j.out.st.heap[id].full = n
	}
	j.describe(name+".elems", v)
	return r
}

// content joins the contents of objects.
func (j *joiner) content(name string, vs []Value, t types.Type) Value {
	if _, ok := vs[0].(*SeqV); ok {
		allExact := true
		for _, v := range vs {
			s, ok := v.(*SeqV)
			if !ok {
				undec("join of sequence contents at %s", name)
			}
			if !s.exact || len(s.elems) != len(vs[0].(*SeqV).elems) {
				allExact = false
			}
		}
		et := vs[0].(*SeqV).ET
		if allExact {
			n := &SeqV{exact: true, ET: et}
			for k := range vs[0].(*SeqV).elems {
				var es []Value
				for _, v := range vs {
					es = append(es, v.(*SeqV).elems[k])
				}
				n.elems = append(n.elems, j.val(fmt.Sprintf("%s[%d]", name, k), es, et))
			}
			return n
		}
		n := &SeqV{ET: et}
		var splits []*Term
		ctx := j.ctx + "." + name
		var lo, hi AVal
		var los, his []AVal
		var gens, glens []*Term
		for i, v := range vs {
			f := j.folders[i]
			s := v.(*SeqV)
			if s.exact {
				k := tInt(int64(len(s.elems)))
				s = &SeqV{ET: et, lo: f.seqElem(s, nil, nil, ctx), split: k, gen: j.e.listCode(j.in[i].st, s.elems), glen: k}
			} else {
				s = j.e.unfocused(f, s, ctx)
			}
			sp := s.split
			if sp == nil {
				sp = tZero
			}
			los = append(los, f.refold(s.lo, ctx))
			his = append(his, f.refold(s.hi, ctx))
			splits = append(splits, sp)
			gens, glens = append(gens, s.gen), append(glens, s.glen)
		}
		for i := range vs {
			lo, _ = j.e.joinAVal(lo, los[i], ctx+".lo")
			hi, _ = j.e.joinAVal(hi, his[i], ctx+".hi")
		}
		if j.iter >= 3 {
			// widen bounds that still move
			if b, ok := vs[0].(*SeqV); ok && !b.exact {
				lo = widenAVal(los[0], lo)
				hi = widenAVal(his[0], hi)
			}
		}
		n.lo, n.hi = lo, hi
		n.split = j.term(name+".split", splits)
		if j.e.seqMode {
			known := true
			for i := range gens {
				known = known && gens[i] != nil && glens[i] != nil
			}
			if known {
				n.gen, n.glen = j.term(name+".gen", gens), j.term(name+".glen", glens)
				j.e.genLen[n.gen] = n.glen
			}
		}
		for _, v := range []AVal{n.lo, n.hi} {
			if a, ok := v.(*AAny); ok {
				undec("%s", a.why)
			}
		}
		return n
	}
	if m0, ok := vs[0].(*MapC); ok {
		for _, v := range vs {
			if v != vs[0] {
				return &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, T: m0.T}
			}
		}
		return m0
	}
	return j.val(name, vs, t)
}

// widenAVal drops numeric bounds of n that are weaker than those of old.
func widenAVal(old, n AVal) AVal {
	switch x := n.(type) {
	case *AScalar:
		o, ok := old.(*AScalar)
		if !ok {
			return n
		}
		r := &AScalar{kind: x.kind, consts: x.consts, bounds: map[*Term]bnd{}, widen: x.widen}
		for t, b := range x.bounds {
			ob := o.bounds[t]
			if b.hasUp && (!ob.hasUp || b.up > ob.up) {
				b.hasUp = false
			}
			if b.hasDn && (!ob.hasDn || b.dn > ob.dn) {
				b.hasDn = false
			}
			if b.hasUp || b.hasDn {
				r.bounds[t] = b
			}
		}
		return r
	case *AStruct:
		o, ok := old.(*AStruct)
		if !ok {
			return n
		}
		r := &AStruct{T: x.T}
		for i := range x.F {
			r.F = append(r.F, widenAVal(o.F[i], x.F[i]))
		}
		return r
	}
	return n
}

// describe adds a value to the stability key with joined symbols named by
// position.
func (j *joiner) describe(name string, v Value) {
	fmt.Fprintf(&j.keyb, "%s:", name)
	j.descVal(v, 0)
	j.keyb.WriteString("\n")
}

func (j *joiner) descTerm(t *Term) {
	if t == nil {
		j.keyb.WriteString("_")
		return
	}
	if n, ok := j.names[t]; ok {
		j.keyb.WriteString("<" + n + ">")
		return
	}
	if t.op == "lin" {
		for i, a := range t.args {
			fmt.Fprintf(&j.keyb, "+%d*", t.coefs[i])
			j.descTerm(a)
		}
		fmt.Fprintf(&j.keyb, "+%d", t.k)
		return
	}
	if j.stable(t) {
		fmt.Fprintf(&j.keyb, "t%d", t.id)
		return
	}
	j.keyb.WriteString("?")
}

func (j *joiner) descVal(v Value, d int) {
	if d > 4 {
		return
	}
	switch x := v.(type) {
	case *Term:
		j.descTerm(x)
	case *StructV:
		for _, f := range x.F {
			j.descVal(f, d+1)
			j.keyb.WriteString(",")
		}
	case *SliceV:
		j.keyb.WriteString("slice lo ")
		j.descTerm(x.lo)
		j.keyb.WriteString(" n ")
		j.descTerm(x.n)
	case *SeqV:
		if x.exact {
			for _, el := range x.elems {
				j.descVal(el, d+1)
				j.keyb.WriteString(",")
			}
			return
		}
		j.keyb.WriteString("lo " + j.e.avalString(x.lo) + " hi " + j.e.avalString(x.hi) + " split ")
		j.descTerm(x.split)
	case *IfaceV:
		j.descVal(x.V, d+1)
	case *BytesV:
		j.descTerm(x.t)
	case *ExtV:
		j.descTerm(x.text)
	case *LazyV:
		if b := j.out.st.binds[x.id]; b != nil && b.val == nil {
			j.keyb.WriteString(j.e.flatten(b.shape).String())
		}
	case *PtrV:
		fmt.Fprintf(&j.keyb, "p")
	default:
		fmt.Fprintf(&j.keyb, "%T", v)
	}
}

func (e *Engine) avalString(a AVal) string {
	switch x := a.(type) {
	case nil:
		return "none"
	case *AScalar:
		s := "sc"
		for _, c := range x.consts {
			s += " " + c.String()
		}
		var ks []string
		for t, b := range x.bounds {
			ks = append(ks, fmt.Sprintf("%s%v%d%v%d", t, b.hasUp, b.up, b.hasDn, b.dn))
		}
		sort.Strings(ks)
		return s + strings.Join(ks, ";")
	case *AShape:
		return "shape " + e.flatten(x.s).String()
	case *AStruct:
		s := "{"
		for _, f := range x.F {
			s += e.avalString(f) + ","
		}
		return s + "}"
	case *AObj:
		s := "&" + shortType(x.T) + "{"
		for _, f := range x.F {
			s += e.avalString(f) + ","
		}
		return s + "}"
	case *ASlice:
		if x.exact {
			s := "["
			for _, f := range x.elems {
				s += e.avalString(f) + ","
			}
			return s + fmt.Sprintf("]%v", x.mayNil)
		}
		return "[]" + e.avalString(x.elem) + " n " + e.avalString(x.n) + fmt.Sprint(x.mayNil)
	case *AIface:
		return shortType(x.T) + "(" + e.avalString(x.V) + ")"
	case *ABytes:
		return "bytes(" + e.avalString(x.s) + ")"
	case *AAny:
		return "any(" + x.why + ")"
	case *AErr:
		return "err " + x.e.class + x.e.site
	case *AFunc:
		return "func " + x.f.fn.String()
	case *AArgP:
		return fmt.Sprintf("arg%d.%s", x.i, x.path)
	case *ALz:
		return fmt.Sprintf("lz%d", x.i)
	case *AUnk:
		return "unk " + x.u.tag
	}
	return fmt.Sprintf("%T", a)
}

// flagged: the loop has a boolean variable that its head tests.
func (l *loop) flagged() bool {
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if k, ok := ph.Type().Underlying().(*types.Basic); ok && k.Kind() == types.Bool {
			for _, r := range *ph.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && l.body[u.Block()] {
					return true
				}
				if _, ok := r.(*ssa.If); ok && l.body[r.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// peel splits a state that comes back to the head of a loop by the boolean
// variables of the loop: states that leave it at once by the tests at the
// head are given as exits.
func (e *Engine) peel(fr *Frame, c *Cfg, l *loop) (back []*Cfg, left []exitCfg) {
	if !l.flagged() {
		return []*Cfg{c}, nil
	}
	states := []*Cfg{c}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || k.Kind() != types.Bool {
			continue
		}
		var next []*Cfg
		for _, s := range states {
			t, ok := s.env[ph].(*Term)
			if !ok || s.st.facts.truth(t) >= 0 {
				next = append(next, s)
				continue
			}
			for _, v := range []bool{true, false} {
				x := s.clone()
				if x.st.facts.assume(t, v) {
					x.env[ph] = tFalse
					if v {
						x.env[ph] = tTrue
					}
					next = append(next, x)
				}
			}
		}
		states = next
	}
	drained := false
	for _, s := range states {
		if xs, ok := e.drain(fr, s, l); ok {
			drained = true
			left = append(left, xs...)
		} else {
			back = append(back, s)
		}
	}
	if !drained {
		return []*Cfg{c}, nil
	}
	return back, left
}

// drain follows the tests at the head of a loop; it fails unless all ways
// leave the loop without doing anything.
func (e *Engine) drain(fr *Frame, c *Cfg, l *loop) (out []exitCfg, ok bool) {
	type at struct {
		c *Cfg
		b *ssa.BasicBlock
	}
	work := []at{{c.clone(), l.head}}
	for n := 0; len(work) > 0; n++ {
		if n > 8 {
			return nil, false
		}
		w := work[0]
		work = work[1:]
		for i, in := range w.b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if w.b != l.head {
					return nil, false
				}
			case *ssa.DebugRef:
			case *ssa.BinOp, *ssa.UnOp:
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					return nil, false
				}
				if k, ok := x.(ssa.Value).Type().Underlying().(*types.Basic); !ok || k.Kind() != types.Bool {
					return nil, false
				}
				cs := e.step(fr, w.c, in)
				if len(cs) != 1 {
					return nil, false
				}
				w.c = cs[0]
			case *ssa.If:
				t, isT := e.get(fr, w.c, x.Cond).(*Term)
				if !isT || i != len(w.b.Instrs)-1 {
					return nil, false
				}
				for k, v := range []bool{true, false} {
					s := w.c.clone()
					if !s.st.facts.assume(t, v) {
						continue
					}
					if n := w.b.Succs[k]; l.body[n] {
						if n == l.head {
							return nil, false
						}
						work = append(work, at{s, n})
					} else {
						out = append(out, exitCfg{s, n, w.b})
					}
				}
			default:
				return nil, false
			}
		}
	}
	return out, true
}

// collected remembers what has been gathered so far, for an attempt that may
// be given up.
func (e *Engine) collected(lc *loopCtx) (undo func()) {
	type mark struct {
		lc           *loopCtx
		backs, exits int
	}
	var ms []mark
	for ; lc != nil; lc = lc.parent {
		m := mark{lc: lc}
		if lc.backs != nil {
			m.backs = len(*lc.backs)
		}
		if lc.exits != nil {
			m.exits = len(*lc.exits)
		}
		ms = append(ms, m)
	}
	recs := len(e.loopRecs)
	return func() {
		for _, m := range ms {
			if m.lc.backs != nil {
				*m.lc.backs = (*m.lc.backs)[:m.backs]
			}
			if m.lc.exits != nil {
				*m.lc.exits = (*m.lc.exits)[:m.exits]
			}
		}
		e.loopRecs = e.loopRecs[:recs]
	}
}
