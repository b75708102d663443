package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine is an abstract interpreter of the repository's SSA form: it follows
// every path with symbolic scalars, joins states at loop heads and
// summarises recursive functions over regular sets of trees.
type Engine struct {
	commandType *Term // node type of the command being executed, if it is one constant
	kept        map[string]*Obl
	ns          string // prefix of collapsed nonterminals and summaries
	readerFns   map[*ssa.Function]bool
	readerInv   map[string]bool
	collGroup   string // the reader whose arguments are collapsed
	collRound   int
	collSeen    map[string]*Alt

	p             *Prog
	nts           map[string]*NT
	changed       bool
	round         int
	sums          map[string]*Summary
	rec           map[*ssa.Function]bool
	cut           map[*ssa.Function]bool // the recursive functions that are summarised
	recInv        map[string]bool
	stubs         map[string]stubFn // by function name relative to the module
	istubs        map[string]stubFn // invoke: "pkg.Iface.Method"
	recordType    types.Type        // stores into it are noted as events
	beforeB       Value             // an engine instance before a command
	loops         map[*ssa.Function]*loopInfo
	cdeps         map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock
	sumKey        string
	obls          map[string]*Obl
	oblPos        map[string]string
	globals       map[*ssa.Global]*PtrV
	steps         int
	maxStep       int
	trace         bool
	analysedFns   map[*ssa.Function]bool
	analysedSites map[ssa.Instruction]bool
	noMerge       bool
	lastNeed      string
	onCall        func(fr *Frame, c *Cfg, callee *ssa.Function, args []Value, site ssa.Instruction)
	onReturn      func(fr *Frame, c *Cfg, ret []Value)
	feederT       types.Type
	atoiSites     map[string]bool
	startShape    *Shape
	cur           *Frame
	curIn         ssa.Instruction
	mute          int
	sumCtx        string
	maxOuts       map[string]int
	mergeCalls    bool
	joins         bool // name texts joined from lists
	seqMode       bool // keep track of the elements of lists
	prov          *prov
	provT         map[*Term]*prov
	provL         map[int]*prov
	provG         map[*Term]*prov
	genLen        map[*Term]*Term
	piecesOf      map[*Term]*Term
	queueTo       func(st *State, q *PtrV, why string) // how execution changes a dice queue
	inputs        map[*Term]bool
	sharing       map[int][]int
	loopRecs      []*loopRec
	recOf         map[*Term]*recPos
	recOfLazy     map[int]*recPos
	keepApart     func(st *State, ret []Value) string // outcomes that differ in this are not merged
	keyBools      bool
	boolAlts      map[string]*boolSet
	scope         *tagScope
	parserObls    map[string]*Obl
	initObls      map[string]*Obl
	grammar       *Grammar
	gv            *gval
}

type stubFn func(e *Engine, fr *Frame, st *State, args []Value, site ssa.Instruction) []Outcome

type Outcome struct {
	st  *State
	ret []Value
}

type Frame struct {
	fn      *ssa.Function
	binds   []Value
	parent  *Frame
	site    ssa.Instruction // call site in parent
	siteDec map[*ssa.BasicBlock]bool
	depth   int
	ctx     string
}

// Cfg is one execution point's data.
type Cfg struct {
	env    map[ssa.Value]Value
	st     *State
	dec    map[*ssa.BasicBlock]bool // branch blocks -> the last decision was open
	defers []deferred
}

type deferred struct {
	common *ssa.CallCommon
	args   []Value
	fnv    Value
	site   ssa.Instruction
}

func (c *Cfg) clone() *Cfg {
	n := &Cfg{env: make(map[ssa.Value]Value, len(c.env)+8), st: c.st.clone(), dec: make(map[*ssa.BasicBlock]bool, len(c.dec)+2), defers: append([]deferred(nil), c.defers...)}
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range c.dec {
		n.dec[k] = v
	}
	return n
}

func (c *Cfg) withState(st *State) *Cfg {
	n := &Cfg{env: make(map[ssa.Value]Value, len(c.env)+8), st: st, dec: make(map[*ssa.BasicBlock]bool, len(c.dec)+2), defers: append([]deferred(nil), c.defers...)}
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range c.dec {
		n.dec[k] = v
	}
	return n
}

func newEngine(p *Prog) *Engine {
	e := &Engine{
		p: p, nts: map[string]*NT{}, sums: map[string]*Summary{}, boolAlts: map[string]*boolSet{},
		stubs: map[string]stubFn{}, istubs: map[string]stubFn{},
		loops: map[*ssa.Function]*loopInfo{}, cdeps: map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{},
		obls: map[string]*Obl{}, globals: map[*ssa.Global]*PtrV{},
		maxStep:       30000000,
		analysedFns:   map[*ssa.Function]bool{},
		analysedSites: map[ssa.Instruction]bool{},
		atoiSites:     map[string]bool{},
	}
	e.computeRecursion()
	e.installStubs()
	e.initGlobals()
	return e
}

// ids are never reused, not even by another engine: the objects of package
// initialisation are shared.
var lastID = 1

func (e *Engine) id() int { lastID++; return lastID }

// ---- obligations ----

func (e *Engine) obl(ok bool, rule string, fr *Frame, pos token.Pos, what, detail string) {
	fn := "?"
	if fr != nil {
		fn = e.p.FuncName(fr.fn)
	}
	key := rule + "|" + fn + ": " + what
	o := e.obls[key]
	if o == nil {
		o = &Obl{Rule: rule, Construct: fn + ": " + what, Pos: e.p.Pos(pos), OK: true}
		e.obls[key] = o
	}
	if !ok && o.OK && e.mute == 0 {
		o.OK = false
		o.Detail = detail + e.stackString(fr)
		o.Pos = e.p.Pos(pos)
		if e.trace {
			fmt.Println("  FAILED", o.Rule, o.Construct, o.Detail)
		}
	}
}

func (e *Engine) stackString(fr *Frame) string {
	var ss []string
	for f := fr; f != nil && len(ss) < 8; f = f.parent {
		ss = append(ss, e.p.FuncName(f.fn))
	}
	s := " [reached through " + strings.Join(ss, " <- ")
	if e.sumKey != "" {
		s += " in " + e.sumKey
	}
	return s + "]"
}

// report transfers the obligations to the report.
func (e *Engine) report(r *Report, rules ...string) {
	want := map[string]bool{}
	for _, x := range rules {
		want[x] = true
	}
	var ks []string
	for k := range e.obls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := e.obls[k]
		if len(want) > 0 && !want[o.Rule] {
			continue
		}
		r.add(*o)
	}
}

// ---- values of operands ----

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsFloat != 0:
			return &FloatV{namedSym(KOther, "0.0")}
		}
		return NilV{}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !e.p.InRepo(n.Obj().Pkg()) {
			return &ExtV{T: t, text: tStr("")}
		}
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &SeqV{exact: true, ET: u.Elem()}
		if u.Len() > 256 {
			undec("array of %d elements", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			s.elems = append(s.elems, e.zero(u.Elem()))
		}
		return s
	}
	return NilV{}
}

// havoc is an arbitrary value of type t.
func (e *Engine) havoc(t types.Type, name string, st *State) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			s := freshSym(KInt, name)
			switch u.Kind() {
			case types.Uint8:
				st.facts.addLe(tZero, s, 0)
				st.facts.addLe(s, tZero, 255)
			case types.Int32:
				st.facts.addLe(s, tZero, math.MaxInt32)
				st.facts.addLe(tZero, s, math.MaxInt32)
			}
			return s
		case u.Info()&types.IsBoolean != 0:
			return freshSym(KBool, name)
		case u.Info()&types.IsString != 0:
			return freshSym(KStr, name)
		case u.Info()&types.IsFloat != 0:
			return &FloatV{freshSym(KOther, name)}
		}
		return &UnkV{t, name}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !e.p.InRepo(n.Obj().Pkg()) {
			return &ExtV{T: t, text: freshSym(KStr, name)}
		}
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.havoc(u.Field(i).Type(), name+"."+u.Field(i).Name(), st))
		}
		return s
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &BytesV{freshSym(KStr, name)}
		}
		n := freshSym(KInt, "len:"+name)
		o := e.id()
		st.heap[o] = &Obj{T: t, V: &SeqV{ET: u.Elem(), hi: e.havocAVal(u.Elem(), name+"[]"), gen: e.newGen(name, n), glen: n}, site: name}
		return &SliceV{obj: o, lo: tZero, n: n, mayNil: true}
	case *types.Interface:
		if isErrorType(t) {
			return &ErrV{class: "ext", site: name, msg: freshSym(KStr, name+".Error()")}
		}
		return &UnkV{t, name}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.havoc(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), st))
		}
		return tv
	}
	return &UnkV{t, name}
}

func (e *Engine) havocAVal(t types.Type, name string) AVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return &AScalar{kind: KInt}
		case u.Info()&types.IsBoolean != 0:
			return &AScalar{kind: KBool}
		case u.Info()&types.IsString != 0:
			return &AScalar{kind: KStr}
		}
	case *types.Struct:
		s := &AStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.havocAVal(u.Field(i).Type(), name))
		}
		return s
	}
	return &AUnk{&UnkV{t, name}}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) get(fr *Frame, c *Cfg, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.global(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
		undec("free variable %s", x.Name())
	}
	r, ok := c.env[v]
	if !ok {
		undec("%s: no value for %s", e.p.FuncName(fr.fn), v.Name())
	}
	return c.st.resolve(r)
}

func (e *Engine) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return e.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Int:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &FloatV{namedSym(KOther, x.Value.String())}
		}
		if i, ok := constant.Int64Val(x.Value); ok {
			return tInt(i)
		}
		if u, ok := constant.Uint64Val(x.Value); ok {
			return tInt(int64(u))
		}
	case constant.Bool:
		return tBool(constant.BoolVal(x.Value))
	case constant.String:
		return tStr(constant.StringVal(x.Value))
	}
	return &FloatV{namedSym(KOther, x.Value.String())}
}

func (e *Engine) global(g *ssa.Global) Value {
	if p, ok := e.globals[g]; ok {
		return p
	}
	id := e.id()
	t := g.Type().(*types.Pointer).Elem()
	var v Value
	if g.Pkg != nil && e.p.InRepo(g.Pkg.Pkg) && !strings.HasSuffix(g.Pkg.Pkg.Path(), "/parser") {
		v = e.zero(t)
	} else {
		v = e.havoc(t, "global:"+g.String(), newState())
		if _, ok := v.(*SliceV); ok {
			v = &UnkV{t, g.String()}
		}
	}
	baseHeap[id] = &Obj{T: t, V: v, site: "global:" + g.String()}
	p := &PtrV{obj: id}
	e.globals[g] = p
	return p
}

// ---- control ----

type loopCtx struct {
	loop      *loop
	mode      string // unroll, collect, final
	iter      int
	open      bool // a test inside the loop was open
	parent    *loopCtx
	backs     *[]*Cfg
	backEdges *[]*ssa.BasicBlock
	exits     *[]exitCfg // final: states leaving the loop
}

type exitCfg struct {
	c       *Cfg
	b, prev *ssa.BasicBlock
}

type loopAbort struct{ lc *loopCtx }

// callFunc interprets fn on args.
func (e *Engine) callFunc(parent *Frame, pc *Cfg, fn *ssa.Function, args, binds []Value, st *State, site ssa.Instruction) []Outcome {
	if fn.Blocks == nil {
		undec("no body for %s", fn)
	}
	fr := &Frame{fn: fn, binds: binds, parent: parent, site: site}
	if parent != nil {
		fr.depth = parent.depth + 1
		n := 0
		for f := parent; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > 8 {
			undec("recursion of %s is not over a tree the analysis knows", e.p.FuncName(fn))
		}
		fr.ctx = parent.ctx
		if site != nil {
			fr.ctx = fmt.Sprintf("%s/%s@%d", parent.ctx, fn.Name(), site.Pos())
		}
	}
	if pc != nil {
		fr.siteDec = pc.dec
	}
	if fr.depth > 80 {
		undec("call depth")
	}
	e.analysedFns[fn] = true
	c := &Cfg{env: map[ssa.Value]Value{}, st: st, dec: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		c.env[p] = args[i]
	}
	if e.onCall != nil {
		e.onCall(parent, c, fn, args, site)
	}
	var base *State
	wm := terms.n
	if e.rec[fn] || e.mergeCalls && e.maxOuts[e.p.FuncName(fn)] > 6 {
		base = st.clone()
	}
	if parent == nil {
		fr.ctx = e.sumCtx
	}
	if e.trace {
		t0 := time.Now()
		defer func() { fnTime[e.p.FuncName(fn)] += time.Since(t0); fnCount[e.p.FuncName(fn)]++ }()
	}
	outs := e.enter(fr, c, fn.Blocks[0], nil, nil)
	raw := len(outs)
	if base != nil {
		outs = e.mergeOutcomes(base, wm, outs, resultTypes(fn.Signature), fr.ctx+"/"+fn.Name())
	}
	if e.maxOuts == nil {
		e.maxOuts = map[string]int{}
	}
	if n := e.p.FuncName(fn); raw > e.maxOuts[n] {
		e.maxOuts[n] = raw
	}
	return outs
}

// enter moves to block b from prev.
func (e *Engine) enter(fr *Frame, c *Cfg, b, prev *ssa.BasicBlock, lc *loopCtx) []Outcome {
	// leaving loops
	for lc != nil && !lc.loop.body[b] {
		if lc.mode == "collect" {
			if lc.exits != nil {
				*lc.exits = append(*lc.exits, exitCfg{c, b, prev})
			}
			return nil
		}
		if lc.exits != nil {
			*lc.exits = append(*lc.exits, exitCfg{c, b, prev})
			return nil
		}
		lc = lc.parent
	}
	li := e.loopInfo(fr.fn)
	if l := li.byHead[b]; l != nil {
		if lc != nil && lc.loop == l {
			// back edge
			switch lc.mode {
			case "unroll":
				lc2 := *lc
				lc2.iter++
				if lc2.iter > 64 || lc.open && lc2.iter > 2 {
					panic(loopAbort{lc})
				}
				// keep identity for aborts
				e.setPhis(fr, c, b, prev)
				return e.body(fr, c, b, 0, e.unrollNext(lc, lc2.iter))
			case "collect":
				e.setPhis(fr, c, b, prev)
				back, left := e.peel(fr, c, l)
				for _, x := range left {
					e.enter(fr, x.c, x.b, x.prev, lc)
				}
				*lc.backs = append(*lc.backs, back...)
				return nil
			default:
				if !l.flagged() {
					return nil
				}
				e.setPhis(fr, c, b, prev)
				_, left := e.peel(fr, c, l)
				var out []Outcome
				for _, x := range left {
					out = append(out, e.enter(fr, x.c, x.b, x.prev, lc)...)
				}
				return out
			}
		}
		return e.runLoop(fr, c, l, prev, lc)
	}
	e.setPhis(fr, c, b, prev)
	return e.body(fr, c, b, 0, lc)
}

func (e *Engine) unrollNext(lc *loopCtx, iter int) *loopCtx {
	n := *lc
	n.iter = iter
	return &n
}

func (e *Engine) setPhis(fr *Frame, c *Cfg, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Value
	}
	var pvs []pv
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{ph, e.get(fr, c, ph.Edges[idx])})
	}
	for _, x := range pvs {
		c.env[x.p] = x.v
	}
}

func (e *Engine) body(fr *Frame, c *Cfg, b *ssa.BasicBlock, i int, lc *loopCtx) []Outcome {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.maxStep {
			undec("step limit")
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			return e.branch(fr, c, b, x, lc)
		case *ssa.Jump:
			return e.enter(fr, c, b.Succs[0], b, lc)
		case *ssa.Return:
			for l := lc; l != nil; l = l.parent {
				if l.mode == "collect" {
					return nil
				}
			}
			var ret []Value
			for _, r := range x.Results {
				ret = append(ret, e.get(fr, c, r))
			}
			if e.onReturn != nil {
				e.onReturn(fr, c, ret)
			}
			return []Outcome{{c.st, ret}}
		case *ssa.Panic:
			e.obl(false, "explicit-panic", fr, x.Pos(), "panic", "an explicit panic is reachable")
			return nil
		}
		cs := e.step(fr, c, in)
		if len(cs) == 1 {
			c = cs[0]
			continue
		}
		var out []Outcome
		for _, cc := range cs {
			out = append(out, e.body(fr, cc, b, i+1, lc)...)
		}
		return out
	}
	undec("block without terminator")
	return nil
}

func (e *Engine) branch(fr *Frame, c *Cfg, b *ssa.BasicBlock, x *ssa.If, lc *loopCtx) []Outcome {
	cv := e.get(fr, c, x.Cond)
	t, ok := cv.(*Term)
	if !ok {
		undec("condition %T", cv)
	}
	r := c.st.facts.truth(t)
	if r >= 0 {
		c.dec[b] = false
		return e.enter(fr, c, b.Succs[1-r], b, lc)
	}
	if lc != nil && lc.mode == "unroll" {
		if !lc.loop.body[b.Succs[0]] || !lc.loop.body[b.Succs[1]] {
			// an early way out of a loop whose end is decided
			if _, counted := lc.loop.head.Instrs[len(lc.loop.head.Instrs)-1].(*ssa.If); !counted || b == lc.loop.head {
				panic(loopAbort{lc})
			}
		}
		lc2 := *lc
		lc2.open = true
		lc = &lc2
	}
	var out []Outcome
	c2 := c.clone()
	c.dec[b] = true
	c2.dec[b] = true
	if c.st.facts.assume(t, true) {
		out = append(out, e.enter(fr, c, b.Succs[0], b, lc)...)
	}
	if c2.st.facts.assume(t, false) {
		out = append(out, e.enter(fr, c2, b.Succs[1], b, lc)...)
	}
	if len(out) > 20000 {
		undec("too many paths in %s", e.p.FuncName(fr.fn))
	}
	return out
}

// ---- instructions ----

func one(c *Cfg) []*Cfg { return []*Cfg{c} }

// materialise chooses an alternative of a lazy value; it returns one
// configuration per alternative with the lazy bound.
func (e *Engine) materialise(c *Cfg, v Value) []*Cfg {
	v = c.st.resolve(v)
	l, ok := v.(*LazyV)
	if !ok {
		return one(c)
	}
	b := c.st.binds[l.id]
	alts := e.altsOf(b.shape)
	orgs := make([]*Shape, len(alts))
	for i, a := range alts {
		orgs[i] = shapeOf(a.nt, a.alt.key)
	}
	if e.mergeCalls && len(alts) > 1 {
		alts, orgs = e.joinAlike(alts, orgs)
	}
	var out []*Cfg
	for i, a := range alts {
		cc := c
		if i < len(alts)-1 {
			cc = c.clone()
		}
		e.choose(cc.st, l, a, orgs[i])
		out = append(out, cc)
	}
	return out
}

// joinAlike makes one alternative of those of the same kind.
func (e *Engine) joinAlike(alts []ntAlt, orgs []*Shape) ([]ntAlt, []*Shape) {
	at := map[string]int{}
	var na []ntAlt
	var no []*Shape
	for i, a := range alts {
		_, isObj := a.alt.v.(*AObj)
		if !isObj || !plain(a.alt.v) {
			na = append(na, a)
			no = append(no, orgs[i])
			continue
		}
		k, ok := at[a.alt.key]
		if !ok {
			at[a.alt.key] = len(na)
			na = append(na, a)
			no = append(no, orgs[i])
			continue
		}
		v, _ := e.joinAVal(na[k].alt.v, a.alt.v, "alike")
		na[k] = ntAlt{na[k].nt, &Alt{key: a.alt.key, v: v}}
		no[k] = no[k].union(orgs[i])
	}
	return na, no
}

// plain: made of scalars and shapes only.
func plain(v AVal) bool {
	switch x := v.(type) {
	case *AScalar, *AShape:
		return true
	case *AObj:
		for _, f := range x.F {
			if !plain(f) {
				return false
			}
		}
		return true
	case *AStruct:
		for _, f := range x.F {
			if !plain(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) choose(st *State, l *LazyV, a ntAlt, org *Shape) {
	b := *st.binds[l.id]
	old := e.scope
	e.scope = b.scope
	oldProv := e.prov
	e.prov = e.provL[l.id]
	val := e.instantiate(st, a.alt.v, a.nt, org, nil)
	e.prov = oldProv
	e.scope = old
	b.val = val
	b.chosen = org
	if iv, ok := val.(*IfaceV); ok {
		b.ivals = iv.V
	}
	st.binds[l.id] = &b
}

// withValue calls f for every materialised form of operand v.
func (e *Engine) each(fr *Frame, c *Cfg, v ssa.Value, f func(c *Cfg, val Value) []*Cfg) []*Cfg {
	val := e.get(fr, c, v)
	if _, ok := val.(*LazyV); !ok {
		return f(c, val)
	}
	var out []*Cfg
	for _, cc := range e.materialise(c, val) {
		out = append(out, f(cc, cc.st.resolve(val))...)
	}
	return out
}

func (e *Engine) step(fr *Frame, c *Cfg, in ssa.Instruction) []*Cfg {
	e.cur, e.curIn = fr, in
	switch x := in.(type) {
	case *ssa.Alloc:
		id := e.id()
		t := x.Type().(*types.Pointer).Elem()
		c.st.heap[id] = &Obj{T: t, V: e.zero(t), site: fmt.Sprintf("%s:%s", fr.fn.Name(), x.Name())}
		c.env[x] = &PtrV{obj: id}
		return one(c)
	case *ssa.BinOp:
		return e.binop(fr, c, x)
	case *ssa.UnOp:
		return e.unop(fr, c, x)
	case *ssa.Store:
		return e.each(fr, c, x.Addr, func(c *Cfg, a Value) []*Cfg {
			v := e.get(fr, c, x.Val)
			if !e.storeTo(fr, c, a, v, x.Pos()) {
				return nil
			}
			return one(c)
		})
	case *ssa.FieldAddr:
		return e.each(fr, c, x.X, func(c *Cfg, a Value) []*Cfg {
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			fname := fieldName(st, x.Field)
			what := "access to field " + fname + " of " + shortType(st)
			switch p := a.(type) {
			case *PtrV:
				e.obl(true, "nil-deref", fr, x.Pos(), what, "")
				c.env[x] = &PtrV{p.obj, pathAdd(p.path, x.Field)}
			case *ElemV:
				c.env[x] = &ElemV{p.obj, p.idx, pathAdd(p.path, x.Field)}
			case *UnkV:
				c.env[x] = &UnkV{x.Type(), p.tag + "." + fname}
			case NilV:
				e.obl(false, "nil-deref", fr, x.Pos(), what, "a nil pointer is dereferenced")
				return nil
			case *ExtV:
				c.env[x] = &UnkV{x.Type(), "ext." + fname}
			default:
				undec("field of %T", a)
			}
			return one(c)
		})
	case *ssa.Field:
		v := e.get(fr, c, x.X)
		switch s := v.(type) {
		case *StructV:
			c.env[x] = s.F[x.Field]
		default:
			c.env[x] = e.havoc(x.Type(), "field", c.st)
		}
		return one(c)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, c, x)
	case *ssa.Index:
		return e.index(fr, c, x)
	case *ssa.Lookup:
		return e.lookup(fr, c, x)
	case *ssa.Slice:
		return e.each(fr, c, x.X, func(c *Cfg, v Value) []*Cfg { return e.slice(fr, c, x, v) })
	case *ssa.MakeSlice:
		n := e.get(fr, c, x.Len).(*Term)
		cp := e.get(fr, c, x.Cap).(*Term)
		what := "make(" + shortType(x.Type()) + ")"
		lo, _ := c.st.facts.bounds2(n)
		_, hi := c.st.facts.bounds2(cp)
		d, okd := c.st.facts.upper(n, cp)
		ok := lo >= 0 && hi <= maxLen && okd && d <= 0
		e.obl(ok, "make-size", fr, x.Pos(), what, fmt.Sprintf("length %s in [%d,..], capacity %s up to %d: the size is not bounded by anything checked before", n, lo, cp, hi))
		if !ok {
			c.st.facts.addLe(tZero, n, 0)
			c.st.facts.addLe(n, tZero, maxLen)
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		id := e.id()
		seq := &SeqV{ET: et}
		if n.isConst() && n.k <= 64 {
			seq.exact = true
			for i := int64(0); i < n.k; i++ {
				seq.elems = append(seq.elems, e.zero(et))
			}
		} else {
			seq.hi = e.foldElem(c.st, e.zero(et), et, fr.ctx+"/make", nil)
			if e.seqMode {
				seq.gen, seq.glen = app(KOther, "zeros", n), n
			}
		}
		c.st.heap[id] = &Obj{T: x.Type(), V: seq, site: "make"}
		c.env[x] = &SliceV{obj: id, lo: tZero, n: n}
		return one(c)
	case *ssa.MakeMap:
		id := e.id()
		c.st.heap[id] = &Obj{T: x.Type(), V: &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, closed: true, T: x.Type().Underlying().(*types.Map)}, site: "map"}
		c.env[x] = &MapV{id}
		return one(c)
	case *ssa.MapUpdate:
		return e.mapUpdate(fr, c, x)
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.get(fr, c, b))
		}
		c.env[x] = f
		return one(c)
	case *ssa.MakeInterface:
		v := e.get(fr, c, x.X)
		switch v.(type) {
		case NilV:
			c.env[x] = &IfaceV{x.X.Type(), v}
			return one(c)
		case *LazyV:
			if e.mayBeNil(c.st, v.(*LazyV)) {
				var out []*Cfg
				for _, cc := range e.materialise(c, v) {
					r := cc.st.resolve(v)
					if _, isNil := r.(NilV); isNil {
						cc.env[x] = &IfaceV{x.X.Type(), r}
					} else {
						cc.env[x] = r
					}
					out = append(out, cc)
				}
				return out
			}
			c.env[x] = v
			return one(c)
		case *PtrV, *ErrV, *UnkV, *ElemV:
			c.env[x] = v
			return one(c)
		}
		c.env[x] = &IfaceV{x.X.Type(), v}
		return one(c)
	case *ssa.ChangeInterface:
		c.env[x] = e.get(fr, c, x.X)
		return one(c)
	case *ssa.ChangeType:
		v := e.get(fr, c, x.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{T: x.Type(), F: s.F}
		}
		c.env[x] = v
		return one(c)
	case *ssa.Convert:
		c.env[x] = e.convert(fr, c, x)
		return one(c)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, c, x)
	case *ssa.Extract:
		v := e.get(fr, c, x.Tuple)
		tv, ok := v.(TupleV)
		if !ok {
			undec("extract from %T", v)
		}
		c.env[x] = tv[x.Index]
		return one(c)
	case *ssa.Range:
		c.env[x] = &IterV{over: e.get(fr, c, x.X)}
		return one(c)
	case *ssa.Next:
		return e.next(fr, c, x)
	case *ssa.Call:
		return e.doCall(fr, c, x, x.Common())
	case *ssa.Defer:
		d := deferred{common: x.Common(), site: x}
		if !x.Common().IsInvoke() {
			d.fnv = e.get(fr, c, x.Common().Value)
		} else {
			d.fnv = e.get(fr, c, x.Common().Value)
		}
		for _, a := range x.Common().Args {
			d.args = append(d.args, e.get(fr, c, a))
		}
		c.defers = append(c.defers, d)
		return one(c)
	case *ssa.RunDefers:
		return e.runDefers(fr, c)
	}
	undec("%s: instruction %T", e.p.FuncName(fr.fn), in)
	return nil
}

func (e *Engine) runDefers(fr *Frame, c *Cfg) []*Cfg {
	cs := one(c)
	for len(cs) > 0 && len(cs[0].defers) > 0 {
		var next []*Cfg
		for _, cc := range cs {
			d := cc.defers[len(cc.defers)-1]
			cc.defers = cc.defers[:len(cc.defers)-1]
			outs := e.invoke(fr, cc, d.common, d.fnv, d.args, d.site)
			for i, o := range outs {
				n := cc
				if i < len(outs)-1 {
					n = cc.withState(o.st)
				} else {
					n.st = o.st
				}
				next = append(next, n)
			}
		}
		cs = next
	}
	return cs
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (e *Engine) storeTo(fr *Frame, c *Cfg, a, v Value, pos token.Pos) bool {
	switch p := a.(type) {
	case *PtrV:
		if o, ok := baseHeap[p.obj]; ok && c.st.heap[p.obj] == nil {
			_ = o
			c.st.event("global-store", e.p.Pos(pos))
		}
		if e.recordType != nil {
			if o := c.st.obj(p.obj); o != nil && types.Identical(o.T, e.recordType) {
				c.st.event("record-write", e.p.Pos(pos))
			}
		}
		c.st.store(p, v)
	case *ElemV:
		e.focus(c.st, p.obj, p.idx, e.foldCtx(fr))
		o := *c.st.obj(p.obj)
		s := *o.V.(*SeqV)
		s.fval = setPath(s.fval, pathIdx(p.path), v)
		if s.gen != nil {
			s.gen = app(KOther, "upd", s.gen, p.idx, e.code(c.st, s.fval))
		}
		o.V = &s
		c.st.wroteTo(p.obj, e.p.Pos(pos))
		c.st.heap[p.obj] = &o
	case *UnkV:
		// a store into something foreign
	case NilV:
		e.obl(false, "nil-deref", fr, pos, "store", "a nil pointer is dereferenced")
		return false
	default:
		undec("store to %T", a)
	}
	return true
}

func (e *Engine) foldCtx(fr *Frame) string {
	if fr == nil {
		return "?"
	}
	return fr.ctx + "/" + fr.fn.Name()
}

func (e *Engine) loadFrom(fr *Frame, c *Cfg, a Value, t types.Type, pos token.Pos, what string) (Value, bool) {
	switch p := a.(type) {
	case *PtrV:
		return c.st.load(p), true
	case *ElemV:
		e.focus(c.st, p.obj, p.idx, e.foldCtx(fr))
		s := c.st.obj(p.obj).V.(*SeqV)
		return getPath(s.fval, pathIdx(p.path)), true
	case *UnkV:
		return e.havoc(t, p.tag, c.st), true
	case NilV:
		e.obl(false, "nil-deref", fr, pos, what, "a nil pointer is dereferenced")
		return nil, false
	}
	undec("load from %T", a)
	return nil, false
}

func (e *Engine) unop(fr *Frame, c *Cfg, x *ssa.UnOp) []*Cfg {
	switch x.Op {
	case token.MUL:
		return e.each(fr, c, x.X, func(c *Cfg, a Value) []*Cfg {
			v, ok := e.loadFrom(fr, c, a, x.Type(), x.Pos(), "load of "+shortType(x.Type()))
			if !ok {
				return nil
			}
			c.env[x] = v
			return one(c)
		})
	case token.NOT:
		c.env[x] = tNot(e.get(fr, c, x.X).(*Term))
		return one(c)
	case token.SUB:
		v := e.get(fr, c, x.X)
		if t, ok := v.(*Term); ok {
			c.env[x] = tNeg(t)
		} else {
			c.env[x] = e.havoc(x.Type(), "neg", c.st)
		}
		return one(c)
	case token.XOR:
		v := e.get(fr, c, x.X)
		if t, ok := v.(*Term); ok && t.isConst() {
			c.env[x] = tInt(^t.k)
		} else {
			c.env[x] = e.havoc(x.Type(), "xor", c.st)
		}
		return one(c)
	}
	undec("unary %s", x.Op)
	return nil
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (e *Engine) binop(fr *Frame, c *Cfg, x *ssa.BinOp) []*Cfg {
	a, b := e.get(fr, c, x.X), e.get(fr, c, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		return e.equal(fr, c, x, a, b)
	}
	if fa, ok := a.(*FloatV); ok {
		if fb, ok := b.(*FloatV); ok {
			if isBool(x.Type()) {
				c.env[x] = app(KBool, "f"+x.Op.String(), fa.t, fb.t)
			} else {
				c.env[x] = &FloatV{app(KOther, "f"+x.Op.String(), fa.t, fb.t)}
			}
			return one(c)
		}
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if x.Type() != nil {
			c.env[x] = e.havoc(x.Type(), x.Op.String(), c.st)
			return one(c)
		}
	}
	bt := basicOf(x.X.Type())
	if bt == nil {
		undec("operands %s", x.X.Type())
	}
	if bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			c.env[x] = tConcat(ta, tb)
		default:
			c.env[x] = app(KBool, "s"+x.Op.String(), ta, tb)
			if ta.isConst() && tb.isConst() {
				switch x.Op {
				case token.LSS:
					c.env[x] = tBool(ta.s < tb.s)
				case token.GTR:
					c.env[x] = tBool(ta.s > tb.s)
				case token.LEQ:
					c.env[x] = tBool(ta.s <= tb.s)
				case token.GEQ:
					c.env[x] = tBool(ta.s >= tb.s)
				}
			}
		}
		return one(c)
	}
	unsigned := bt.Info()&types.IsUnsigned != 0
	small := bt.Kind() != types.Int && bt.Kind() != types.Int64 && bt.Kind() != types.Uint && bt.Kind() != types.Uint64 && bt.Kind() != types.Uintptr && bt.Kind() != types.UntypedInt
	lt := tLt
	if unsigned && !small {
		lt = tUlt
	}
	le := func(p, q *Term) *Term { return tNot(lt(q, p)) }
	var r *Term
	switch x.Op {
	case token.ADD:
		r = tAdd(ta, tb)
	case token.SUB:
		r = tSub(ta, tb)
	case token.MUL:
		r = tMul(ta, tb)
	case token.QUO, token.REM:
		op := "quo"
		if x.Op == token.REM {
			op = "rem"
		}
		z := c.st.facts.truth(tEq(tb, tZero))
		e.obl(z == 0, "division", fr, x.Pos(), op+" "+x.String(), "the divisor may be zero")
		if z == 1 {
			return nil
		}
		if z < 0 && !c.st.facts.assume(tEq(tb, tZero), false) {
			return nil
		}
		if unsigned {
			r = app(KInt, "u"+op, ta, tb)
			if ta.isConst() && tb.isConst() {
				if op == "quo" {
					r = tInt(int64(uint64(ta.k) / uint64(tb.k)))
				} else {
					r = tInt(int64(uint64(ta.k) % uint64(tb.k)))
				}
			}
		} else if op == "quo" {
			r = tQuo(ta, tb)
		} else {
			r = tRem(ta, tb)
		}
		e.quoFacts(c.st, op, r, ta, tb)
	case token.LSS:
		c.env[x] = lt(ta, tb)
		return one(c)
	case token.GTR:
		c.env[x] = lt(tb, ta)
		return one(c)
	case token.LEQ:
		c.env[x] = le(ta, tb)
		return one(c)
	case token.GEQ:
		c.env[x] = le(tb, ta)
		return one(c)
	default:
		if bt.Info()&types.IsBoolean != 0 {
			r := app(KBool, x.Op.String(), ta, tb)
			c.env[x] = r
			return one(c)
		}
		r = app(KInt, "op"+x.Op.String(), ta, tb)
		if ta.isConst() && tb.isConst() {
			switch x.Op {
			case token.AND:
				r = tInt(ta.k & tb.k)
			case token.OR:
				r = tInt(ta.k | tb.k)
			case token.XOR:
				r = tInt(ta.k ^ tb.k)
			case token.SHL:
				if tb.k >= 0 && tb.k < 64 {
					r = tInt(ta.k << uint(tb.k))
				}
			case token.SHR:
				if tb.k >= 0 && tb.k < 64 {
					r = tInt(ta.k >> uint(tb.k))
				}
			}
		}
	}
	if small && !r.isConst() && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL) {
		// narrow arithmetic wraps at another width
		lo, hi := c.st.facts.bounds2(r)
		var mn, mx int64 = math.MinInt32, math.MaxInt32
		if bt.Kind() == types.Uint8 {
			mn, mx = 0, 255
		}
		if lo < mn || hi > mx {
			c.env[x] = e.havoc(x.Type(), "narrow", c.st)
			return one(c)
		}
	}
	c.env[x] = r
	return one(c)
}

// quoFacts records bounds of quotients and remainders by constants.
func (e *Engine) quoFacts(st *State, op string, r, a, b *Term) {
	if r.isConst() {
		return
	}
	if op == "rem" {
		if b.isConst() && b.k > 0 {
			st.facts.addLe(r, tInt(b.k-1), 0)
			lo, _ := st.facts.bounds2(a)
			if lo >= 0 {
				st.facts.addLe(tZero, r, 0)
			} else {
				st.facts.addLe(tInt(-(b.k - 1)), r, 0)
			}
		}
	}
}

func (e *Engine) equal(fr *Frame, c *Cfg, x *ssa.BinOp, a, b Value) []*Cfg {
	neg := x.Op == token.NEQ
	set := func(c *Cfg, t *Term) []*Cfg {
		if neg {
			t = tNot(t)
		}
		c.env[x] = t
		return one(c)
	}
	// nil comparisons of lazies without choosing an alternative
	if _, ok := b.(NilV); ok {
		if l, ok := a.(*LazyV); ok && !e.mayBeNil(c.st, l) {
			return set(c, tFalse)
		}
	}
	if _, ok := a.(NilV); ok {
		if l, ok := b.(*LazyV); ok && !e.mayBeNil(c.st, l) {
			return set(c, tFalse)
		}
	}
	if _, ok := a.(*LazyV); ok {
		var out []*Cfg
		for _, cc := range e.materialise(c, a) {
			out = append(out, e.equal(fr, cc, x, cc.st.resolve(a), cc.st.resolve(b))...)
		}
		return out
	}
	if _, ok := b.(*LazyV); ok {
		var out []*Cfg
		for _, cc := range e.materialise(c, b) {
			out = append(out, e.equal(fr, cc, x, cc.st.resolve(a), cc.st.resolve(b))...)
		}
		return out
	}
	return set(c, e.eqTerm(c.st, a, b))
}

func (e *Engine) eqTerm(st *State, a, b Value) *Term {
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		switch x := a.(type) {
		case NilV:
			return tTrue
		case *SliceV:
			if !x.mayNil {
				return tFalse
			}
			if lo, _ := st.facts.bounds2(x.n); lo >= 1 {
				return tFalse
			}
			return freshSym(KBool, "isnil")
		case *UnkV:
			if strings.HasPrefix(x.tag, "maybe:") {
				return namedSym(KBool, "isnil:"+x.tag)
			}
			return tFalse
		case *BytesV:
			return tFalse
		default:
			return tFalse
		}
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return tEq(x, y)
		}
		return tFalse
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return tBool(*x == *y)
		}
		if _, ok := b.(*UnkV); ok {
			return freshSym(KBool, "ptreq")
		}
		return tFalse
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.T, y.T) {
				return tFalse
			}
			return e.eqTerm(st, x.V, y.V)
		}
		if _, ok := b.(*UnkV); ok {
			return freshSym(KBool, "ifaceeq")
		}
		return tFalse
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return freshSym(KBool, "structeq")
		}
		r := tTrue
		for i := range x.F {
			t := e.eqTerm(st, st.resolve(x.F[i]), st.resolve(y.F[i]))
			if t == tFalse {
				return tFalse
			}
			if t != tTrue {
				r = freshSym(KBool, "structeq")
			}
		}
		return r
	case *ErrV:
		if y, ok := b.(*ErrV); ok && x == y {
			return tTrue
		}
		return freshSym(KBool, "erreq")
	}
	return freshSym(KBool, "eq")
}

func (f *Facts) bounds2(t *Term) (int64, int64) {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if u, ok := f.upper(t, tZero); ok {
		hi = u
	}
	if u, ok := f.upper(tZero, t); ok && u != math.MinInt64 {
		lo = -u
	}
	l2, h2 := f.linBounds(t)
	if l2 > lo {
		lo = l2
	}
	if h2 < hi {
		hi = h2
	}
	return lo, hi
}

// linBounds bounds a linear term by interval arithmetic when nothing wraps.
func (f *Facts) linBounds(t *Term) (int64, int64) {
	if t.op != "lin" {
		return math.MinInt64, math.MaxInt64
	}
	var lo, hi int64 = t.k, t.k
	for i, a := range t.args {
		l, h := f.bounds(a)
		c := t.coefs[i]
		if l < -(1<<60) || h > 1<<60 || c > 2 || c < -2 || lo < -(1<<60) || hi > 1<<60 {
			return math.MinInt64, math.MaxInt64
		}
		if c > 0 {
			lo += c * l
			hi += c * h
		} else {
			lo += c * h
			hi += c * l
		}
	}
	return lo, hi
}

// asSlice views a slice value; nil is the empty slice.
func asSlice(v Value) (*SliceV, bool) {
	switch x := v.(type) {
	case *SliceV:
		return x, true
	case NilV:
		return &SliceV{obj: -1, lo: tZero, n: tZero, mayNil: true}, true
	}
	return nil, false
}

// inRange checks 0 <= idx < n.
func (e *Engine) inRange(c *Cfg, idx, n *Term) bool {
	u1, ok1 := c.st.facts.upper(tZero, idx)
	u2, ok2 := c.st.facts.upper(idx, n)
	lo1 := ok1 && u1 <= 0
	hi1 := ok2 && u2 <= -1
	if !lo1 {
		lo, _ := c.st.facts.bounds2(idx)
		lo1 = lo >= 0
	}
	if !hi1 {
		hi1 = c.st.facts.truth(tLt(idx, n)) == 1
	}
	if !lo1 {
		lo1 = c.st.facts.truth(tLt(idx, tZero)) == 0
	}
	return lo1 && hi1
}

func (e *Engine) assumeRange(c *Cfg, idx, n *Term) bool {
	return c.st.facts.assume(tLt(idx, tZero), false) && c.st.facts.assume(tLt(idx, n), true)
}

func (e *Engine) indexAddr(fr *Frame, c *Cfg, x *ssa.IndexAddr) []*Cfg {
	idx := e.get(fr, c, x.Index).(*Term)
	return e.each(fr, c, x.X, func(c *Cfg, v Value) []*Cfg {
		what := "index " + shortType(x.X.Type()) + "[" + idxName(x.Index) + "]"
		switch s := v.(type) {
		case *PtrV: // pointer to array
			seq, ok := c.st.load(s).(*SeqV)
			if !ok {
				undec("index into %T", c.st.load(s))
			}
			n := tInt(int64(len(seq.elems)))
			ok = e.inRange(c, idx, n)
			e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be below %s", idx, n))
			if !ok && !e.assumeRange(c, idx, n) {
				return nil
			}
			if idx.isConst() {
				c.env[x] = &PtrV{s.obj, pathAdd(s.path, int(idx.k))}
				return one(c)
			}
			return e.forkIndex(c, idx, len(seq.elems), func(c *Cfg, i int) {
				c.env[x] = &PtrV{s.obj, pathAdd(s.path, i)}
			})
		case *BytesV:
			n := e.lenOf(c.st, s)
			ok := e.inRange(c, idx, n)
			e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be below %s", idx, n))
			if !ok && !e.assumeRange(c, idx, n) {
				return nil
			}
			id := e.id()
			c.st.heap[id] = &Obj{T: types.Typ[types.Uint8], V: byteAt(s.t, idx)}
			c.env[x] = &PtrV{obj: id}
			return one(c)
		case *RunesV:
			n := e.lenOf(c.st, s)
			ok := e.inRange(c, idx, n)
			e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be below %s", idx, n))
			if !ok && !e.assumeRange(c, idx, n) {
				return nil
			}
			id := e.id()
			c.st.heap[id] = &Obj{T: types.Typ[types.Int32], V: app(KInt, "rune", s.t, tAddK(idx, s.lo))}
			c.env[x] = &PtrV{obj: id}
			return one(c)
		case *UnkV:
			c.env[x] = &UnkV{x.Type(), s.tag + "[]"}
			return one(c)
		}
		s, ok := asSlice(v)
		if !ok {
			undec("index of %T", v)
		}
		ok = e.inRange(c, idx, s.n)
		e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be within the length %s", idx, s.n))
		if !ok && !e.assumeRange(c, idx, s.n) {
			return nil
		}
		return e.elemAddr(c, x, s, idx)
	})
}

func idxName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value.String()
	}
	return "i"
}

func (e *Engine) elemAddr(c *Cfg, x ssa.Value, s *SliceV, idx *Term) []*Cfg {
	abs := tAdd(s.lo, idx)
	seq := c.st.obj(s.obj).V.(*SeqV)
	if seq.exact {
		if abs.isConst() {
			if abs.k < 0 || int(abs.k) >= len(seq.elems) {
				undec("element beyond the backing array")
			}
			c.env[x] = &PtrV{s.obj, pathAdd("", int(abs.k))}
			return one(c)
		}
		if len(seq.elems) <= 16 {
			return e.forkIndex(c, abs, len(seq.elems), func(c *Cfg, i int) {
				c.env[x] = &PtrV{s.obj, pathAdd("", i)}
			})
		}
		e.summarise(c.st, s.obj, "idx")
	}
	c.env[x] = &ElemV{obj: s.obj, idx: abs}
	return one(c)
}

func (e *Engine) forkIndex(c *Cfg, idx *Term, n int, f func(c *Cfg, i int)) []*Cfg {
	var out []*Cfg
	for i := 0; i < n; i++ {
		cc := c.clone()
		if cc.st.facts.assume(tEq(idx, tInt(int64(i))), true) {
			f(cc, i)
			out = append(out, cc)
		}
	}
	return out
}

func byteAt(t, idx *Term) *Term {
	if t.isConst() && idx.isConst() && idx.k >= 0 && int(idx.k) < len(t.s) {
		return tInt(int64(t.s[idx.k]))
	}
	return app(KInt, "byte", t, idx)
}

func (e *Engine) index(fr *Frame, c *Cfg, x *ssa.Index) []*Cfg {
	v := e.get(fr, c, x.X)
	idx := e.get(fr, c, x.Index).(*Term)
	what := "index " + shortType(x.X.Type()) + "[" + idxName(x.Index) + "]"
	switch s := v.(type) {
	case *Term:
		n := e.lenOf(c.st, s)
		ok := e.inRange(c, idx, n)
		e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be below %s", idx, n))
		if !ok && !e.assumeRange(c, idx, n) {
			return nil
		}
		c.env[x] = byteAt(s, idx)
		return one(c)
	case *SeqV:
		if s.exact {
			n := tInt(int64(len(s.elems)))
			ok := e.inRange(c, idx, n)
			e.obl(ok, "index", fr, x.Pos(), what, fmt.Sprintf("index %s is not known to be below %s", idx, n))
			if !ok && !e.assumeRange(c, idx, n) {
				return nil
			}
			if idx.isConst() {
				c.env[x] = s.elems[idx.k]
				return one(c)
			}
			return e.forkIndex(c, idx, len(s.elems), func(c *Cfg, i int) { c.env[x] = s.elems[i] })
		}
	}
	undec("index of %T", v)
	return nil
}

// lenOf is the length of a string, slice, array or map value.
func (e *Engine) lenOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return e.strLen(st, x)
	case *BytesV:
		return e.strLen(st, x.t)
	case *RunesV:
		if x.t.isConst() {
			return tInt(int64(len([]rune(x.t.s))) - x.lo)
		}
		n := app(KInt, "len", app(KStr, "runes", x.t))
		st.facts.addLe(n, e.strLen(st, x.t), 0)
		if lo, _ := st.facts.bounds2(e.strLen(st, x.t)); lo >= 1 {
			st.facts.addLe(tInt(1), n, 0)
		}
		return tAddK(n, -x.lo)
	case *SliceV:
		return x.n
	case NilV:
		return tZero
	case *SeqV:
		return tInt(int64(len(x.elems)))
	case *MapV:
		if m, ok := st.obj(x.obj).V.(*MapC); ok && m.closed {
			return tInt(int64(len(m.keys)))
		}
	case *StructV:
	}
	n := freshSym(KInt, "len:?")
	return n
}

func (e *Engine) strLen(st *State, t *Term) *Term {
	if t.isConst() {
		return tInt(int64(len(t.s)))
	}
	if t.op == "concat" {
		r := tZero
		for _, a := range t.args {
			r = tAdd(r, e.strLen(st, a))
		}
		return r
	}
	l := app(KInt, "len", t)
	if mn := strMinLen(t); mn > 0 {
		st.facts.addLe(tInt(int64(mn)), l, 0)
	}
	return l
}

func (e *Engine) slice(fr *Frame, c *Cfg, x *ssa.Slice, v Value) []*Cfg {
	var lo *Term = tZero
	if x.Low != nil {
		lo = e.get(fr, c, x.Low).(*Term)
	}
	what := "slice of " + shortType(x.X.Type())
	check := func(lo, hi, n *Term) bool {
		f := c.st.facts
		ok := f.leq(tZero, lo) && f.leq(lo, hi) && f.leq(hi, n)
		e.obl(ok, "slice-bounds", fr, x.Pos(), what, fmt.Sprintf("bounds %s:%s are not known to be within %s", lo, hi, n))
		if !ok {
			return f.assume(tLt(lo, tZero), false) && f.assume(tLt(hi, lo), false) && f.assume(tLt(n, hi), false)
		}
		return true
	}
	hiOr := func(n *Term) *Term {
		if x.High != nil {
			return e.get(fr, c, x.High).(*Term)
		}
		return n
	}
	switch s := v.(type) {
	case *Term, *BytesV:
		t, ok := s.(*Term)
		if !ok {
			t = s.(*BytesV).t
		}
		n := e.strLen(c.st, t)
		hi := hiOr(n)
		if !check(lo, hi, n) {
			return nil
		}
		r := e.substr(c.st, t, lo, hi)
		if _, isT := s.(*Term); isT {
			c.env[x] = r
		} else {
			c.env[x] = &BytesV{r}
		}
		return one(c)
	case *RunesV:
		n := e.lenOf(c.st, s)
		hi := hiOr(n)
		if !check(lo, hi, n) {
			return nil
		}
		if lo.isConst() && hi == n {
			c.env[x] = &RunesV{s.t, s.lo + lo.k}
			return one(c)
		}
		c.env[x] = &RunesV{freshSym(KStr, "subrunes"), 0}
		return one(c)
	case *PtrV: // array pointer
		seq, ok := c.st.load(s).(*SeqV)
		if !ok {
			undec("slice of %T", c.st.load(s))
		}
		if s.path != "" {
			undec("slice of a part of an object")
		}
		n := tInt(int64(len(seq.elems)))
		hi := hiOr(n)
		if !check(lo, hi, n) {
			return nil
		}
		c.env[x] = &SliceV{obj: s.obj, lo: lo, n: tSub(hi, lo)}
		return one(c)
	case *UnkV:
		c.env[x] = &UnkV{x.Type(), s.tag}
		return one(c)
	}
	s, ok := asSlice(v)
	if !ok {
		undec("slice of %T", v)
	}
	hi := hiOr(s.n)
	// capacity is at least the length; only lengths are tracked
	if !check(lo, hi, s.n) {
		return nil
	}
	if s.obj < 0 {
		c.env[x] = v
		return one(c)
	}
	c.env[x] = &SliceV{obj: s.obj, lo: tAdd(s.lo, lo), n: tSub(hi, lo), mayNil: s.mayNil}
	return one(c)
}

func (f *Facts) leq(a, b *Term) bool {
	if u, ok := f.upper(a, b); ok && u <= 0 {
		return true
	}
	d := tSub(b, a)
	lo, _ := f.linBounds(d)
	if lo >= 0 {
		return true
	}
	return f.truth(tLt(b, a)) == 0
}

func (e *Engine) substr(st *State, t, lo, hi *Term) *Term {
	n := e.strLen(st, t)
	if lo == tZero && hi == n {
		return t
	}
	if t.isConst() && lo.isConst() && hi.isConst() {
		return tStr(t.s[lo.k:hi.k])
	}
	// dropping a constant prefix of a concatenation
	if t.op == "concat" && hi == n && lo.isConst() && t.args[0].isConst() && int64(len(t.args[0].s)) >= lo.k {
		return tConcat(append([]*Term{tStr(t.args[0].s[lo.k:])}, t.args[1:]...)...)
	}
	r := app(KStr, "substr", t, lo, hi)
	l := app(KInt, "len", r)
	d := tSub(hi, lo)
	st.facts.addLe(l, d, 0)
	st.facts.addLe(d, l, 0)
	return r
}

func (e *Engine) convert(fr *Frame, c *Cfg, x *ssa.Convert) Value {
	v := e.get(fr, c, x.X)
	to := x.Type().Underlying()
	switch t := to.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case *Term:
				if s.kind == KStr {
					return s
				}
				if s.isConst() {
					return tStr(string(rune(s.k)))
				}
				return app(KStr, "runestr", s)
			case *BytesV:
				return s.t
			case *RunesV:
				if s.lo == 0 {
					return s.t
				}
				if s.t.isConst() {
					return tStr(string([]rune(s.t.s)[s.lo:]))
				}
				return app(KStr, "droprunes", s.t, tInt(s.lo))
			case NilV:
				return tStr("")
			case *SliceV:
				return freshSym(KStr, "string(...)")
			}
			return freshSym(KStr, "conv")
		}
		if t.Info()&types.IsInteger != 0 {
			if s, ok := v.(*Term); ok && s.kind == KInt {
				from := basicOf(x.X.Type())
				if s.isConst() {
					return tInt(truncTo(s.k, t.Kind()))
				}
				if sizeOfKind(t.Kind()) >= sizeOfKind(from.Kind()) {
					return s
				}
				lo, hi := c.st.facts.bounds2(s)
				if truncTo(lo, t.Kind()) == lo && truncTo(hi, t.Kind()) == hi {
					return s
				}
				return app(KInt, "conv"+t.Name(), s)
			}
			if f, ok := v.(*FloatV); ok {
				return app(KInt, "trunc", f.t)
			}
			return freshSym(KInt, "conv")
		}
		if t.Info()&types.IsFloat != 0 {
			if s, ok := v.(*Term); ok {
				return &FloatV{app(KOther, "float", s)}
			}
			return v
		}
	case *types.Slice:
		eb := basicOf(t.Elem())
		if s, ok := v.(*Term); ok && eb != nil {
			if eb.Kind() == types.Uint8 {
				return &BytesV{s}
			}
			return &RunesV{s, 0}
		}
	}
	return v
}

func sizeOfKind(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func truncTo(v int64, k types.BasicKind) int64 {
	switch k {
	case types.Int8:
		return int64(int8(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

// dynTypeOf is the dynamic type of a (non-lazy) interface value.
func (e *Engine) dynTypeOf(st *State, v Value) types.Type {
	switch x := v.(type) {
	case *PtrV:
		return st.dynType(x)
	case *ElemV:
		s := st.obj(x.obj).V.(*SeqV)
		return types.NewPointer(typeAt(s.ET, pathIdx(x.path)))
	case *IfaceV:
		return x.T
	}
	return nil
}

func (e *Engine) typeAssert(fr *Frame, c *Cfg, x *ssa.TypeAssert) []*Cfg {
	v := e.get(fr, c, x.X)
	what := "type assertion to " + shortType(x.AssertedType)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if l, ok := v.(*LazyV); ok {
		// all alternatives satisfy the assertion: no need to choose
		all := true
		for _, a := range e.altsOf(c.st.binds[l.id].shape) {
			t := e.altType(a.alt)
			if t == nil || toIface && !types.Implements(t, x.AssertedType.Underlying().(*types.Interface)) || !toIface && !types.Identical(t, x.AssertedType) {
				all = false
				break
			}
		}
		if all && (toIface || isPointer(x.AssertedType)) {
			e.obl(true, "type-assert", fr, x.Pos(), what, "")
			if x.CommaOk {
				c.env[x] = TupleV{v, tTrue}
			} else {
				c.env[x] = v
			}
			return one(c)
		}
	}
	return e.each(fr, c, x.X, func(c *Cfg, v Value) []*Cfg {
		ok, known := false, true
		var res Value
		switch y := v.(type) {
		case NilV:
			ok = false
		case *ErrV:
			if toIface {
				ok = types.Implements(types.Universe.Lookup("error").Type(), x.AssertedType.Underlying().(*types.Interface))
			}
			known = toIface
			res = v
		case *UnkV:
			known = false
			if toIface {
				res = &UnkV{x.AssertedType, y.tag}
			} else {
				res = e.havoc(x.AssertedType, y.tag, c.st)
			}
		default:
			dt := e.dynTypeOf(c.st, v)
			if dt == nil {
				undec("type assertion on %T", v)
			}
			if toIface {
				ok = types.Implements(dt, x.AssertedType.Underlying().(*types.Interface))
				res = v
			} else {
				ok = types.Identical(dt, x.AssertedType)
				res = v
				if iv, isI := v.(*IfaceV); isI {
					res = iv.V
				}
			}
		}
		if known {
			if x.CommaOk {
				if ok {
					c.env[x] = TupleV{res, tTrue}
				} else {
					c.env[x] = TupleV{e.zero(x.AssertedType), tFalse}
				}
				return one(c)
			}
			dt := "nil"
			if t := e.dynTypeOf(c.st, v); t != nil {
				dt = shortType(t)
			}
			e.obl(ok, "type-assert", fr, x.Pos(), what, "the value may be "+dt)
			if !ok {
				return nil
			}
			c.env[x] = res
			return one(c)
		}
		if x.CommaOk {
			c2 := c.clone()
			c.env[x] = TupleV{res, tTrue}
			c2.env[x] = TupleV{e.zero(x.AssertedType), tFalse}
			return []*Cfg{c, c2}
		}
		e.obl(false, "type-assert", fr, x.Pos(), what, "the dynamic type is not known")
		c.env[x] = res
		return one(c)
	})
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ---- maps ----

func (e *Engine) lookup(fr *Frame, c *Cfg, x *ssa.Lookup) []*Cfg {
	v := e.get(fr, c, x.X)
	if s, ok := v.(*Term); ok { // string index
		idx := e.get(fr, c, x.Index).(*Term)
		n := e.lenOf(c.st, s)
		ok := e.inRange(c, idx, n)
		e.obl(ok, "index", fr, x.Pos(), "index string["+idxName(x.Index)+"]", fmt.Sprintf("index %s is not known to be below %s", idx, n))
		if !ok && !e.assumeRange(c, idx, n) {
			return nil
		}
		c.env[x] = byteAt(s, idx)
		return one(c)
	}
	k := e.get(fr, c, x.Index)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	set := func(c *Cfg, val Value, found *Term) *Cfg {
		if x.CommaOk {
			c.env[x] = TupleV{val, found}
		} else {
			c.env[x] = val
		}
		return c
	}
	switch m := v.(type) {
	case NilV:
		return one(set(c, e.zero(vt), tFalse))
	case *UnkV:
		c2 := c.clone()
		return []*Cfg{set(c, e.havoc(vt, m.tag+"[]", c.st), tTrue), set(c2, e.zero(vt), tFalse)}
	case *MapV:
		mc := c.st.obj(m.obj).V.(*MapC)
		if ks, ok := constKey(k); ok {
			if val, ok := mc.keys[ks]; ok {
				return one(set(c, val, tTrue))
			}
			if mc.closed {
				return one(set(c, e.zero(vt), tFalse))
			}
			c2 := c.clone()
			return []*Cfg{set(c, e.havoc(vt, "map[]", c.st), tTrue), set(c2, e.zero(vt), tFalse)}
		}
		// unknown key: any entry or none
		var out []*Cfg
		var ks []string
		for s := range mc.keys {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		for _, s := range ks {
			cc := c.clone()
			if kt, ok := k.(*Term); ok {
				if kc, ok := mc.kvals[s].(*Term); ok {
					if !cc.st.facts.assume(tEq(kt, kc), true) {
						continue
					}
				}
			}
			out = append(out, set(cc, mc.keys[s], tTrue))
		}
		ok := true
		if kt, isT := k.(*Term); isT {
			for _, s := range ks {
				if kc, isT := mc.kvals[s].(*Term); isT {
					ok = ok && c.st.facts.assume(tEq(kt, kc), false)
				}
			}
		}
		if ok {
			out = append(out, set(c, e.zero(vt), tFalse))
		}
		return out
	}
	undec("lookup in %T", v)
	return nil
}

func (e *Engine) mapUpdate(fr *Frame, c *Cfg, x *ssa.MapUpdate) []*Cfg {
	v := e.get(fr, c, x.Map)
	k := e.get(fr, c, x.Key)
	val := e.get(fr, c, x.Value)
	switch m := v.(type) {
	case NilV:
		e.obl(false, "nil-deref", fr, x.Pos(), "store into map", "the map may be nil")
		return nil
	case *UnkV:
		return one(c)
	case *MapV:
		if c.st.heap[m.obj] == nil {
			c.st.event("global-store", e.p.Pos(x.Pos()))
		}
		o := *c.st.obj(m.obj)
		mc := o.V.(*MapC)
		n := &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, closed: mc.closed, T: mc.T}
		for a, b := range mc.keys {
			n.keys[a] = b
			n.kvals[a] = mc.kvals[a]
		}
		if ks, ok := constKey(k); ok {
			n.keys[ks] = val
			n.kvals[ks] = k
		} else {
			n.closed = false
			for a := range n.keys {
				delete(n.keys, a)
			}
		}
		o.V = n
		c.st.heap[m.obj] = &o
		return one(c)
	}
	undec("map update of %T", v)
	return nil
}

func (e *Engine) next(fr *Frame, c *Cfg, x *ssa.Next) []*Cfg {
	it := e.get(fr, c, x.Iter).(*IterV)
	tt := x.Type().(*types.Tuple)
	more := freshSym(KBool, "more")
	if m, ok := it.over.(*MapV); ok {
		mc := c.st.obj(m.obj).V.(*MapC)
		if mc.closed {
			var ks []string
			for s := range mc.keys {
				ks = append(ks, s)
			}
			sort.Strings(ks)
			if len(ks) == 0 {
				c.env[x] = TupleV{tFalse, NilV{}, NilV{}}
				return one(c)
			}
			var out []*Cfg
			for _, s := range ks {
				cc := c.clone()
				cc.env[x] = TupleV{more, mc.kvals[s], mc.keys[s]}
				out = append(out, cc)
			}
			return out
		}
	}
	tv := TupleV{more}
	for i := 1; i < 3; i++ {
		t := tt.At(i).Type()
		if t == nil || t == types.Typ[types.Invalid] {
			tv = append(tv, NilV{})
			continue
		}
		tv = append(tv, e.havoc(t, "range", c.st))
	}
	c.env[x] = tv
	return one(c)
}

var fnTime = map[string]time.Duration{}
var fnCount = map[string]int{}

func resultTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}
