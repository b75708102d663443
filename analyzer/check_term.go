package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: every loop and every recursion of parsing and executing ends.

// ---------------------------------------------------------------- loops

// fixedIn: the value does not change while the loop runs.
func (t *termCheck) fixedIn(l *loop, v ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.body[x.Block()] {
			return true
		}
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return t.fixedIn(l, x.X, seen)
	case *ssa.ChangeType:
		return t.fixedIn(l, x.X, seen)
	case *ssa.BinOp:
		return t.fixedIn(l, x.X, seen) && t.fixedIn(l, x.Y, seen)
	case *ssa.FieldAddr:
		return t.fixedIn(l, x.X, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return t.fixedIn(l, x.X, seen)
		}
		// a field that nothing the loop does can write
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && t.fixedIn(l, fa.X, seen) && !t.written(l, fa)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return t.fixedIn(l, x.Call.Args[0], seen)
		}
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) != 1 || !t.p.IsRepoFunc(g) {
			return false
		}
		for _, a := range x.Call.Args {
			if !t.fixedIn(l, a, seen) {
				return false
			}
		}
		return t.reads(l, g)
	}
	return false
}

// reads: the function only reads fields that the loop does not write.
func (t *termCheck) reads(l *loop, g *ssa.Function) bool {
	for _, in := range g.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.BinOp, *ssa.Convert, *ssa.Return, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				continue
			}
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok || t.written(l, fa) {
				return false
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// written: a store to the field in the loop or in anything reached from it.
func (t *termCheck) written(l *loop, fa *ssa.FieldAddr) bool {
	st := types.Unalias(fa.X.Type()).Underlying().(*types.Pointer).Elem()
	f := st.Underlying().(*types.Struct).Field(fa.Field)
	hit := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if g, ok := s.Addr.(*ssa.FieldAddr); ok {
			gt := types.Unalias(g.X.Type()).Underlying().(*types.Pointer).Elem()
			return gt.Underlying().(*types.Struct).Field(g.Field) == f
		}
		return types.Identical(s.Val.Type(), st)
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for b := range l.body {
		for _, in := range b.Instrs {
			if hit(in) {
				return true
			}
			work = append(work, t.callees(in)...)
		}
	}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] {
			continue
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if hit(in) {
					return true
				}
			}
		}
		work = append(work, t.cg[g]...)
	}
	return false
}

// stepOf is the number that a value is above the head's phi on a way back.
func stepOf(phi *ssa.Phi, v ssa.Value, l *loop, seen map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if v == phi {
		return 0, 0, true
	}
	if seen[v] {
		return 0, 0, false
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.Phi:
		if !l.body[x.Block()] {
			return 0, 0, false
		}
		for i, e := range x.Edges {
			a, b, ok := stepOf(phi, e, l, seen)
			if !ok {
				return 0, 0, false
			}
			if i == 0 || a < lo {
				lo = a
			}
			if i == 0 || b > hi {
				hi = b
			}
		}
		return lo, hi, true
	case *ssa.BinOp:
		c, isC := x.Y.(*ssa.Const)
		if x.Op == token.ADD && !isC {
			if c, isC = x.X.(*ssa.Const); isC {
				lo, hi, ok = stepOf(phi, x.Y, l, seen)
				if k, exact := constant.Int64Val(constant.ToInt(c.Value)); exact && ok {
					return lo + k, hi + k, true
				}
			}
			return 0, 0, false
		}
		if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, 0, false
		}
		k, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, 0, false
		}
		lo, hi, ok = stepOf(phi, x.X, l, seen)
		switch x.Op {
		case token.ADD:
			return lo + k, hi + k, ok
		case token.SUB:
			return lo - k, hi - k, ok
		}
	}
	return 0, 0, false
}

// shrinks: a slice or text of which every way back leaves a shorter one.
func shrinks(phi *ssa.Phi, v ssa.Value, l *loop) bool {
	x, ok := v.(*ssa.Slice)
	if !ok || x.X != ssa.Value(phi) || x.Max != nil {
		return false
	}
	c, ok := x.Low.(*ssa.Const)
	if ok && c.Value != nil && constant.Sign(c.Value) > 0 {
		return true
	}
	if b, ok := x.High.(*ssa.BinOp); ok && x.Low == nil && b.Op == token.SUB {
		if c, ok := b.Y.(*ssa.Const); ok && constant.Sign(c.Value) > 0 {
			return true
		}
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// always: the block runs in every iteration.
func always(l *loop, b *ssa.BasicBlock) bool {
	for _, p := range l.head.Preds {
		if l.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// ranked is a reason for the loop to end; empty if none is found.
func (t *termCheck) ranked(l *loop) string {
	for b := range l.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && always(l, b) {
				if !n.IsString {
					return "goes through a map"
				}
				return "goes through a text"
			}
		}
	}
	for _, b := range t.ordered(l) {
		if len(b.Instrs) == 0 || !always(l, b) {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		c, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		// the loop goes on under the condition op
		var op token.Token
		switch {
		case l.body[b.Succs[0]] && !l.body[b.Succs[1]]:
			op = c.Op
		case !l.body[b.Succs[0]] && l.body[b.Succs[1]]:
			op = negate(c.Op)
		default:
			continue
		}
		if neg {
			op = negate(op)
		}
		for _, side := range []struct {
			x, y ssa.Value
			op   token.Token
		}{{c.X, c.Y, op}, {c.Y, c.X, flip(op)}} {
			if why := t.bounded(l, side.x, side.y, side.op); why != "" {
				return why
			}
		}
	}
	return ""
}

func (t *termCheck) ordered(l *loop) (out []*ssa.BasicBlock) {
	for b := range l.body {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// bounded: going on while x op y bounds the number of iterations.
func (t *termCheck) bounded(l *loop, x, y ssa.Value, op token.Token) string {
	if !t.fixedIn(l, y, map[ssa.Value]bool{}) {
		return ""
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// the length of a list that gets shorter
		if call, ok := x.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && call.Call.Args[0] == ssa.Value(phi) {
				all := true
				for i, p := range l.head.Preds {
					if l.body[p] && !shrinks(phi, phi.Edges[i], l) {
						all = false
					}
				}
				if all && (op == token.GTR || op == token.GEQ || op == token.NEQ) {
					return "takes elements from a list"
				}
			}
			continue
		}
		if _, _, ok := stepOf(phi, x, l, map[ssa.Value]bool{}); !ok {
			continue
		}
		up, down, unit, ok := true, true, true, true
		for i, p := range l.head.Preds {
			if !l.body[p] {
				continue
			}
			lo, hi, k := stepOf(phi, phi.Edges[i], l, map[ssa.Value]bool{})
			ok = ok && k
			up = up && lo > 0
			down = down && hi < 0
			unit = unit && lo == hi && (lo == 1 || lo == -1)
		}
		if !ok {
			continue
		}
		switch {
		case up && (op == token.LSS || op == token.LEQ):
			return "counts up to a fixed number"
		case down && (op == token.GTR || op == token.GEQ):
			return "counts down to a fixed number"
		}
	}
	return ""
}

// endless: nothing the loop does can make it end.
func (t *termCheck) endless(l *loop) string {
	exits := 0
	for _, b := range t.ordered(l) {
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return, *ssa.Panic:
			return ""
		case *ssa.If:
			if l.body[b.Succs[0]] && l.body[b.Succs[1]] {
				continue
			}
			exits++
			if !t.fixedIn(l, x.Cond, map[ssa.Value]bool{}) {
				return ""
			}
		case *ssa.Jump:
			if !l.body[b.Succs[0]] {
				return ""
			}
		}
	}
	if exits == 0 {
		return "nothing leaves the loop"
	}
	return "what is tested to leave the loop never changes in it"
}

type termCheck struct {
	e  *Engine
	p  *Prog
	cg map[*ssa.Function][]*ssa.Function

	trees []*types.Interface
	rets  map[string]int
	like  map[string]bool
}

func (t *termCheck) callees(in ssa.Instruction) []*ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return t.e.implsOf(cc.Value.Type().Underlying().(*types.Interface), cc.Method)
	}
	if g := cc.StaticCallee(); g != nil && t.p.IsRepoFunc(g) {
		return []*ssa.Function{g}
	}
	return nil
}

// ------------------------------------------------------------- recursion

const inf = 1 << 20

// a new node without parts lies this far below anything; what is made of
// such nodes only is of a known height
const flat = 1000

func flatHeight(k int) int {
	if k > flat/2 && k <= flat {
		return flat - k
	}
	return -1
}

// treeLike: values of the type can hold parts of a syntax tree or of a value.
func (t *termCheck) treeLike(T types.Type) bool {
	switch x := types.Unalias(T).Underlying().(type) {
	case *types.Slice:
		return t.treeLike(x.Elem())
	case *types.Array:
		return t.treeLike(x.Elem())
	case *types.Interface:
		if x.NumMethods() == 0 {
			return true
		}
	case *types.Struct:
		key := T.String()
		if k, ok := t.like[key]; ok {
			return k
		}
		t.like[key] = false
		for i := 0; i < x.NumFields(); i++ {
			if t.treeLike(x.Field(i).Type()) {
				t.like[key] = true
				return true
			}
		}
	}
	if p, ok := types.Unalias(T).(*types.Pointer); ok {
		switch p.Elem().Underlying().(type) {
		case *types.Slice, *types.Array, *types.Interface, *types.Struct:
			if t.treeLike(p.Elem()) {
				return true
			}
		}
	}
	for _, i := range t.trees {
		if types.Implements(T, i) || types.Implements(types.NewPointer(T), i) {
			return true
		}
	}
	return false
}

// isNode: the type is a kind of tree, not a list of them.
func (t *termCheck) isNode(T types.Type) bool {
	for _, i := range t.trees {
		if types.Implements(T, i) {
			return true
		}
	}
	return false
}

// descent is the number of levels a value is below a parameter, at least:
// parts of a node are one level below it, a node made of parts one above.
type descent struct {
	t     *termCheck
	fn    *ssa.Function
	par   *ssa.Parameter
	rest  int // what other parameters count as
	memo  map[ssa.Value]int
	dirty bool
}

func (d *descent) of(v ssa.Value) int {
	for {
		d.dirty = false
		k := d.val(v)
		if !d.dirty {
			return k
		}
		// run again until stable, dropping what depended on old values
		n := 0
		for d.dirty && n < 60 {
			d.dirty = false
			for w := range d.memo {
				d.update(w)
			}
			n++
		}
		if d.dirty {
			return -inf
		}
		return d.memo[v]
	}
}

func (d *descent) val(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.Parameter:
		switch {
		case x == d.par:
			return 0
		case !d.t.treeLike(x.Type()):
			return inf
		}
		return d.rest
	case *ssa.Const:
		return inf
	case *ssa.Global, *ssa.FreeVar:
		if d.t.treeLike(v.Type()) {
			return -inf
		}
		return inf
	}
	if k, ok := d.memo[v]; ok {
		return k
	}
	d.memo[v] = inf
	d.update(v)
	d.dirty = true
	return d.memo[v]
}

func (d *descent) update(v ssa.Value) {
	k := d.compute(v)
	if k < -64 {
		k = -inf
	}
	if k > inf/2 {
		k = inf
	}
	if k < d.memo[v] {
		d.memo[v] = k
		d.dirty = true
	}
}

func minus(a, b int) int {
	switch {
	case a <= -inf/2:
		return -inf
	case a >= inf/2:
		return inf
	}
	return a + b
}

func (d *descent) compute(v ssa.Value) int {
	least := inf
	take := func(k int) {
		if k < least {
			least = k
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			take(d.val(e))
		}
		return least
	case *ssa.ChangeInterface:
		return d.val(x.X)
	case *ssa.ChangeType:
		return d.val(x.X)
	case *ssa.MakeInterface:
		if !d.t.treeLike(x.X.Type()) {
			return inf
		}
		return d.val(x.X)
	case *ssa.TypeAssert:
		return d.val(x.X)
	case *ssa.FieldAddr:
		return d.val(x.X)
	case *ssa.Field:
		return minus(d.val(x.X), 1)
	case *ssa.IndexAddr:
		return d.val(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return inf
		}
		if !d.t.treeLike(x.Type()) {
			return inf
		}
		k := d.val(x.X)
		if _, ok := x.X.(*ssa.FieldAddr); ok {
			if _, isStruct := x.Type().Underlying().(*types.Struct); !isStruct {
				return minus(k, 1)
			}
		}
		return k
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return d.val(y.X)
		case *ssa.Call:
			return d.call(y, x.Index, v)
		case *ssa.Next:
			if rg, ok := y.Iter.(*ssa.Range); ok && d.t.treeLike(x.Type()) {
				return d.val(rg.X)
			}
			return inf
		}
		return -inf
	case *ssa.Slice:
		take(d.val(x.X))
		take(d.mutated(v))
		return least
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		k := d.mutated(v)
		if d.t.isNode(v.Type()) && k > flat {
			k = flat
		}
		return k
	case *ssa.Call:
		if x.Call.Signature().Results().Len() != 1 {
			return -inf
		}
		return d.call(x, 0, v)
	case *ssa.Lookup:
		return d.val(x.X)
	case *ssa.BinOp, *ssa.Convert, *ssa.MakeClosure, *ssa.Function:
		return inf
	}
	if !d.t.treeLike(v.Type()) {
		return inf
	}
	return -inf
}

// mutated is how deep what is put into a new value lies.
func (d *descent) mutated(v ssa.Value) int {
	least := inf
	take := func(k int) {
		if k < least {
			least = k
		}
	}
	container := false
	T := types.Unalias(v.Type())
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	switch T.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Interface, *types.Map:
		container = true
	}
	var walk func(a ssa.Value, field bool)
	seen := map[ssa.Value]bool{}
	walk = func(a ssa.Value, field bool) {
		if seen[a] || a.Referrers() == nil {
			return
		}
		seen[a] = true
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.X == a {
					walk(x, true)
				}
			case *ssa.IndexAddr:
				if x.X == a {
					walk(x, field)
				}
			case *ssa.Store:
				if x.Addr == a && d.t.treeLike(x.Val.Type()) {
					k := d.val(x.Val)
					if field && !container {
						if _, isStruct := x.Val.Type().Underlying().(*types.Struct); !isStruct {
							k = minus(k, -1)
						}
					}
					take(k)
				}
			case *ssa.MapUpdate:
				if x.Map == a {
					take(d.val(x.Value))
				}
			case *ssa.Call:
				b, isB := x.Call.Value.(*ssa.Builtin)
				switch {
				case isB && b.Name() == "copy" && x.Call.Args[0] == a:
					take(d.val(x.Call.Args[1]))
				case isB:
				case x.Call.Signature().Recv() == nil && !x.Call.IsInvoke() || callArgs(x)[0] != a:
				default:
					// a method that may put a part into the new value
					for _, o := range callArgs(x) {
						if o != a && d.t.treeLike(o.Type()) {
							take(minus(d.val(o), -1))
						}
					}
				}
			case *ssa.ChangeInterface, *ssa.MakeInterface:
				walk(x.(ssa.Value), field)
			}
		}
	}
	walk(v, false)
	return least
}

func callArgs(c *ssa.Call) []ssa.Value {
	if c.Call.IsInvoke() {
		return append([]ssa.Value{c.Call.Value}, c.Call.Args...)
	}
	return c.Call.Args
}

func (d *descent) call(c *ssa.Call, i int, v ssa.Value) int {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			least := inf
			for _, a := range c.Call.Args {
				if k := d.val(a); k < least {
					least = k
				}
			}
			return least
		}
		return inf
	}
	rt := c.Call.Signature().Results().At(i).Type()
	if !d.t.treeLike(rt) && !strings.HasSuffix(rt.String(), "reflect.Value") {
		return inf
	}
	if g := c.Call.StaticCallee(); g != nil && !d.t.p.IsRepoFunc(g) {
		switch g.String() {
		case "reflect.ValueOf", "reflect.Indirect", "(reflect.Value).Interface", "(reflect.Value).Elem":
			return d.val(c.Call.Args[0])
		}
		return -inf
	}
	gs := d.t.callees(c)
	if len(gs) == 0 {
		return -inf
	}
	args := callArgs(c)
	least := inf
	for _, g := range gs {
		made := true
		for j, a := range args {
			if j >= len(g.Params) || !d.t.treeLike(a.Type()) {
				continue
			}
			made = false
			r := d.t.returned(g, j, i)
			if r >= inf/2 {
				continue
			}
			k := d.val(a)
			switch {
			case flatHeight(r) >= 0:
				k = r
			case r <= -inf/2 || k <= -inf/2:
				k = -inf
			case flatHeight(k) >= 0 && r > 0:
				// below a node of known height there is no more than that
			case k < inf/2:
				k += r
			}
			if k < least {
				least = k
			}
		}
		// made without parts
		if made && d.t.isNode(rt) && least > flat {
			least = flat
		}
	}
	if m := d.mutated(v); m < least {
		least = m
	}
	return least
}

// returned is how far below parameter j the i-th result of g lies.
func (t *termCheck) returned(g *ssa.Function, j, i int) int {
	key := fmt.Sprintf("%s/%d/%d", g.String(), j, i)
	if k, ok := t.rets[key]; ok {
		return k
	}
	t.rets[key] = -inf // for recursive functions nothing is known
	if len(g.Blocks) == 0 {
		return -inf
	}
	d := &descent{t: t, fn: g, par: g.Params[j], rest: inf, memo: map[ssa.Value]int{}}
	least := inf
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			if k := d.of(ret.Results[i]); k < least {
				least = k
			}
		}
	}
	t.rets[key] = least
	return least
}

// scState is a function called with nodes of known or of any types and
// heights.
type scState struct {
	fn   *ssa.Function
	typs string // of each parameter; empty if any
	caps string // a bound of the height of each parameter; -1 if there is none
}

func newScState(f *ssa.Function, typs []string, caps []int) scState {
	var c []string
	for _, k := range caps {
		c = append(c, strconv.Itoa(k))
	}
	return scState{f, strings.Join(typs, "|"), strings.Join(c, "|")}
}

// anyNodes are parameters of which nothing is known.
func anyNodes(f *ssa.Function) (typs []string, caps []int) {
	for range f.Params {
		typs, caps = append(typs, ""), append(caps, -1)
	}
	return typs, caps
}

func (s scState) typ(i int) string { return strings.Split(s.typs, "|")[i] }

func (s scState) cap(i int) int {
	k, _ := strconv.Atoi(strings.Split(s.caps, "|")[i])
	return k
}

// scGraph relates the parameters of a caller to those of a callee.
type scGraph struct {
	from, to scState
	arcs     map[[2]int]int // 1: strictly below, 0: not above
	site     ssa.Instruction
	vague    bool // an argument of unknown depth
}

func (g *scGraph) key() string {
	var s []string
	for a, k := range g.arcs {
		s = append(s, fmt.Sprint(a, k))
	}
	sort.Strings(s)
	return fmt.Sprint(g.from.fn, g.from.typs, g.from.caps, g.to.fn, g.to.typs, g.to.caps, s, g.vague)
}

// subject is the first parameter that is a node; -1 if there is none.
func (t *termCheck) subject(f *ssa.Function) int {
	for i, p := range f.Params {
		if t.isNode(p.Type()) {
			return i
		}
	}
	return -1
}

// origin follows conversions back to where a value comes from.
func origin(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok {
				return v
			}
			v = ta.X
		default:
			return v
		}
	}
}

func concrete(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		break
	}
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		return ""
	}
	return v.Type().String()
}

// calls are the size-change graphs of the calls of a function inside a
// component.
func (t *termCheck) calls(s scState, in map[*ssa.Function]bool) (out []*scGraph) {
	for _, b := range s.fn.Blocks {
		for _, ins := range b.Instrs {
			var c *ssa.Call
			switch x := ins.(type) {
			case *ssa.Call:
				c = x
			case *ssa.Defer, *ssa.Go:
				for _, g := range t.callees(ins) {
					if in[g] {
						ty, ca := anyNodes(g)
						out = append(out, &scGraph{from: s, to: newScState(g, ty, ca), arcs: map[[2]int]int{}, site: ins, vague: true})
					}
				}
				continue
			default:
				continue
			}
			for _, g := range t.callees(c) {
				if !in[g] {
					continue
				}
				gr := &scGraph{from: s, arcs: map[[2]int]int{}, site: ins}
				typs, caps := anyNodes(g)
				args := callArgs(c)
				gs := t.subject(g)
				skip := false
				for j, a := range args {
					if j >= len(g.Params) || !t.treeLike(g.Params[j].Type()) {
						continue
					}
					least := -inf
					for i, p := range s.fn.Params {
						if !t.treeLike(p.Type()) {
							continue
						}
						d := &descent{t: t, fn: s.fn, par: p, rest: -inf, memo: map[ssa.Value]int{}}
						k := d.of(a)
						if k > least {
							least = k
						}
						if h := flatHeight(k); h >= 0 {
							caps[j] = h
							continue
						}
						if top := s.cap(i); top >= 0 && k >= 0 && k < inf/2 {
							if k > top {
								skip = true
							} else if caps[j] < 0 || top-k < caps[j] {
								caps[j] = top - k
							}
						}
						if k >= 1 {
							gr.arcs[[2]int{i, j}] = 1
						} else if k == 0 {
							gr.arcs[[2]int{i, j}] = 0
						}
						if origin(a) == ssa.Value(p) {
							// the same node: its type is what it was
							ct := concrete(a)
							if ct == "" && c.Call.IsInvoke() && j == 0 {
								ct = g.Params[0].Type().String()
							}
							if s.typ(i) != "" && ct != "" && ct != s.typ(i) {
								skip = true
							}
							typs[j] = s.typ(i)
						}
					}
					if least <= -inf/2 && j == gs {
						gr.vague = true
					}
					if ct := concrete(a); ct != "" {
						typs[j] = ct
					}
					if c.Call.IsInvoke() && j == 0 {
						typs[j] = g.Params[0].Type().String()
					}
				}
				for i := range s.fn.Params {
					skip = skip || t.isNode(s.fn.Params[i].Type()) && s.cap(i) >= 0 && t.needs(s.fn, i, c) > s.cap(i)
				}
				if skip {
					continue
				}
				gr.to = newScState(g, typs, caps)
				out = append(out, gr)
			}
		}
	}
	return out
}

// needs is the least height of the subject at a call: below it lies a part
// that was looked into before.
func (t *termCheck) needs(f *ssa.Function, subj int, c *ssa.Call) int {
	n := 0
	for _, b := range f.Blocks {
		if !b.Dominates(c.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if in == ssa.Instruction(c) {
				break
			}
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				continue
			}
			d := &descent{t: t, fn: f, par: f.Params[subj], rest: -inf, memo: map[ssa.Value]int{}}
			if k := d.of(ta.X); k > n && k < flat/2 {
				n = k
			}
		}
	}
	return n
}

func compose(a, b *scGraph) *scGraph {
	g := &scGraph{from: a.from, to: b.to, arcs: map[[2]int]int{}, site: a.site, vague: a.vague || b.vague}
	for x, k := range a.arcs {
		for y, l := range b.arcs {
			if x[1] != y[0] {
				continue
			}
			n := [2]int{x[0], y[1]}
			m := 0
			if k == 1 || l == 1 {
				m = 1
			}
			if old, ok := g.arcs[n]; !ok || m > old {
				g.arcs[n] = m
			}
		}
	}
	return g
}

// recursion applies the size-change criterion to a component: in every
// cycle of calls some node gets strictly smaller.
func (t *termCheck) recursion(r *Report, fs []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range fs {
		in[f] = true
	}
	var all []*scGraph
	seen := map[string]bool{}
	states := map[scState]bool{}
	var work []scState
	push := func(s scState) {
		if !states[s] {
			states[s] = true
			work = append(work, s)
		}
	}
	for _, f := range fs {
		typs, caps := anyNodes(f)
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Interface); !ok && t.isNode(p.Type()) {
				typs[i] = p.Type().String()
			}
		}
		push(newScState(f, typs, caps))
	}
	var base []*scGraph
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, g := range t.calls(s, in) {
			push(g.to)
			if k := g.key(); !seen[k] {
				seen[k] = true
				base = append(base, g)
			}
		}
	}
	all = append(all, base...)
	if os.Getenv("VFA_REC") != "" {
		for _, g := range base {
			fmt.Println("BASE", g.key(), t.p.Pos(g.site.Pos()))
		}
	}
	from := map[scState][]*scGraph{}
	for _, g := range base {
		from[g.from] = append(from[g.from], g)
	}
	for i := 0; i < len(all) && len(all) < 20000; i++ {
		for _, b := range from[all[i].to] {
			g := compose(all[i], b)
			if k := g.key(); !seen[k] {
				seen[k] = true
				all = append(all, g)
			}
		}
	}
	type fault struct {
		g     *scGraph
		vague bool
	}
	bad := map[*ssa.Function]*fault{}
	for _, g := range all {
		if g.from != g.to {
			continue
		}
		gg := compose(g, g)
		if gg.key() != g.key() {
			continue
		}
		ok := false
		for a, k := range g.arcs {
			ok = ok || a[0] == a[1] && k == 1
		}
		if !ok && (bad[g.from.fn] == nil || bad[g.from.fn].vague && !g.vague) {
			bad[g.from.fn] = &fault{g, g.vague}
		}
	}
	for _, f := range fs {
		name := t.p.FuncName(f)
		b := bad[f]
		if b != nil && os.Getenv("VFA_REC") != "" {
			fmt.Println("REC", name, b.g.key(), t.p.Pos(b.g.site.Pos()))
		}
		switch {
		case b == nil:
			r.OK("recursion-descends", name, t.p.Pos(f.Pos()), fmt.Sprintf("%d ways around", len(all)))
		case b.vague || t.stores(fs):
			r.Try("recursion "+name, func() {
				undec("a cycle of calls through %s hands on a node of unknown size", name)
			})
		default:
			r.Fail("recursion-descends", name, t.p.Pos(b.g.site.Pos()), "a cycle of calls comes back with a node that is no smaller")
		}
	}
}

// stores: the functions write into memory that was there before.
func (t *termCheck) stores(fs []*ssa.Function) bool {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						continue
					case *ssa.Slice:
						a = x.X
						continue
					}
					break
				}
				switch a.(type) {
				case *ssa.Alloc, *ssa.MakeSlice:
				default:
					return true
				}
			}
		}
	}
	return false
}

func init() {
	checks["C06"] = func(p *Prog, r *Report, tier string) {
		e := execEngine(p)
		t := &termCheck{e: e, p: p, cg: e.callGraph(), rets: map[string]int{}, like: map[string]bool{}}
		for _, n := range [][2]string{{"pkg/core/ast", "Node"}, {"pkg/core/object", "Object"}} {
			t.trees = append(t.trees, p.NamedType(n[0], n[1]).Underlying().(*types.Interface))
		}
		r.Explain = "the grammar is searched for left recursion and for repetitions of what may match nothing; every natural loop reachable from ExecuteCommand must count towards a number that is fixed before it starts, go through a finite list, or take elements from one; every cycle of calls must satisfy the size-change criterion, with the depth of every argument below the caller's nodes derived from field loads, accessors and constructors; the loops that draw dice are interpreted and must have a counter that cannot pass a million"
		r.Assume = append(r.Assume, "the parser's runtime (generated) evaluates the grammar as its rules prescribe", "syntax trees are finite and not shared with themselves: the parser builds them from the leaves", "the game systems registered are those in this repository")
		g, err := extractGrammar(p)
		if err != nil {
			undec("the grammar cannot be read: %v", err)
		}
		analyseGrammar(g).checkTermination(p, r)
		r.Min("no-left-recursion", 30)
		r.Min("repeated-expression-consumes", 10)

		// the loops that draw dice
		semantic := map[*ssa.BasicBlock]verdict{}
		t.drawingLoops(r, semantic)
		r.Min("drawing-loop-bounded", 3)

		root := e.method("pkg/bcdice", "BCDice", "ExecuteCommand")
		re := e.reach(nil, root)
		rec, comp := sccs(t.cg)
		groups := map[int][]*ssa.Function{}
		runtime := t.runtime(g)
		loops := 0
		for _, f := range re.order {
			name := p.FuncName(f)
			if rec[f] && !runtime[f] {
				groups[comp[f]] = append(groups[comp[f]], f)
			}
			li := naturalLoops(f)
			var heads []*ssa.BasicBlock
			for h := range li.byHead {
				heads = append(heads, h)
			}
			sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
			for n, h := range heads {
				l := li.byHead[h]
				what := fmt.Sprintf("loop %d of %s", n+1, name)
				pos := p.Pos(f.Pos())
				for _, in := range h.Instrs {
					if in.Pos().IsValid() {
						pos = p.Pos(in.Pos())
						break
					}
				}
				why := t.ranked(l)
				v, seen := semantic[h]
				switch end := t.endless(l); {
				case why != "":
					r.OK("loop-ends", what, pos, why)
					loops++
				case end != "" && !runtime[f]:
					r.Fail("loop-ends", what, pos, end)
				case runtime[f]:
					r.OK("loop-ends", what, pos, "repeats an expression of the grammar, which consumes text")
				case seen && v.ok:
					r.OK("loop-ends", what, pos, "counts towards a fixed number of rolls")
				default:
					r.Try(what, func() { undec("no bound of %s is found", what) })
				}
			}
		}
		r.Analysed["functions"] = len(re.order)
		r.Analysed["loops"] = loops
		var ks []int
		for k := range groups {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			fs := groups[k]
			r.Try("recursion of "+p.FuncName(fs[0]), func() { t.recursion(r, fs) })
		}
		r.Min("loop-ends", 30)
		r.Min("recursion-descends", 30)
	}
}

// runtime are the functions of the parser that interpret the grammar: what
// the grammar's actions do not reach.
func (t *termCheck) runtime(g *Grammar) map[*ssa.Function]bool {
	own := map[*ssa.Function]bool{}
	var acts []*ssa.Function
	for _, n := range g.Order {
		g.Rules[n].walk(func(x *GX) {
			if x.Run != nil {
				if f := t.p.SSA.FuncValue(x.Run); f != nil {
					acts = append(acts, f)
				}
			}
		})
	}
	for len(acts) > 0 {
		f := acts[len(acts)-1]
		acts = acts[:len(acts)-1]
		if own[f] {
			continue
		}
		own[f] = true
		// the generated wrapper of an action calls the action itself
		acts = append(acts, t.cg[f]...)
	}
	out := map[*ssa.Function]bool{}
	var pkg *ssa.Package
	for f := range own {
		pkg = f.Pkg
		if pkg != nil && strings.HasSuffix(pkg.Pkg.Path(), "/parser") {
			break
		}
	}
	for f := range t.cg {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil && root.Signature.Recv() != nil {
			// a wrapper of a method
			if o, ok := root.Object().(*types.Func); ok && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "pkg/core/parser") {
				out[f] = !own[f]
			}
			continue
		}
		if root.Pkg != nil && strings.HasSuffix(root.Pkg.Pkg.Path(), "pkg/core/parser") && !own[f] && !own[root] {
			out[f] = true
		}
	}
	return out
}

const mostRolls = 1000000

// boundOf looks for a place of a loop that every iteration moves towards a
// number it cannot pass.
func (e *Engine) boundOf(rec *loopRec) verdict {
	best := vBad("no counter of the loop has a bound")
	for _, p := range rec.pos {
		c, ok := p.cur.(*Term)
		if !ok {
			continue
		}
		measure := func(b *State, v Value) *Term {
			x, ok := v.(*Term)
			if !ok {
				return nil
			}
			if x.kind == KInt {
				return x
			}
			return nil
		}
		cur := measure(nil, c)
		if cur == nil {
			continue
		}
		up, down := true, true
		var most int64
		for i, b := range rec.backs {
			n := measure(b, p.backs[i])
			if n == nil {
				up, down = false, false
				break
			}
			lo, hi := b.facts.bounds2(cur)
			up = up && b.facts.leq(tAddK(cur, 1), n)
			down = down && b.facts.leq(n, tAddK(cur, -1)) && lo > math.MinInt32
			if up && hi > most {
				most = hi
			}
		}
		if en, ok := p.entry.(*Term); down && ok {
			_, hi := rec.entry.facts.bounds2(en)
			most = hi
		}
		switch {
		case (up || down) && most <= mostRolls:
			return vOK
		case up || down:
			best = vBad("the loop may run %d times", most)
		}
	}
	return best
}

// drawingLoops interprets the rolls and looks for the bounds of the loops in
// which dice are drawn.
func (t *termCheck) drawingLoops(r *Report, out map[*ssa.BasicBlock]verdict) {
	e := execEngine(t.p)
	e.sequences()
	e.stubRollDice()
	th := namedSym(KInt, "threshold")
	e.input(th)
	look := func(what string) {
		for _, rec := range e.loopRecs {
			draws := false
			for _, b := range rec.backs {
				draws = draws || len(e.drawsIn(rec, b)) > 0
			}
			if !draws || len(rec.backs) == 0 {
				continue
			}
			if _, ok := out[rec.head]; ok {
				continue
			}
			v := e.boundOf(rec)
			if !v.ok && t.ranked(naturalLoops(rec.fn).byHead[rec.head]) != "" && v.bad == "no counter of the loop has a bound" {
				v = vOK
			}
			out[rec.head] = v
			n := 1
			for h := range naturalLoops(rec.fn).byHead {
				if h.Index < rec.head.Index {
					n++
				}
			}
			r.verdict(v, "drawing-loop-bounded", fmt.Sprintf("%s: loop %d of %s", what, n, t.p.FuncName(rec.fn)), t.p.Pos(rec.fn.Pos()))
		}
	}
	e.evaluated(r, "R roll", func(st *State) (Value, *State) {
		l, _, st := rollList(e, st, "NewRRoll", th)
		return l, st
	}, func(o Outcome, pos string) { look("R roll") })
	e.evaluated(r, "U roll", func(st *State) (Value, *State) {
		l, _, st := rollList(e, st, "NewURoll", th)
		return e.construct(st, "NewURollExpr", l, NilV{})
	}, func(o Outcome, pos string) { look("U roll") })
}
