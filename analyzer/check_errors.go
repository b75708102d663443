package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// failing is a call that may fail, and the value of its error.
type failing struct {
	fn    *ssa.Function
	call  *ssa.Call
	err   ssa.Value // nil: ignored
	name  string
	tuple bool
}

// calleeName names what is called.
func (p *Prog) calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return strings.ReplaceAll(c.Value.Type().String(), p.Module+"/", "") + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return p.FuncName(f)
	}
	return "a function value of type " + strings.ReplaceAll(c.Value.Type().String(), p.Module+"/", "")
}

// mayFail: the callee belongs to the operations whose failure matters.
func (p *Prog) mayFail(c *ssa.CallCommon) bool {
	sig := c.Signature()
	n := sig.Results().Len()
	if n == 0 || !isError(sig.Results().At(n-1).Type()) {
		return false
	}
	if c.IsInvoke() {
		return p.InRepo(c.Method.Pkg())
	}
	f := c.StaticCallee()
	if f == nil {
		_, builtin := c.Value.(*ssa.Builtin)
		return !builtin
	}
	if p.IsRepoFunc(f) {
		return true
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "io/ioutil", "encoding/json":
		return true
	}
	return false
}

// pathState is what is known on a path on which the call has failed.
type pathState struct {
	phis  map[*ssa.Phi]ssa.Value
	cells map[ssa.Value]ssa.Value // last value stored in a local variable
	isNil map[ssa.Value]bool
	used  bool
}

func (s *pathState) clone() *pathState {
	t := &pathState{phis: map[*ssa.Phi]ssa.Value{}, cells: map[ssa.Value]ssa.Value{}, isNil: map[ssa.Value]bool{}, used: s.used}
	for k, v := range s.phis {
		t.phis[k] = v
	}
	for k, v := range s.cells {
		t.cells[k] = v
	}
	for k, v := range s.isNil {
		t.isNil[k] = v
	}
	return t
}

type swallow struct {
	p     *Prog
	f     *failing
	deriv map[ssa.Value]bool
	steps int
	bad   string
	unk   string
	seen  map[string]bool
	ends  int
}

// derivedFrom is what is computed from the error: messages, wrapped errors.
func derivedFrom(err ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Phi:
			case *ssa.BinOp:
				if x.Op == token.ADD {
					add(x)
				}
			case *ssa.Store:
				if x.Val == v {
					a := x.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					if al, ok := a.(*ssa.Alloc); ok && !isError(deref(al.Type())) {
						add(a)
					}
				}
			case ssa.Value:
				add(x)
			}
		}
	}
	add(err)
	return out
}

func (s *swallow) resolve(st *pathState, v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			w, ok := st.phis[x]
			if !ok {
				return v
			}
			v = w
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			w, ok := st.cells[x.X]
			if !ok {
				return v
			}
			v = w
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// truth evaluates a condition on a path: 1, 0, or -1 if it is not known.
func (s *swallow) truth(st *pathState, v ssa.Value) int {
	v = s.resolve(st, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return 0
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if t := s.truth(st, x.X); t >= 0 {
				return 1 - t
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return -1
		}
		a, b := s.resolve(st, x.X), s.resolve(st, x.Y)
		if isNilConst(a) {
			a, b = b, a
		}
		if !isNilConst(b) {
			return -1
		}
		eq := -1
		switch {
		case a == s.f.err:
			eq = 0
		case isNilConst(a) || st.isNil[a]:
			eq = 1
		}
		if eq < 0 {
			return -1
		}
		if x.Op == token.NEQ {
			return 1 - eq
		}
		return eq
	}
	return -1
}

func (s *swallow) key(b *ssa.BasicBlock, pred *ssa.BasicBlock, st *pathState) string {
	var k strings.Builder
	fmt.Fprintf(&k, "%d %v", b.Index, st.used)
	for _, bb := range s.f.fn.Blocks {
		for _, in := range bb.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				if v, ok := st.phis[ph]; ok {
					if isError(ph.Type()) || types.Identical(ph.Type(), types.Typ[types.Bool]) {
						fmt.Fprintf(&k, " %s=%s", ph.Name(), v.Name())
					}
				}
			}
			if al, ok := in.(*ssa.Alloc); ok {
				if v, ok := st.cells[al]; ok {
					fmt.Fprintf(&k, " *%s=%s", al.Name(), v.Name())
				}
			}
			if v, ok := in.(ssa.Value); ok && st.isNil[v] {
				fmt.Fprintf(&k, " %s=nil", v.Name())
			}
		}
	}
	return k.String()
}

// walk follows the paths behind the failed call.
func (s *swallow) walk(b *ssa.BasicBlock, i int, st *pathState) {
	for ; i < len(b.Instrs); i++ {
		s.steps++
		if s.goesOn(b.Instrs[i]) {
			s.bad = "the program goes on with another result of the failed call (" + s.p.Pos(b.Instrs[i].Pos()) + ")"
		}
		if s.steps > 20000 {
			s.unk = "too many paths"
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); ok {
				st.cells[x.Addr] = x.Val
			} else if s.deriv[x.Val] || s.resolve(st, x.Val) == s.f.err {
				// into a variable of an enclosing function or an object; what
				// goes into an argument list is seen at the call
				if !s.deriv[x.Addr] && !intoDerived(s.deriv, x.Addr) {
					st.used = true
				}
			}
		case *ssa.MapUpdate:
			st.used = st.used || s.deriv[x.Value]
		case *ssa.Send:
			st.used = st.used || s.deriv[x.X]
		case *ssa.Panic:
			return
		case ssa.CallInstruction:
			if x.(ssa.Instruction) == ssa.Instruction(s.f.call) {
				// tried again
				return
			}
			for _, a := range x.Common().Args {
				if s.deriv[a] || s.resolve(st, a) == s.f.err {
					// only what has an effect, not the making of a message
					if v, ok := x.(ssa.Value); !ok || !s.deriv[v] || v.Referrers() == nil || len(*v.Referrers()) == 0 || s.p.isPrint(x.Common()) {
						st.used = true
					}
				}
			}
		case *ssa.Return:
			s.ends++
			s.ret(st, x)
			return
		case *ssa.If:
			t := s.truth(st, x.Cond)
			if t < 0 && s.deriv[condRoot(x.Cond)] {
				s.unk = "a decision about the kind of error"
			}
			for k, succ := range b.Succs {
				if t >= 0 && k != 1-t {
					continue
				}
				n := st.clone()
				if t < 0 {
					s.learn(n, x.Cond, k == 0)
				}
				s.enter(succ, b, n)
			}
			return
		case *ssa.Jump:
			s.enter(b.Succs[0], b, st)
			return
		}
	}
}

func intoDerived(d map[ssa.Value]bool, a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FieldAddr:
			a = x.X
		default:
			return d[a]
		}
	}
}

func condRoot(v ssa.Value) ssa.Value {
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v = u.X
			continue
		}
		return v
	}
}

// learn notes that another error is nil.
func (s *swallow) learn(st *pathState, c ssa.Value, yes bool) {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, yes = u.X, !yes
	}
	x, ok := c.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return
	}
	a, b := s.resolve(st, x.X), s.resolve(st, x.Y)
	if isNilConst(a) {
		a, b = b, a
	}
	if isNilConst(b) && (x.Op == token.EQL) == yes {
		st.isNil[a] = true
	}
}

func (s *swallow) enter(b, pred *ssa.BasicBlock, st *pathState) {
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
		}
	}
	vals := map[*ssa.Phi]ssa.Value{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = s.resolve(st, ph.Edges[k])
	}
	for ph, v := range vals {
		if v == ssa.Value(ph) {
			delete(st.phis, ph)
			continue
		}
		st.phis[ph] = v
	}
	// values of this block are computed anew
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok {
			delete(st.isNil, v)
		}
	}
	key := s.key(b, pred, st)
	if s.seen[key] {
		return
	}
	s.seen[key] = true
	s.walk(b, 0, st)
}

// isPrint: the call shows its arguments to somebody.
func (p *Prog) isPrint(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return c.IsInvoke()
	}
	switch f.Pkg.Pkg.Path() {
	case "fmt":
		return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint")
	case "errors":
		return false
	}
	return true
}

// ret judges what a function returns after the call has failed.
func (s *swallow) ret(st *pathState, x *ssa.Return) {
	res := s.f.fn.Signature.Results()
	n := res.Len()
	if n == 0 || !isError(res.At(n-1).Type()) {
		if st.used {
			return
		}
		for _, v := range x.Results {
			v = s.resolve(st, v)
			if s.deriv[v] {
				return
			}
			if b, ok := v.(*ssa.BinOp); ok && (s.deriv[b.X] || s.deriv[b.Y]) {
				return
			}
		}
		if n == 0 {
			s.bad = "the failure is not reported"
		} else {
			s.unk = "the failure is turned into another result"
		}
		return
	}
	v := s.resolve(st, x.Results[n-1])
	switch {
	case v == s.f.err || s.deriv[v]:
		return
	case isNilConst(v) || st.isNil[v]:
		s.bad = "nil is returned as the error after the failure (" + s.p.Pos(x.Pos()) + ")"
		return
	}
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return
	case *ssa.UnOp:
		if _, ok := y.X.(*ssa.Global); ok {
			return
		}
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL && s.deriv[al] {
			return
		}
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil {
			switch s.p.FuncName(f) {
			case "fmt.Errorf", "errors.New":
				return
			}
			if s.p.neverNil(f) {
				return
			}
		}
		for _, a := range y.Call.Args {
			if s.deriv[a] || s.resolve(st, a) == s.f.err {
				return
			}
		}
		if s.p.mayFail(&y.Call) {
			s.bad = "after the failure the outcome is that of " + s.p.calleeName(&y.Call)
			return
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && s.p.mayFail(&c.Call) {
			for _, a := range c.Call.Args {
				if s.deriv[a] {
					return
				}
			}
			s.bad = "after the failure the outcome is that of " + s.p.calleeName(&c.Call)
			return
		}
	}
	s.unk = fmt.Sprintf("the error returned is %s", v)
}

// neverNil: a function whose one result is an error it makes itself.
func (p *Prog) neverNil(f *ssa.Function) bool {
	if !p.IsRepoFunc(f) || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			switch y := r.Results[0].(type) {
			case *ssa.MakeInterface:
			case *ssa.Call:
				g := y.Call.StaticCallee()
				if g == nil || p.FuncName(g) != "fmt.Errorf" && p.FuncName(g) != "errors.New" {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// failingCalls are the calls of a function that may fail.
func (p *Prog) failingCalls(fn *ssa.Function) (out []*failing) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !p.mayFail(&c.Call) {
				continue
			}
			f := &failing{fn: fn, call: c, name: p.calleeName(&c.Call)}
			n := c.Call.Signature().Results().Len()
			if n == 1 {
				f.err = c
				if len(*c.Referrers()) == 0 {
					f.err = nil
				}
			} else {
				f.tuple = true
				for _, x := range resultsOf(c, n-1) {
					if used([]*ssa.Extract{x}) {
						f.err = x
					}
				}
			}
			out = append(out, f)
		}
	}
	return out
}

// partial: another result of the failed call is used on a path.
func (s *swallow) siblings() (out []ssa.Value) {
	if !s.f.tuple {
		return nil
	}
	for _, r := range *s.f.call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x != s.f.err {
			out = append(out, x)
		}
	}
	return out
}

// documented are the fallbacks the program is meant to have.
func (p *Prog) documented(f *failing) string {
	pkg := ""
	o := f.fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Pkg != nil {
		pkg = strings.TrimPrefix(o.Pkg.Pkg.Path(), p.Module+"/")
	}
	c := &f.call.Call
	if g := c.StaticCallee(); g != nil && f.err == nil && p.cannotFail(c) {
		return "the basic game system, which is always available"
	}
	switch pkg {
	case "pkg/bcdice":
		if p.callsGame(c, map[*ssa.Function]bool{}) {
			return "a game-specific attempt"
		}
		if g := c.StaticCallee(); g != nil && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/parser") && !used(resultsOf(f.call, 0)) {
			return "whether the whole text parses"
		}
	case "pkg/core/command":
		sig := c.Signature()
		if sig.Results().Len() == 1 {
			for i := 0; i < sig.Params().Len(); i++ {
				if strings.HasSuffix(sig.Params().At(i).Type().String(), "ast.RRollList") {
					return "a reroll threshold problem"
				}
			}
		}
	}
	return ""
}

// cannotFail: interpreting the call with its constant argument gives no error.
func (p *Prog) cannotFail(c *ssa.CallCommon) (ok bool) {
	f := c.StaticCallee()
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecided); !is {
				panic(x)
			}
			ok = false
		}
	}()
	e := execEngine(p)
	e.inlining()
	st := newState()
	var args []Value
	for i, a := range c.Args {
		if k, isConst := a.(*ssa.Const); isConst && k.Value != nil && k.Value.Kind() == constant.String {
			args = append(args, tStr(constant.StringVal(k.Value)))
			continue
		}
		if i == 0 && f.Signature.Recv() != nil {
			args = append(args, e.havoc(f.Params[0].Type(), "receiver", st))
			continue
		}
		return false
	}
	ok = true
	e.inScope("constant call", func() {
		for _, o := range e.callFunc(nil, nil, f, args, nil, st, nil) {
			ok = ok && e.nilness(o.st, o.ret[len(o.ret)-1]) == "nil"
		}
	})
	return ok
}

// callsGame: the call is the game system's attempt at a command.
func (p *Prog) callsGame(c *ssa.CallCommon, seen map[*ssa.Function]bool) bool {
	if c.IsInvoke() {
		return strings.HasSuffix(c.Value.Type().String(), "dicebot.DiceBot") && c.Method.Name() == "ExecuteCommand"
	}
	f := c.StaticCallee()
	if f == nil || seen[f] || !p.IsRepoFunc(f) || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "pkg/bcdice") {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok && p.callsGame(x.Common(), seen) {
				return true
			}
		}
	}
	return false
}

// testDriver: the function runs as part of a test.
func testDriver(fn *ssa.Function) bool {
	for ; fn != nil; fn = fn.Parent() {
		for _, q := range fn.Params {
			if q.Type().String() == "*testing.T" {
				return true
			}
		}
	}
	return false
}

// goesOn: on a path on which a call has failed, another of its results is
// used although nobody is told of the failure by an error result.
func (s *swallow) goesOn(in ssa.Instruction) bool {
	if s.f.fn.Signature.Results().Len() > 0 {
		return false
	}
	for _, v := range s.siblings() {
		for _, op := range in.Operands(nil) {
			if *op == v {
				return true
			}
		}
	}
	return false
}

// errorList checks that errors recorded while parsing make the parser fail.
func (r *Report) errorList(p *Prog) {
	parse := p.Method("pkg/core/parser", "parser", "parse")
	errFn := p.Method("pkg/core/parser", "errList", "err")
	if parse == nil || errFn == nil {
		undec("no generated parser")
	}
	pos := p.Pos(parse.Pos())
	var judge func(v ssa.Value, seen map[ssa.Value]bool)
	judge = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, a := range x.Edges {
				judge(a, seen)
			}
			return
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == errFn || f != nil && f.Name() == "err" && f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "errList") {
				r.OK("recorded errors", "result of parse", pos, "")
				return
			}
		case *ssa.MakeInterface:
			r.OK("recorded errors", "result of parse", pos, "")
			return
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						judge(st.Val, seen)
					}
				}
				return
			}
		}
		if isNilConst(v) {
			r.Fail("recorded errors", "result of parse", pos, "the parser may succeed although errors have been recorded")
			return
		}
		undec("parse returns %s", v)
	}
	for _, b := range parse.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Return); ok {
				judge(x.Results[len(x.Results)-1], map[ssa.Value]bool{})
			}
		}
	}
	// a list that is not empty is an error
	e := execEngine(p)
	e.inlining()
	lt := errFn.Params[0].Type()
	if pt, ok := lt.(*types.Pointer); ok {
		lt = pt.Elem()
	}
	e.inScope("errList.err", func() {
		st := newState()
		l := e.havoc(lt, "errors", st)
		sl, ok := st.resolve(l).(*SliceV)
		if !ok {
			undec("error list is a %T", l)
		}
		st.facts.addLe(tInt(1), sl.n, 0)
		if _, ok := errFn.Params[0].Type().(*types.Pointer); ok {
			id := e.id()
			st.heap[id] = &Obj{T: lt, V: l, site: "errors"}
			l = &PtrV{obj: id}
		}
		for _, o := range e.callFunc(nil, nil, errFn, []Value{l}, nil, st, nil) {
			r.Check(e.nilness(o.st, o.ret[0]) == "nonnil", "recorded errors", "error of a list of errors", p.Pos(errFn.Pos()), "a list of recorded errors may count as no error")
		}
	})
	// recording an error makes the list longer
	add := p.Method("pkg/core/parser", "errList", "add")
	if add == nil {
		undec("no method add of the error list")
	}
	e.inScope("errList.add", func() {
		st := newState()
		l := e.havoc(lt, "errors", st)
		n := st.resolve(l).(*SliceV).n
		id := e.id()
		st.heap[id] = &Obj{T: lt, V: l, site: "errors"}
		er := &ErrV{class: "user", site: "any", msg: freshSym(KStr, "message")}
		for _, o := range e.callFunc(nil, nil, add, []Value{&PtrV{obj: id}, er}, nil, st, nil) {
			m, ok := o.st.resolve(o.st.load(&PtrV{obj: id})).(*SliceV)
			if !ok {
				undec("the error list becomes a %T", o.st.load(&PtrV{obj: id}))
			}
			r.Check(o.st.facts.leq(tAddK(n, 1), m.n), "recorded errors", "recording an error", p.Pos(add.Pos()), "an error may be left out of the list")
		}
	})
	// every error an action returns is recorded: see "failure passed on"
}

func init() {
	checks["C15"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "path analysis over the SSA form: for every call in the repository that can fail, every path on which it has failed is followed to the end of its function; it must end with an error that is not nil, or, in a function without an error result, hand the error to something that reports it; the documented fallbacks are recognised by what is called"
		r.Assume = append(r.Assume, "what a handler passes an error to reports it (checked for the REPL by C18 and for the API by C19)")
		funcs := 0
		for _, fn := range p.SortedFuncs() {
			if !p.IsRepoFunc(fn) || fn.Synthetic != "" && fn.Parent() == nil && strings.Contains(fn.Synthetic, "wrapper") {
				continue
			}
			fs := p.failingCalls(fn)
			if len(fs) > 0 {
				funcs++
			}
			no := map[string]int{}
			for _, f := range fs {
				no[f.name]++
				what := fmt.Sprintf("%s #%d in %s", f.name, no[f.name], p.FuncName(fn))
				if testDriver(fn) {
					continue
				}
				pos := p.Pos(f.call.Pos())
				if d := p.documented(f); d != "" {
					r.OK("documented fallback", what, pos, d)
					continue
				}
				f := f
				r.Try(what, func() {
					if f.err == nil {
						r.Fail("failure passed on", what, pos, "the error is ignored")
						return
					}
					s := &swallow{p: p, f: f, deriv: derivedFrom(f.err), seen: map[string]bool{}}
					st := &pathState{phis: map[*ssa.Phi]ssa.Value{}, cells: map[ssa.Value]ssa.Value{}, isNil: map[ssa.Value]bool{}}
					b := f.call.Block()
					i := 0
					for k, in := range b.Instrs {
						if in == ssa.Instruction(f.call) {
							i = k + 1
						}
					}
					s.walk(b, i, st)
					switch {
					case s.bad != "":
						r.Fail("failure passed on", what, pos, s.bad)
					case s.unk != "":
						undec("%s", s.unk)
					default:
						r.OK("failure passed on", what, pos, "")
					}
				})
			}
		}
		r.Analysed["functions with calls that may fail"] = funcs
		r.Min("failure passed on", 60)
		r.Try("error list", func() { r.errorList(p) })
		r.Min("recorded errors", 3)
	}
}
