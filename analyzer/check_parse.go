package main

import (
	"fmt"
	"go/types"
	"strings"
)

// actionRun is what an action of the grammar does with the values of its
// labels.
type actionRun struct {
	e      *Engine
	rule   string
	x      *GX
	st     *State // before the action
	labels map[string]Value
	text   *Term
	outs   []Outcome
	pos    string
}

// parserEngine knows the values of all rules and names the contents of lists.
func parserEngine(p *Prog) *Engine {
	e := execEngine(p)
	e.grammarValues()
	e.sequences()
	return e
}

// action interprets the action of a rule on any values of its labels.
func (e *Engine) action(rule string) *actionRun {
	x := e.grammar.Rules[rule]
	if x == nil || x.Kind != GAction {
		undec("rule %s has no action", rule)
	}
	a := &actionRun{e: e, rule: rule, x: x, labels: map[string]Value{}}
	shapes := map[string]*Shape{}
	e.gv.labels(x.Subs[0], shapes)
	if fn := e.gv.run[x.Run.Name()]; fn != nil {
		a.pos = e.p.Pos(fn.Pos())
	}
	if fn := e.gv.run["on"+x.Run.Name()[len("callon"):]]; fn != nil {
		a.pos = e.p.Pos(fn.Pos())
	}
	e.inScope("action:"+rule, func() {
		a.outs, a.text = e.gv.executeWith(newState(), x, func(st *State, l string) Value {
			v := e.newLazy(st, shapes[l], l)
			a.labels[l] = v
			return v
		}, sortedKeys(shapes))
	})
	return a
}

func dbgAction(p *Prog, rule string) {
	e := parserEngine(p)
	n := len(e.loopRecs)
	a := e.action(rule)
	e.loopRecs = e.loopRecs[n:]
	fmt.Println("labels", a.labels)
	for i, o := range a.outs {
		fmt.Println("OUTCOME", i)
		if i == 0 {
			e.dumpOut(o, o.ret...)
		} else {
			for _, v := range o.ret {
				fmt.Println("RET", e.valText(o.st, v))
			}
		}
	}
}

// items are the expressions of a sequence.
func (x *GX) items() []*GX {
	if x.Kind == GSeq {
		return x.Subs
	}
	return []*GX{x}
}

func (x *GX) unlabeled() *GX {
	for x.Kind == GLabel {
		x = x.Subs[0]
	}
	return x
}

// literals are the texts an expression made of literals can match.
func (x *GX) literals() []string {
	x = x.unlabeled()
	switch x.Kind {
	case GLit:
		return []string{x.Name}
	case GChoice:
		var out []string
		for _, s := range x.Subs {
			l := s.literals()
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
		return out
	}
	return nil
}

// tail is a repetition of operators (or separators) with operands.
type tail struct {
	label string
	alts  []*GX
	ops   map[string]bool
}

// tailOf: an expression is a repetition of sequences that start with a
// literal and go on with a rule.
func tailOf(x *GX) *tail {
	if x.Kind != GLabel || x.Subs[0].Kind != GStar && x.Subs[0].Kind != GPlus {
		return nil
	}
	t := &tail{label: x.Name, ops: map[string]bool{}}
	in := x.Subs[0].Subs[0]
	if in.Kind == GChoice {
		t.alts = in.Subs
	} else {
		t.alts = []*GX{in}
	}
	for _, a := range t.alts {
		if a.Kind != GSeq || len(a.Subs) < 2 || a.Subs[1].unlabeled().Kind != GRef {
			return nil
		}
		ls := a.Subs[0].literals()
		if len(ls) == 0 {
			return nil
		}
		for _, l := range ls {
			t.ops[l] = true
		}
	}
	return t
}

// textsAt are the texts a named part of an element may have in a state; nil
// stands for a part that the state has not looked at, "" for one that is
// missing.
func (e *Engine) textsAt(st *State, name *Term) []string {
	var out []string
	for id, b := range st.binds {
		p := e.provL[id]
		if p == nil || e.canon(e.provTerm(p)) != name || b.val == nil {
			continue
		}
		v := b.val
		if iv, ok := v.(*IfaceV); ok {
			v = iv.V
		}
		switch x := v.(type) {
		case NilV:
			out = append(out, "")
		case *BytesV:
			if x.t.op == "str" || x.t.isConst() {
				out = append(out, x.t.s)
				continue
			}
			return nil
		default:
			return nil
		}
	}
	for _, o := range out {
		if o != out[0] {
			return nil
		}
	}
	if len(out) > 1 {
		out = out[:1]
	}
	return out
}

// valueAt is the value of a named part of an element.
func (e *Engine) valueAt(st *State, name *Term) Value {
	var out *LazyV
	for id := range st.binds {
		if p := e.provL[id]; p != nil && e.canon(e.provTerm(p)) == name && (out == nil || id < out.id) {
			out = &LazyV{id}
		}
	}
	if out == nil {
		return nil
	}
	return out
}

// noIds removes the identities of objects from the code of a value.
func noIds(t *Term) *Term {
	if len(t.args) == 0 || t.op == "sym" {
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = noIds(a)
	}
	if strings.HasPrefix(t.op, "ref:") {
		args[0] = tZero
	}
	return rebuild(t, args)
}

// operatorNode makes the node that an operator of the dice language denotes.
func (e *Engine) operatorNode(st *State, op, mark string, l, r Value) (Value, *State) {
	name := map[string]string{"+": "NewAdd", "-": "NewSubtract", "*": "NewMultiply", "/": "NewDivideWithRoundingDown", "/U": "NewDivideWithRoundingUp", "/R": "NewDivideWithRounding"}[op+strings.ToUpper(mark)]
	if name == "" {
		undec("operator %s%s", op, mark)
	}
	return e.construct(st, name, l, r)
}

// restOf is what a label of a repetition stands for in a state.
func (a *actionRun) restOf(st *State, label string) (gen, n *Term, looked bool) {
	v := st.resolve(a.labels[label])
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	switch x := v.(type) {
	case *SliceV:
		return a.e.canon(a.e.contentOf(st, x)), x.n, true
	case NilV:
		return app(KOther, "list"), tZero, true
	}
	return nil, nil, false
}

// chain checks that an action combines its operands from left to right.
func (a *actionRun) chain(r *Report, first string, t *tail) {
	e := a.e
	what := "operators of " + a.rule
	n := 0
	for _, o := range a.outs {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		n++
		r.verdict(a.combines(o, first, t), "left grouping", what, a.pos)
	}
	if n == 0 {
		undec("%s: no result", what)
	}
}

func (a *actionRun) combines(o Outcome, first string, t *tail) verdict {
	e := a.e
	init := e.code(o.st, a.labels[first])
	res := e.canon(e.code(o.st, o.ret[0]))
	gen, n, looked := a.restOf(o.st, t.label)
	if !looked {
		if res == init {
			return vBad("the operators behind the first operand are ignored")
		}
		return vUnk("the result is %s without a look at %s", res, t.label)
	}
	if res == init {
		if o.st.facts.leq(n, tZero) {
			return vOK
		}
		return vBad("the result may be the first operand although there are others")
	}
	l, ok := o.st.resolve(o.ret[0]).(*LazyV)
	if !ok || e.recOfLazy[l.id] == nil {
		return vUnk("the result is %s", res)
	}
	p := e.recOfLazy[l.id]
	if en := e.canon(e.code(p.rec.entry, p.entry)); en != init {
		return vUnk("the chain starts with %s", en)
	}
	return e.chainFrom(o.st, p, gen, n, 0, t)
}

// chainFrom checks the loop that combines the operands from a place on.
func (e *Engine) chainFrom(st *State, p *recPos, gen, n *Term, from int64, t *tail) verdict {
	w, v := e.walkFrom(p.rec, st, gen, n, from)
	if !v.ok {
		return v
	}
	cur, ok := p.cur.(*LazyV)
	if !ok {
		return vUnk("the left operand is a %T", p.cur)
	}
	for i, back := range p.backs {
		b := p.rec.backs[i].clone()
		got := noIds(e.canon(e.code(b, back)))
		ops := e.textsAt(b, w.elem(KOther, ".[0]"))
		if len(ops) == 0 {
			ops = sortedKeys(t.ops)
		}
		right := e.valueAt(b, w.elem(KOther, ".[1]"))
		if right == nil {
			if got == e.code(b, cur) {
				return vBad("an operator and its operand may be left out")
			}
			return vUnk("the operand is not looked at: %s", got)
		}
		for _, op := range ops {
			marks := []string{""}
			if op == "/" {
				if marks = e.textsAt(b, w.elem(KOther, ".[2]")); len(marks) == 0 {
					marks = []string{"", "u", "r"}
				}
			}
			for _, m := range marks {
				nd, s2 := e.operatorNode(b.clone(), op, m, cur, right)
				want := noIds(e.canon(e.code(s2, nd)))
				if got == want {
					continue
				}
				if !strings.Contains(got.String(), "other:") && !strings.Contains(got.String(), "deep") {
					return vBad("for the operator %s%s the result is %s and not %s", op, m, shorter(got), shorter(want))
				}
				return vUnk("the result is %s", shorter(got))
			}
		}
	}
	return vOK
}

func shorter(t *Term) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// list checks that the node an action makes holds the first item and then
// the others, in the order of the text.
func (a *actionRun) list(r *Report, rule, first string, t *tail) {
	e := a.e
	what := "items of " + a.rule
	n := 0
	for _, o := range a.outs {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		n++
		r.verdict(func() verdict {
			vals, _ := e.elementsOf(o.st, e.listField(o.st, o.ret[0]))
			vals = e.canon(vals)
			init := app(KOther, "list", e.code(o.st, a.labels[first]))
			gen, ln, looked := a.restOf(o.st, t.label)
			if !looked {
				if vals == init {
					return vBad("the items behind the first one are ignored")
				}
				return vUnk("the items are %s", vals)
			}
			if vals == init {
				if o.st.facts.leq(ln, tZero) {
					return vOK
				}
				return vBad("the only item may be the first one although there are others")
			}
			return e.folds(o.st, vals, init, gen, ln, e.maps(func(w walk, b *State, el *Term) verdict {
				if el == w.elem(KOther, ".[1]") {
					return vOK
				}
				if e.understood(el) {
					return vBad("the item appended is %s and not %s", el, w.elem(KOther, ".[1]"))
				}
				return vUnk("the item appended is %s", el)
			}))
		}(), rule, what, a.pos)
	}
	if n == 0 {
		undec("%s: no result", what)
	}
}

// listField is the one list among the fields of a node.
func (e *Engine) listField(st *State, v Value) Value {
	p := e.pointerOf(st, v)
	if p == nil {
		undec("list node is %T", st.resolve(v))
	}
	s, ok := st.load(p).(*StructV)
	if !ok {
		undec("list node is %T", st.load(p))
	}
	var out Value
	for i := 0; i < s.T.Underlying().(*types.Struct).NumFields(); i++ {
		if _, ok := s.T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice); ok {
			if out != nil {
				undec("%s has more than one list", s.T)
			}
			out = s.F[i]
		}
	}
	if out == nil {
		undec("%s has no list", s.T)
	}
	return st.resolve(out)
}

// eachTail calls f for every rule whose action has a first operand and a
// repetition of literals and operands.
func (e *Engine) eachTail(f func(rule, first string, t *tail, items []*GX)) {
	for _, n := range e.grammar.Order {
		x := e.grammar.Rules[n]
		if x.Kind != GAction {
			continue
		}
		items := x.Subs[0].items()
		if len(items) < 2 || items[0].Kind != GLabel || items[0].Subs[0].Kind != GRef {
			continue
		}
		if t := tailOf(items[1]); t != nil {
			f(n, items[0].Name, t, items)
		}
	}
}

func arithmetic(ops map[string]bool) bool {
	for o := range ops {
		if !strings.Contains("+-*/", o) || len(o) != 1 {
			return false
		}
	}
	return len(ops) > 1
}

func init() {
	checks["C26"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the grammar's actions with recurrences: the loop of every action that combines a first operand with a repetition of operators and operands goes once through all of them from the left, and what each step makes of the tree so far, the operator and the operand is the node of that operator with the tree so far on its left"
		e := parserEngine(p)
		e.eachTail(func(rule, first string, t *tail, items []*GX) {
			if !arithmetic(t.ops) {
				return
			}
			r.Try("operators of "+rule, func() {
				a := e.action(rule)
				if a.makesBonus() {
					a.bonus(r, t)
				} else {
					a.chain(r, first, t)
				}
			})
		})
		r.Min("left grouping", 7)
	}
}

// makesBonus: the result is a node with a bonus beside the first operand.
func (a *actionRun) makesBonus() bool {
	for _, o := range a.outs {
		if p := a.e.pointerOf(o.st, o.ret[0]); p != nil {
			if s, ok := o.st.load(p).(*StructV); ok && structField(s.T, "Bonus") >= 0 {
				return true
			}
		}
	}
	return false
}

// numberOf is the value of a tree whose leaves are any nodes, as a sum of the
// values of the leaves.
func (e *Engine) numberOf(st *State, v Value) *Term {
	key := "(*pkg/core/evaluator.Evaluator).Eval"
	old := e.stubs[key]
	defer func() { e.stubs[key] = old }()
	e.stubs[key] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		if _, ok := st.resolve(args[1]).(*LazyV); !ok {
			return nil
		}
		i, st := e.newObject(st, "NewInteger", valueOf(e.canon(e.code(st, args[1]))))
		return []Outcome{{st, []Value{i, NilV{}}}}
	}
	if l, ok := st.resolve(v).(*LazyV); ok {
		return valueOf(e.canon(e.code(st, l)))
	}
	st = st.clone()
	evl, st := e.newEvaluator(st)
	var t *Term
	for _, o := range e.callFunc(nil, nil, e.method("pkg/core/evaluator", "Evaluator", "Eval"), []Value{evl, v}, nil, st, nil) {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		x := e.scalarOf(o.st, o.ret[0])
		if x == nil || t != nil && t != x {
			return nil
		}
		t = x
	}
	return t
}

func valueOf(code *Term) *Term { return app(KInt, "valueof", code) }

// bonus checks that the bonus of a roll is the sum of all its terms, each
// with its own sign.
func (a *actionRun) bonus(r *Report, t *tail) {
	e := a.e
	what := "operators of " + a.rule
	n := 0
	for _, o := range a.outs {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		n++
		r.verdict(func() verdict {
			bonus := e.fieldOf(o.st, o.ret[0], "Bonus")
			gen, ln, looked := a.restOf(o.st, t.label)
			if !looked {
				return vUnk("the terms of the bonus are not looked at")
			}
			if _, none := bonus.(NilV); none {
				if o.st.facts.leq(ln, tZero) {
					return vOK
				}
				return vBad("there may be no bonus although there are terms")
			}
			if !o.st.facts.leq(tInt(1), ln) {
				return vUnk("there is a bonus but perhaps no term")
			}
			val := e.numberOf(o.st, bonus)
			if val == nil {
				return vUnk("the value of the bonus is not a sum")
			}
			ops := e.textsAt(o.st, app(KOther, "at.[0]", gen, tZero))
			if len(ops) == 0 {
				ops = sortedKeys(t.ops)
			}
			first := valueOf(app(KOther, "at.[1]", gen, tZero))
			bs, cs, _ := linParts(val)
			var p *recPos
			for i, b := range bs {
				if b.op != "valueof" {
					return vUnk("the bonus is %s", val)
				}
				q := e.loopValue(b.args[0])
				if q == nil {
					continue
				}
				if p != nil {
					return vUnk("the bonus is %s", val)
				}
				if p = q; cs[i] != 1 {
					return vBad("the terms behind the first one count %d times", cs[i])
				}
			}
			if p == nil && !o.st.facts.leq(ln, tInt(1)) {
				for _, b := range bs {
					if !e.understood(b.args[0]) {
						return vUnk("the bonus is %s", val)
					}
				}
				return vBad("the bonus is %s although there may be more terms", val)
			}
			if p != nil {
				en := e.numberOf(p.rec.entry, p.entry)
				if en == nil {
					return vUnk("the value before the terms is not a sum")
				}
				if v := e.chainFrom(o.st, p, gen, ln, 1, t); !v.ok {
					return v
				}
				val = tAdd(tSub(val, valueOf(e.canon(e.code(p.rec.at, p.cur)))), en)
			}
			for _, op := range ops {
				want := first
				if op == "-" {
					want = tNeg(first)
				}
				if val != want {
					return vBad("for the operator %s the bonus starts with %s", op, val)
				}
			}
			return vOK
		}(), "left grouping", what, a.pos)
	}
	if n == 0 {
		undec("%s: no result", what)
	}
}

// loopValue is the place of a loop that a code names.
func (e *Engine) loopValue(code *Term) *recPos {
	var id int
	if _, err := fmt.Sscanf(code.op, "lazy%d", &id); err != nil || len(code.args) > 0 {
		return nil
	}
	return e.recOfLazy[id]
}

// passesOn checks that an action yields the value of its one label.
func (a *actionRun) passesOn(r *Report, rule string) {
	if len(a.labels) != 1 {
		undec("%s has %d labels", a.rule, len(a.labels))
	}
	for l, v := range a.labels {
		for _, o := range a.outs {
			if a.e.nilness(o.st, o.ret[1]) == "nonnil" {
				continue
			}
			got, want := a.e.canon(a.e.code(o.st, o.ret[0])), a.e.canon(a.e.code(o.st, v))
			switch {
			case got == want:
				r.OK(rule, "value of "+a.rule, a.pos, "")
			case a.e.understood(got):
				r.Fail(rule, "value of "+a.rule, a.pos, fmt.Sprintf("the value is %s and not that of %s", shorter(got), l))
			default:
				undec("the value of %s is %s", a.rule, got)
			}
		}
	}
}

// refsOf are the rules an expression refers to directly.
func (x *GX) refsOf() []string {
	var out []string
	x.walk(func(y *GX) {
		if y.Kind == GRef {
			out = append(out, y.Name)
		}
	})
	return out
}

func init() {
	checks["C24"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation over symbolic lists: the list of items is built by going once through all items of the text in order, the text of an item is the matched text without blanks around it, and evaluating a choice draws one die with as many faces as there are items and yields the text of the item at the die's value minus one"
		r.Assume = append(r.Assume, "RollDice returns dice with values between one and the number of faces (established by C05)")
		e := parserEngine(p)
		e.eachTail(func(rule, first string, t *tail, items []*GX) {
			if len(t.ops) != 1 || !t.ops[","] {
				return
			}
			r.Try("items of "+rule, func() {
				e.action(rule).list(r, "items", first, t)
			})
			// the item itself
			item := items[0].Subs[0].Name
			for depth := 0; depth < 5; depth++ {
				x := e.grammar.Rules[item]
				if x.Kind == GRef {
					item = x.Name
					continue
				}
				if x.Kind != GAction {
					break
				}
				labels := map[string]*Shape{}
				e.gv.labels(x.Subs[0], labels)
				if len(labels) == 0 {
					r.Try("text of "+item, func() { e.action(item).itemText(r) })
					break
				}
				it := item
				r.Try("value of "+it, func() { e.action(it).passesOn(r, "items") })
				next := ""
				for _, y := range x.Subs[0].items() {
					if y.Kind == GLabel && y.Subs[0].Kind == GRef {
						next = y.Subs[0].Name
					}
				}
				if next == "" {
					break
				}
				item = next
			}
			// what becomes of the list
			list := rule
			for depth := 0; depth < 8; depth++ {
				user := ""
				for _, n := range e.grammar.Order {
					if n == list {
						continue
					}
					for _, m := range e.grammar.Rules[n].refsOf() {
						if m == list && user != n {
							if user != "" {
								undec("%s is used by more than one rule", list)
							}
							user = n
						}
					}
				}
				if user == "" {
					break
				}
				if e.grammar.Rules[user].Kind == GAction {
					r.Try("value of "+user, func() { e.action(user).passesOn(r, "items") })
				}
				list = user
			}
		})
		for _, form := range []string{"Eval", "Execute"} {
			e2 := execEngine(p)
			e2.sequences()
			e2.stubRollDice()
			var items *SliceV
			mk := func(st *State) (Value, *State) {
				s, st := e2.construct(st, "NewString", freshSym(KStr, "text"))
				l, st := e2.construct(st, "NewChoice", s)
				items, st = e2.nodeWith(st, l, "Items", func(st *State) (Value, *State) {
					return e2.construct(st, "NewString", freshSym(KStr, "text"))
				})
				return l, st
			}
			if form == "Eval" {
				e2.evaluated(r, "selection", mk, func(o Outcome, pos string) {
					r.verdict(e2.selects(o, e2.contentOf(o.st, items), items.n, e2.scalarOf(o.st, o.ret[0])), "selection", "item a choice picks", pos)
				})
				continue
			}
			e2.performed(r, "selection", mk, func(o Outcome, pos string) {
				s, ok := e2.fieldOf(o.st, o.ret[0], "MessageParts").(*SliceV)
				if !ok || !s.n.isConst() {
					undec("message of %v parts", s)
				}
				got, _ := e2.elementAt(o.st, s, s.n.k-1).(*Term)
				r.verdict(e2.selects(o, e2.contentOf(o.st, items), items.n, got), "selection", "item reported for a choice", pos)
			})
		}
		r.Min("items", 4)
		r.Min("selection", 2)
	}
}

// itemText checks that the text of an item is the matched text.
func (a *actionRun) itemText(r *Report) {
	for _, o := range a.outs {
		if a.e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		var got *Term
		p := a.e.pointerOf(o.st, o.ret[0])
		if p != nil {
			if s, ok := o.st.load(p).(*StructV); ok {
				for _, f := range s.F {
					if t, ok := o.st.resolve(f).(*Term); ok && t.kind == KStr {
						got = t
					}
				}
			}
		}
		switch {
		case got == nil:
			undec("the value of %s is %T", a.rule, o.st.resolve(o.ret[0]))
		case got == a.text || got == app(KStr, "trimspace", a.text):
			r.OK("items", "text of "+a.rule, a.pos, "")
		default:
			only := true
			leaves(got, func(s *Term) { only = only && s == a.text })
			if !only {
				undec("the text of %s is %s", a.rule, got)
			}
			r.Fail("items", "text of "+a.rule, a.pos, fmt.Sprintf("the text is %s", shorter(got)))
		}
	}
}

func (e *Engine) selects(o Outcome, gen, n, got *Term) verdict {
	gen = e.canon(gen)
	ds := eventsOf(o.st, "draw")
	if len(ds) != 1 {
		return vBad("dice are drawn %d times", len(ds))
	}
	num, sides := ds[0].Vals[0].(*Term), ds[0].Vals[1].(*Term)
	same := func(a, b *Term) bool { return a == b || o.st.facts.leq(a, b) && o.st.facts.leq(b, a) }
	if !same(num, tInt(1)) {
		if e.understood(num) {
			return vBad("%s dice are drawn", num)
		}
		return vUnk("%s dice are drawn", num)
	}
	if !same(sides, n) {
		if e.understood(sides) {
			return vBad("the die has %s faces and not one for each of the %s items", sides, n)
		}
		return vUnk("the die has %s faces", sides)
	}
	die := app(KInt, "at.Value", e.canon(ds[0].Vals[2].(*Term)), tZero)
	want := app(KStr, "at.Value", gen, tAddK(die, -1))
	if got == nil {
		return vUnk("the result is no text")
	}
	if got = e.canon(got); got == want {
		return vOK
	}
	if got == app(KStr, "trimspace", want) {
		return vUnk("the result is the item without the spaces around it")
	}
	if strings.HasPrefix(got.op, "at.Value") && e.understood(got) {
		return vBad("the item is %s and not %s", got, want)
	}
	ok := true
	leaves(got, func(s *Term) { ok = ok && (s == gen || e.genLen[s] != nil) })
	if ok {
		return vBad("the result is %s and not %s", got, want)
	}
	return vUnk("the result is %s", got)
}

// performed interprets command.Execute on a node built by mk and calls each
// for every result.
func (e *Engine) performed(r *Report, what string, mk func(st *State) (Value, *State), each func(o Outcome, pos string)) {
	r.Try(what, func() {
		fn := e.fn("pkg/core/command.Execute")
		var outs []Outcome
		e.inScope("exec:"+what, func() {
			st := newState()
			evl, st := e.newEvaluator(st)
			node, st := mk(st)
			st.events = nil
			outs = e.callFunc(nil, nil, fn, []Value{node, freshSym(KStr, "gameID"), evl}, nil, st, nil)
		})
		n := 0
		for _, o := range outs {
			if e.nilness(o.st, o.ret[1]) == "nonnil" {
				continue
			}
			if u := unknownCalls(o.st); u != "" {
				undec("depends on %s", u)
			}
			n++
			each(o, e.p.Pos(fn.Pos()))
		}
		if n == 0 {
			undec("no successful outcome")
		}
	})
}

// elementAt is an element of a list of known length.
func (e *Engine) elementAt(st *State, s *SliceV, i int64) Value {
	if q, ok := st.obj(s.obj).V.(*SeqV); ok && q.exact && s.lo.isConst() {
		return st.resolve(q.elems[s.lo.k+i])
	}
	undec("list of unknown elements")
	return nil
}
