package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// C12: the formula shown groups as the tree evaluated.

// expr is an arithmetic expression: an operator over operands, or a number.
type expr struct {
	op   string
	kids []*expr
	leaf int
}

func num() *expr                          { return &expr{op: "n"} }
func node(op string, kids ...*expr) *expr { return &expr{op: op, kids: kids} }

// label numbers the leaves from the left, starting at n, on a copy.
func (t *expr) label(n *int) *expr {
	c := &expr{op: t.op}
	if t.op == "n" {
		*n++
		c.leaf = *n
		return c
	}
	for _, k := range t.kids {
		c.kids = append(c.kids, k.label(n))
	}
	return c
}

func (t *expr) leaves(out []int) []int {
	if t.op == "n" {
		return append(out, t.leaf)
	}
	for _, k := range t.kids {
		out = k.leaves(out)
	}
	return out
}

func (t *expr) size() int {
	if t.op == "n" {
		return 0
	}
	n := 1
	for _, k := range t.kids {
		n += k.size()
	}
	return n
}

// full is the text with every operator in parentheses.
func (t *expr) full() string {
	par := func(k *expr) string {
		switch k.op {
		case "n", "D", "B", "R", "U", "...":
			return k.full()
		}
		return "(" + k.full() + ")"
	}
	operand := func(k *expr) string {
		switch k.op {
		case "n", "...":
			return k.full()
		}
		return "(" + k.full() + ")"
	}
	switch t.op {
	case "n":
		return strconv.Itoa(t.leaf)
	case "neg":
		return "-" + par(t.kids[0])
	case "D", "B", "R", "U":
		return operand(t.kids[0]) + t.op + operand(t.kids[1])
	case "...":
		return "[" + operand(t.kids[0]) + "..." + operand(t.kids[1]) + "]"
	case "/U", "/R":
		return par(t.kids[0]) + "/" + par(t.kids[1]) + t.op[1:]
	case "th":
		return t.kids[0].full() + "[" + t.kids[1].full() + "]"
	case "rolls":
		var s []string
		for _, k := range t.kids {
			s = append(s, k.full())
		}
		return strings.Join(s, "+")
	case "bonus+", "bonus-":
		return t.kids[0].full() + t.op[5:] + par(t.kids[1])
	}
	return par(t.kids[0]) + t.op + par(t.kids[1])
}

// value is a normal form of what the expression denotes: a polynomial over
// numbers, rolls and quotients, over which exact sums and products may be
// regrouped and nothing else may be.
func (t *expr) value() map[string]int64 {
	atom := func() map[string]int64 {
		var ks []string
		for _, k := range t.kids {
			ks = append(ks, polyText(k.value()))
		}
		return map[string]int64{t.op + "{" + strings.Join(ks, ";") + "}": 1}
	}
	comb := func(a, b map[string]int64, s int64) map[string]int64 {
		out := map[string]int64{}
		for m, c := range a {
			out[m] += c
		}
		for m, c := range b {
			out[m] += s * c
		}
		for m, c := range out {
			if c == 0 {
				delete(out, m)
			}
		}
		return out
	}
	switch t.op {
	case "n":
		return map[string]int64{"x" + strconv.Itoa(t.leaf): 1}
	case "+", "bonus+", "rolls":
		v := t.kids[0].value()
		for _, k := range t.kids[1:] {
			v = comb(v, k.value(), 1)
		}
		return v
	case "-", "bonus-":
		return comb(t.kids[0].value(), t.kids[1].value(), -1)
	case "neg":
		return comb(nil, t.kids[0].value(), -1)
	case "*":
		out := map[string]int64{}
		for m, c := range t.kids[0].value() {
			for n, d := range t.kids[1].value() {
				ms := append(strings.Split(m, "*"), strings.Split(n, "*")...)
				sort.Strings(ms)
				out[strings.Join(ms, "*")] += c * d
			}
		}
		for m, c := range out {
			if c == 0 {
				delete(out, m)
			}
		}
		return out
	}
	a := atom()
	// a factor inside an atom is not a factor of a product
	out := map[string]int64{}
	for m, c := range a {
		out[strings.ReplaceAll(m, "*", "·")] = c
	}
	return out
}

func polyText(v map[string]int64) string {
	var ms []string
	for m, c := range v {
		ms = append(ms, fmt.Sprintf("%d %s", c, m))
	}
	sort.Strings(ms)
	return strings.Join(ms, " + ")
}

// sameMeaning: the same value, over the same numbers in the same order.
func (t *expr) sameMeaning(u *expr) bool {
	return fmt.Sprint(t.leaves(nil)) == fmt.Sprint(u.leaves(nil)) && polyText(t.value()) == polyText(u.value())
}

// ---------------------------------------------------------------- reading

// item is a piece of a text matched: a character or an expression.
type item struct {
	tok string
	x   *expr
}

// pegReader reads a text by the tables of the grammar.
type pegReader struct {
	g    *Grammar
	s    []rune
	memo map[string]*pegMatch
}

type pegMatch struct {
	ok    bool
	end   int
	items []item
}

type pegUnknown struct{ msg string }

func (p *pegReader) class(x *GX, c rune) bool {
	for _, k := range x.Classes {
		if t := unicode.Categories[k]; t != nil && unicode.Is(t, c) {
			return !x.Inverted
		}
	}
	if x.IgnoreCase {
		c = lower(c)
	}
	in := false
	for _, k := range x.Chars {
		in = in || k == c
	}
	for i := 0; i+1 < len(x.Ranges); i += 2 {
		in = in || x.Ranges[i] <= c && c <= x.Ranges[i+1]
	}
	return in != x.Inverted
}

func (p *pegReader) match(x *GX, i int) pegMatch {
	no := pegMatch{}
	switch x.Kind {
	case GSeq:
		m := pegMatch{ok: true, end: i}
		for _, s := range x.Subs {
			k := p.match(s, m.end)
			if !k.ok {
				return no
			}
			m.end, m.items = k.end, append(m.items[:len(m.items):len(m.items)], k.items...)
		}
		return m
	case GChoice:
		for _, s := range x.Subs {
			if k := p.match(s, i); k.ok {
				return k
			}
		}
		return no
	case GAction:
		k := p.match(x.Subs[0], i)
		if !k.ok {
			return no
		}
		return pegMatch{true, k.end, []item{p.group(k.items)}}
	case GLabel:
		return p.match(x.Subs[0], i)
	case GRef:
		key := fmt.Sprintf("%s@%d", x.Name, i)
		if m := p.memo[key]; m != nil {
			return *m
		}
		r := p.g.Rules[x.Name]
		if r == nil {
			panic(pegUnknown{"there is no rule " + x.Name})
		}
		m := p.match(r, i)
		p.memo[key] = &m
		return m
	case GLit:
		for _, c := range x.Name {
			if i >= len(p.s) {
				return no
			}
			d := p.s[i]
			if x.IgnoreCase {
				c, d = lower(c), lower(d)
			}
			if c != d {
				return no
			}
			i++
		}
		return pegMatch{true, i, []item{{tok: x.Name}}}
	case GClass:
		if i < len(p.s) && p.class(x, p.s[i]) {
			return pegMatch{true, i + 1, []item{{tok: string(p.s[i])}}}
		}
		return no
	case GAny:
		if i < len(p.s) {
			return pegMatch{true, i + 1, []item{{tok: string(p.s[i])}}}
		}
		return no
	case GStar, GPlus, GOpt:
		m := pegMatch{ok: x.Kind != GPlus, end: i}
		for {
			k := p.match(x.Subs[0], m.end)
			if !k.ok || k.end == m.end {
				m.ok = m.ok || k.ok
				return m
			}
			m.ok, m.end, m.items = true, k.end, append(m.items[:len(m.items):len(m.items)], k.items...)
			if x.Kind == GOpt {
				return m
			}
		}
	case GNot, GAnd:
		k := p.match(x.Subs[0], i)
		return pegMatch{ok: k.ok == (x.Kind == GAnd), end: i}
	case GState:
		return pegMatch{ok: true, end: i}
	}
	panic(pegUnknown{"the grammar uses " + gkindNames[x.Kind]})
}

// group is the expression that the pieces of one rule stand for: operators
// of the same rule group from the left.
func (p *pegReader) group(its []item) item {
	if len(its) == 1 {
		if its[0].x != nil {
			return its[0]
		}
	}
	text := ""
	toks := true
	for _, it := range its {
		toks = toks && it.x == nil
		text += it.tok
	}
	if toks {
		n, err := strconv.Atoi(text)
		if err != nil {
			panic(pegUnknown{"the pieces " + text})
		}
		return item{x: &expr{op: "n", leaf: n}}
	}
	show := ""
	for _, it := range its {
		if it.x != nil {
			show += "_"
		} else {
			show += it.tok
		}
	}
	switch upper := strings.ToUpper(show); {
	case upper == "(_)" || upper == "C(_)":
		for _, it := range its {
			if it.x != nil {
				return it
			}
		}
	case upper == "+_":
		return its[1]
	case upper == "-_":
		return item{x: node("neg", its[1].x)}
	case upper == "_D_" || upper == "_B_" || upper == "_R_" || upper == "_U_":
		return item{x: node(upper[1:2], its[0].x, its[2].x)}
	case upper == "[_..._]":
		return item{x: node("...", its[1].x, its[len(its)-2].x)}
	}
	acc := its[0].x
	if acc == nil {
		panic(pegUnknown{"the pieces " + show})
	}
	for i := 1; i < len(its); {
		op := its[i].tok
		if i+1 >= len(its) || its[i+1].x == nil {
			panic(pegUnknown{"the pieces " + show})
		}
		b := its[i+1].x
		i += 2
		switch op {
		case "[":
			if i >= len(its) || its[i].tok != "]" {
				panic(pegUnknown{"the pieces " + show})
			}
			i++
			acc = node("th", acc, b)
			continue
		case "/":
			if i < len(its) && its[i].x == nil {
				switch m := strings.ToUpper(its[i].tok); m {
				case "U", "R":
					op += m
					i++
				}
			}
		case "+", "-", "*":
		default:
			panic(pegUnknown{"the pieces " + show})
		}
		acc = node(op, acc, b)
	}
	return item{x: acc}
}

// read is the expression that a rule of the grammar reads from a text; nil if
// the rule does not take the whole text.
func (g *Grammar) read(rule, text string) (x *expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(pegUnknown)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", u.msg)
		}
	}()
	p := &pegReader{g: g, s: []rune(text), memo: map[string]*pegMatch{}}
	m := p.match(&GX{Kind: GRef, Name: rule}, 0)
	if !m.ok || m.end != len(p.s) {
		return nil, nil
	}
	it := m.items
	if len(it) != 1 || it[0].x == nil {
		return nil, fmt.Errorf("%s reads %d pieces", rule, len(it))
	}
	return it[0].x, nil
}

// ------------------------------------------------------------- generating

var binaryOps = []string{"+", "-", "*", "/", "/U", "/R"}

// trees are all the expressions with n operators.
func trees(n int, memo map[int][]*expr) []*expr {
	if t, ok := memo[n]; ok {
		return t
	}
	var out []*expr
	if n == 0 {
		out = []*expr{num()}
	} else {
		for _, k := range trees(n-1, memo) {
			out = append(out, node("neg", k))
		}
		for i := 0; i < n; i++ {
			for _, a := range trees(i, memo) {
				for _, b := range trees(n-1-i, memo) {
					for _, op := range binaryOps {
						out = append(out, node(op, a, b))
					}
				}
			}
		}
	}
	memo[n] = out
	return out
}

// withLeaves puts something else in place of the numbers.
func (t *expr) withLeaves(f func() *expr) *expr {
	if t.op == "n" {
		return f()
	}
	c := &expr{op: t.op}
	for _, k := range t.kids {
		c.kids = append(c.kids, k.withLeaves(f))
	}
	return c
}

var exprMakers = map[string]string{
	"neg": "NewUnaryMinus", "+": "NewAdd", "-": "NewSubtract", "*": "NewMultiply",
	"/": "NewDivideWithRoundingDown", "/U": "NewDivideWithRoundingUp", "/R": "NewDivideWithRounding",
	"D": "NewDRoll", "B": "NewBRoll", "R": "NewRRoll", "U": "NewURoll", "...": "NewRandomNumber",
}

// build makes the node of an expression with the constructors of the ast
// package; the numbers are arbitrary and not negative.
func (e *Engine) build(st *State, t *expr, nums map[*Term]int) (Value, *State) {
	switch t.op {
	case "n":
		v := namedSym(KInt, "n"+strconv.Itoa(t.leaf))
		nums[v] = t.leaf
		st.facts.addLe(tZero, v, 0)
		return e.construct(st, "NewInt", v)
	case "rolls", "th":
		rolls := t.kids
		var th Value = NilV{}
		if t.op == "th" {
			rolls = []*expr{t.kids[0]}
			if t.kids[0].op == "rolls" {
				rolls = t.kids[0].kids
			}
			th, st = e.build(st, t.kids[1], nums)
		}
		kind := rolls[0].op
		var list Value
		for i, k := range rolls {
			var x Value
			x, st = e.build(st, k, nums)
			if i == 0 {
				switch {
				case kind == "B":
					list, st = e.construct(st, "NewBRollList", x)
				default:
					if t.op != "th" {
						th, st = e.construct(st, "NilInstance")
					}
					list, st = e.construct(st, "NewRRollList", x, th)
				}
				continue
			}
			typ := "RRollList"
			if kind == "B" {
				typ = "BRollList"
			}
			st = single(e.callFunc(nil, nil, e.method("pkg/core/ast", typ, "Append"), []Value{list, x}, nil, st, nil), "Append").st
		}
		return list, st
	case "bonus+", "bonus-":
		list, st := e.build(st, t.kids[0], nums)
		b, st := e.build(st, t.kids[1], nums)
		z, st := e.construct(st, "NewInt", tZero)
		b, st = e.construct(st, map[string]string{"bonus+": "NewAdd", "bonus-": "NewSubtract"}[t.op], z, b)
		return e.construct(st, "NewURollExpr", list, b)
	}
	var args []Value
	for _, k := range t.kids {
		var v Value
		v, st = e.build(st, k, nums)
		args = append(args, v)
	}
	return e.construct(st, exprMakers[t.op], args...)
}

var trims = map[string]func(s, x string) string{
	"trim": strings.Trim, "trimleft": strings.TrimLeft, "trimright": strings.TrimRight,
	"trimprefix": strings.TrimPrefix, "trimsuffix": strings.TrimSuffix,
}

// shownText is the text that the notation shows for an expression.
func (e *Engine) shownText(t *expr) (text string, err error) {
	nums := map[*Term]int{}
	fn := e.fn("pkg/core/notation.InfixNotation")
	var outs []Outcome
	e.inScope("notation", func() {
		st := newState()
		x, st := e.build(st, t, nums)
		args := []Value{x, tTrue}
		if len(fn.Params) != 2 {
			undec("InfixNotation takes other arguments")
		}
		outs = e.callFunc(nil, nil, fn, args, nil, st, nil)
	})
	var got []Outcome
	for _, o := range outs {
		switch e.nilness(o.st, o.ret[1]) {
		case "nil":
			got = append(got, o)
		case "nonnil":
			return "", nil
		default:
			return "", fmt.Errorf("it is unknown whether it fails")
		}
	}
	if len(got) != 1 {
		return "", fmt.Errorf("%d outcomes", len(got))
	}
	tt, ok := got[0].st.resolve(got[0].ret[0]).(*Term)
	if !ok {
		return "", fmt.Errorf("the text is unknown")
	}
	s := ""
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch {
		case t.isConst():
			s += t.s
		case t.op == "itoa" && nums[t.args[0]] > 0:
			s += strconv.Itoa(nums[t.args[0]])
		case trims[t.op] != nil && len(t.args) == 2 && t.args[1].isConst() && !strings.ContainsAny(t.args[1].s, "0123456789"):
			head := s
			s = ""
			if !walk(t.args[0]) {
				return false
			}
			s = head + trims[t.op](s, t.args[1].s)
		case t.kind == KStr && t.op == "+" || t.op == "concat":
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
		default:
			return false
		}
		return true
	}
	if !walk(tt) {
		return "", fmt.Errorf("the text is %s", shorter(tt))
	}
	return s, nil
}

// pairs are the operators nested in one another, with their sides.
func (t *expr) pairs(out map[string]bool) {
	for i, k := range t.kids {
		if k.op != "n" {
			side := "left"
			if i > 0 || t.op == "neg" {
				side = "right"
			}
			out[pairName(t.op, side, k.op)] = true
		}
		k.pairs(out)
	}
}

var opNames = map[string]string{
	"+": "a sum", "-": "a difference", "*": "a product", "/": "a quotient", "/U": "a quotient rounded up", "/R": "a rounded quotient",
	"neg": "a negation", "D": "a roll", "B": "a B roll", "R": "an R roll", "U": "a U roll", "...": "a random number",
	"bonus+": "an added bonus", "bonus-": "a subtracted bonus", "th": "a threshold", "rolls": "a list of rolls", "n": "a number",
}

func pairName(p, side, c string) string {
	return fmt.Sprintf("%s as the %s operand of %s", opNames[c], side, opNames[p])
}

// rotated is the expression with exact sums and products grouped to the left.
func (t *expr) rotated() *expr {
	c := &expr{op: t.op, leaf: t.leaf}
	for _, k := range t.kids {
		c.kids = append(c.kids, k.rotated())
	}
	if c.op == "*" || c.op == "+" || c.op == "bonus+" {
		if b := c.kids[1]; b.op == c.op || c.op != "*" && (b.op == "-" || b.op == "+") {
			return node(b.op, node(c.op, c.kids[0], b.kids[0]).rotated(), b.kids[1])
		}
	}
	return c
}

// contains: the expression contains the shape of the other one.
func (t *expr) contains(u *expr) bool {
	if t.fits(u) {
		return true
	}
	for _, k := range t.kids {
		if k.contains(u) {
			return true
		}
	}
	return false
}

func (t *expr) fits(u *expr) bool {
	if u.op == "n" {
		return true
	}
	if t.op != u.op || len(t.kids) != len(u.kids) {
		return false
	}
	for i := range t.kids {
		if !t.kids[i].fits(u.kids[i]) {
			return false
		}
	}
	return true
}

func init() {
	checks["C12"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "the notation is interpreted on every nesting of the arithmetic operators, with arbitrary numbers at the leaves, and the text it shows, in which the numbers are unknown, is read back by the tables of the grammar; what is read must denote the same value (exact sums and products may be regrouped, nothing else) over the same numbers in the same order"
		r.Assume = append(r.Assume, "operators of one rule of the grammar group from the left (C26)", "a numeral stands for itself (C14)", "the decision to write parentheses looks at no more than the operators nested four deep")
		g, err := extractGrammar(p)
		if err != nil {
			undec("the grammar cannot be read: %v", err)
		}
		e := execEngine(p)
		e.inlining()
		pos := e.p.Pos(e.fn("pkg/core/notation.InfixNotation").Pos())
		memo := map[int][]*expr{}
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		shown := 0
		type bad struct {
			t    *expr
			name string
			text string
			n    int
		}
		var bads []*bad
		family := func(name, rule string, all []*expr) {
			r.Try(name, func() {
				if g.Rules[rule] == nil {
					undec("the grammar has no rule %s", rule)
				}
				sort.SliceStable(all, func(i, j int) bool { return all[i].size() < all[j].size() })
				found := len(bads)
				good := map[string]int{}
				for _, t := range all {
					k := 0
					lt := t.label(&k)
					want, err := g.read(rule, lt.full())
					if err != nil {
						undec("%s: %v", lt.full(), err)
					}
					if want == nil {
						continue // not in the language
					}
					if !want.sameMeaning(lt) {
						undec("%s is read as %s", lt.full(), want.full())
					}
					text, err := e.shownText(lt)
					if err != nil {
						undec("%s: %v", lt.full(), err)
					}
					shown++
					back, err := g.read(rule, text)
					if err != nil {
						undec("%s: %v", text, err)
					}
					if back != nil && back.sameMeaning(lt) {
						ps := map[string]bool{}
						lt.pairs(ps)
						for q := range ps {
							good[q]++
						}
						continue
					}
					known := false
					for _, b := range bads {
						if t.contains(b.t) || t.rotated().contains(b.t) {
							b.n++
							known = true
							break
						}
					}
					if known {
						continue
					}
					ps := map[string]bool{}
					lt.pairs(ps)
					var names []string
					for q := range ps {
						names = append(names, q)
					}
					sort.Strings(names)
					if len(names) == 0 {
						names = []string{opNames[lt.op]}
					}
					how := "which does not belong to the language"
					if back != nil {
						how = "which reads as " + back.full()
					}
					bads = append(bads, &bad{t, strings.Join(names, ", "), fmt.Sprintf("%s is shown as %q, %s", lt.full(), text, how), 1})
				}
				for _, b := range bads[found:] {
					r.Fail("grouping", b.name, pos, b.text)
				}
				for _, q := range sortedKeys(good) {
					hit := false
					for _, b := range bads {
						hit = hit || b.name == q && b.n > 0
					}
					if !hit {
						r.OK("grouping", name+": "+q, pos, fmt.Sprintf("%d nestings", good[q]))
					}
				}
			})
		}
		var calc []*expr
		for i := 0; i <= depth; i++ {
			calc = append(calc, trees(i, memo)...)
		}
		family("calculation", "IntExpr", calc)

		var operands []*expr
		for i := 0; i <= 1; i++ {
			operands = append(operands, trees(i, memo)...)
		}
		random := []*expr{node("...", num(), num())}
		for _, o := range operands[1:] {
			random = append(random, node("...", o, num()), node("...", num(), o))
		}
		rolls := func(k string) (out []*expr) {
			for _, o := range append(append([]*expr(nil), trees(2, memo)...), append(append([]*expr(nil), operands...), random...)...) {
				out = append(out, node(k, o, num()), node(k, num(), o))
			}
			for _, o := range operands[1:] {
				out = append(out, node(k, o.withLeaves(func() *expr { return random[0] }), num()), node(k, num(), o.withLeaves(func() *expr { return random[0] })))
			}
			return out
		}
		plain := func(k string) func() *expr { return func() *expr { return node(k, num(), num()) } }
		d := rolls("D")
		d = append(d, random...)
		for i := 1; i < depth; i++ {
			for _, t := range trees(i, memo) {
				d = append(d, t.withLeaves(plain("D")))
			}
		}
		for _, t := range trees(1, memo) {
			for j := range t.kids {
				for _, x := range append([]*expr{node("D", operands[1], num()), node("D", num(), operands[2])}, random[0]) {
					c := &expr{op: t.op, kids: append([]*expr(nil), t.kids...)}
					c.kids[j] = x
					d = append(d, c)
				}
			}
		}
		family("sum of rolls", "DRollExpr", d)
		for _, k := range []struct{ op, rule string }{{"B", "BRollList"}, {"R", "RRollList"}, {"U", "URollList"}} {
			var l []*expr
			for _, o := range rolls(k.op) {
				l = append(l, node("rolls", o), node("rolls", o, plain(k.op)()), node("rolls", plain(k.op)(), o))
			}
			if k.op != "B" {
				for i := 0; i < depth; i++ {
					for _, t := range trees(i, memo) {
						l = append(l, node("th", node("rolls", plain(k.op)(), plain(k.op)()), t))
					}
				}
			}
			family(k.op+" rolls", k.rule, l)
		}
		var u []*expr
		for i := 0; i < depth; i++ {
			for _, t := range trees(i, memo) {
				for _, op := range []string{"bonus+", "bonus-"} {
					u = append(u, node(op, node("rolls", plain("U")()), t), node(op, node("th", node("rolls", plain("U")(), plain("U")()), num()), t))
				}
			}
		}
		family("bonus of an open-ended roll", "URollExpr", u)
		r.Analysed["expressions"] = shown
		r.Min("grouping", 60)
	}
}
