package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// conversions from text to numbers: the index of the error among the results
var conversions = map[string]int{
	"strconv.Atoi": 1, "strconv.ParseInt": 1, "strconv.ParseUint": 1, "strconv.ParseFloat": 1,
	"fmt.Sscan": 1, "fmt.Sscanf": 1, "fmt.Sscanln": 1,
}

// results of a call by index
func resultsOf(c *ssa.Call, i int) (out []*ssa.Extract) {
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			out = append(out, x)
		}
	}
	return out
}

func used(vs []*ssa.Extract) bool {
	for _, v := range vs {
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return true
			}
		}
	}
	return false
}

type convSite struct {
	fn   *ssa.Function
	call *ssa.Call
	name string
	err  int
	no   int
}

// convSites are the calls that turn text into numbers.
func (p *Prog) convSites() (out []convSite) {
	for _, f := range p.SortedFuncs() {
		if !p.IsRepoFunc(f) {
			continue
		}
		n := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				name := p.FuncName(callee)
				ei, ok := conversions[name]
				if !ok {
					continue
				}
				n[name]++
				out = append(out, convSite{f, c, name, ei, n[name]})
			}
		}
	}
	return out
}

func submatchOf(t *Term, i int) (*Term, bool) {
	if t == nil || t.op != "atoi" {
		return nil, false
	}
	a := t.args[0]
	if !strings.HasPrefix(a.op, fmt.Sprintf("submatch%d:", i)) {
		return a, false
	}
	return a, true
}

// numeral: the term is the exact value of the wanted part of a text.
func (e *Engine) numeral(t *Term, part int, what string) verdict {
	t = e.canon(t)
	a, ok := submatchOf(t, part)
	switch {
	case ok:
		return vOK
	case a != nil:
		return vBad("%s is read from %s", what, shorter(a))
	case e.clamped(t):
		return vBad("%s is what is left of a numeral that does not fit", what)
	case e.understood(t) || t.isConst():
		return vBad("%s is %s and not the number typed", what, shorter(t))
	}
	return vUnk("%s is %s", what, shorter(t))
}

func (e *Engine) clamped(t *Term) bool {
	hit := false
	leaves(t, func(s *Term) { hit = hit || strings.HasPrefix(s.String(), "atoi-clamped") })
	return hit
}

func init() {
	checks["C14"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "the action of the grammar's numeral rule, the REPL's roll handler and the dice notation are interpreted with the conversion failing or succeeding: on every successful path the number is, by name, the value of the text matched; the error of any other conversion in the repository must be looked at"
		r.Assume = append(r.Assume, "strconv.Atoi returns the exact value or an error")
		sites := p.convSites()
		r.Analysed["conversions"] = len(sites)

		// what is reached from the constructs interpreted below
		inside := map[*ssa.Function]bool{}
		// numerals of the command language
		e := parserEngine(p)
		names := append([]string(nil), e.grammar.Order...)
		sort.Strings(names)
		for _, rule := range names {
			x := e.grammar.Rules[rule]
			if x.Kind != GAction {
				continue
			}
			fn := e.gv.run[x.Run.Name()]
			if fn == nil || !p.reachesConversion(fn, map[*ssa.Function]bool{}) {
				continue
			}
			p.reached(fn, inside)
			r.Try("numeral "+rule, func() {
				a := e.action(rule)
				ok := 0
				for _, o := range a.outs {
					if e.nilness(o.st, o.ret[1]) == "nonnil" {
						continue
					}
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					ok++
					n := e.numberOf(o.st, o.ret[0])
					want := app(KInt, "atoi", a.text)
					what := "value of " + rule
					switch {
					case n == want:
						r.OK("literal", what, a.pos, "")
					case n == nil:
						undec("the value of %s", rule)
					case e.clamped(n) || e.dependsOnly(n, a.text):
						r.Fail("literal", what, a.pos, fmt.Sprintf("the number may be %s and not the one typed", shorter(n)))
					default:
						undec("the number is %s", n)
					}
				}
				if ok == 0 {
					r.Fail("literal", "value of "+rule, a.pos, "no numeral is accepted")
				}
			})
		}
		r.Min("literal", 1)

		// the roll command of the REPL
		cs := execEngine(p).replCommands(newState())
		for i := range cs {
			if cs[i].handler == nil || !p.reachesConversion(cs[i].handler.fn, map[*ssa.Function]bool{}) || !p.callsDirectly(cs[i].handler.fn, "RollDice") {
				continue
			}
			p.reached(cs[i].handler.fn, inside)
			what := "." + cs[i].name
			r.Try(what, func() {
				var repl *PtrV
				q := execEngine(p)
				q.inlining()
				q.inputs = map[*Term]bool{}
				q.stubREPL(func() *PtrV { return repl })
				c := q.replCommands(newState())[i]
				arg := namedSym(KStr, "argument")
				q.input(arg)
				pos := p.Pos(c.handler.fn.Pos())
				var outs []Outcome
				q.inScope(what, func() {
					var st *State
					repl, _, st = q.replWith("queue")
					st.events = nil
					outs = q.callFunc(nil, nil, c.handler.fn, []Value{repl, c.ptr, arg}, c.handler.binds, st, nil)
				})
				for _, o := range outs {
					if u := unknownCalls(o.st); u != "" {
						undec("depends on %s", u)
					}
					for _, ev := range eventsOf(o.st, "roll") {
						if len(ev.Vals) != 3 {
							undec("a roll of %d values", len(ev.Vals))
						}
						for k, w := range []string{"the number of dice", "the number of faces"} {
							t, ok := o.st.resolve(ev.Vals[k+1]).(*Term)
							if !ok {
								undec("%s is a %T", w, ev.Vals[k+1])
							}
							r.verdict(q.numeral(t, k+1, w), "roll", what+": "+w, pos)
						}
					}
				}
			})
		}
		r.Min("roll", 2)

		// dice notations
		die := p.NamedType("pkg/core/dice", "Die")
		for _, f := range p.SortedFuncs() {
			if !p.IsRepoFunc(f) || f.Signature.Recv() != nil || f.Signature.Results().Len() != 2 || len(f.Params) != 1 || f.Blocks == nil {
				continue
			}
			sl, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(sl.Elem(), die) || !types.Identical(f.Params[0].Type(), types.Typ[types.String]) {
				continue
			}
			name := p.FuncName(f)
			p.reached(f, inside)
			r.Try(name, func() { r.diceNotation(p, f, name) })
		}
		r.Min("dice notation", 2)

		// any other conversion
		for _, s := range sites {
			val := 0
			if s.err == 0 {
				val = 1
			}
			if s.name != "strconv.Atoi" && strings.HasPrefix(s.name, "fmt.") {
				val = -1
			}
			what := fmt.Sprintf("%s #%d in %s", s.name, s.no, p.FuncName(s.fn))
			if inside[s.fn] {
				continue
			}
			if val >= 0 && !used(resultsOf(s.call, val)) {
				continue
			}
			r.Check(used(resultsOf(s.call, s.err)), "conversion checked", what, p.Pos(s.call.Pos()), "the error of the conversion is ignored, so a numeral that does not fit is replaced by another number")
		}
	}
}

// dependsOnly: the term depends on nothing but the text given.
func (e *Engine) dependsOnly(t, text *Term) bool {
	ok := true
	leaves(t, func(s *Term) { ok = ok && s == text })
	return ok
}

// diceNotation checks a function that makes dice of a text.
func (r *Report) diceNotation(p *Prog, f *ssa.Function, name string) {
	e := execEngine(p)
	e.sequences()
	src := namedSym(KStr, "source")
	e.input(src)
	var outs []Outcome
	e.inScope("dice:"+name, func() {
		outs = e.callFunc(nil, nil, f, []Value{src}, nil, newState(), nil)
	})
	pos := p.Pos(f.Pos())
	n := 0
	for _, o := range outs {
		if e.nilness(o.st, o.ret[1]) == "nonnil" {
			continue
		}
		if u := unknownCalls(o.st); u != "" {
			undec("depends on %s", u)
		}
		g, _ := e.elementsOf(o.st, o.ret[0])
		pp := e.recOf[e.canon(g)]
		if pp == nil {
			if len(parts(e.canon(g))) > 0 {
				undec("the dice are %s", g)
			}
			continue
		}
		for i, b := range pp.backs {
			bt, ok := b.(*Term)
			if !ok {
				undec("the dice become a %T", b)
			}
			add, ok := appended(pp.cur.(*Term), e.canon(bt))
			if !ok {
				undec("the dice become %s", bt)
			}
			if len(add) == 0 {
				r.Fail("dice notation", name+": die left out", pos, "a part of the text may make no die")
				continue
			}
			if len(add) != 1 || !strings.HasPrefix(add[0].op, "struct:dice.Die") {
				undec("a die is %s", add)
			}
			_ = i
			ds := p.NamedType("pkg/core/dice", "Die").Underlying().(*types.Struct)
			for k := 0; k < ds.NumFields(); k++ {
				part := map[string]int{"Value": 1, "Sides": 2}[ds.Field(k).Name()]
				if part == 0 {
					continue
				}
				n++
				t := e.canon(add[0].args[k])
				if e.clamped(t) {
					r.Fail("dice notation", name+": "+ds.Field(k).Name()+" of a numeral that does not fit", pos, "a die is made although its numeral does not fit")
					continue
				}
				r.verdict(e.numeral(t, part, ds.Field(k).Name()), "dice notation", name+": "+ds.Field(k).Name(), pos)
			}
		}
	}
	if n == 0 {
		undec("no dice")
	}
}

// reachesConversion: the function calls, possibly through others of the
// repository, a conversion.
func (p *Prog) reachesConversion(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil {
				continue
			}
			if _, ok := conversions[p.FuncName(g)]; ok {
				return true
			}
			if p.IsRepoFunc(g) && p.reachesConversion(g, seen) {
				return true
			}
		}
	}
	return false
}

// callsDirectly: the function calls one of that name, possibly through others
// of its package.
func (p *Prog) callsDirectly(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var in func(f *ssa.Function) bool
	in = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				c, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Name() == name || g.Pkg == f.Pkg && in(g) {
					return true
				}
			}
		}
		return false
	}
	return in(f)
}

// reached collects the functions of the repository a function calls.
func (p *Prog) reached(f *ssa.Function, out map[*ssa.Function]bool) {
	if f == nil || out[f] || !p.IsRepoFunc(f) {
		return
	}
	out[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				p.reached(c.Common().StaticCallee(), out)
			}
		}
	}
	for _, g := range f.AnonFuncs {
		p.reached(g, out)
	}
}
