package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// GKind is the kind of a parsing expression.
type GKind int

const (
	GSeq GKind = iota
	GChoice
	GAction
	GLabel
	GRef
	GLit
	GClass
	GAny
	GStar
	GPlus
	GOpt
	GNot
	GAnd
	GState
	GPredCode
	GThrow
	GRecover
)

var gkindNames = []string{"seq", "choice", "action", "label", "ref", "lit", "class", "any", "star", "plus", "opt", "not", "and", "state", "pred", "throw", "recover"}

// GX is a parsing expression.
type GX struct {
	Kind       GKind
	Subs       []*GX
	Name       string // rule, label or literal
	IgnoreCase bool
	Inverted   bool
	Chars      []rune
	Ranges     []rune
	Classes    []string
	Run        *types.Func // action, state or predicate code
	Pos        token.Pos
}

type Grammar struct {
	Rules map[string]*GX
	Order []string
	RPos  map[string]token.Pos
}

func (x *GX) String() string {
	switch x.Kind {
	case GSeq, GChoice:
		var ss []string
		for _, s := range x.Subs {
			ss = append(ss, s.String())
		}
		sep := " "
		if x.Kind == GChoice {
			sep = " / "
		}
		return "(" + strings.Join(ss, sep) + ")"
	case GAction:
		return x.Subs[0].String() + "{}"
	case GLabel:
		return x.Name + ":" + x.Subs[0].String()
	case GRef:
		return x.Name
	case GLit:
		s := fmt.Sprintf("%q", x.Name)
		if x.IgnoreCase {
			s += "i"
		}
		return s
	case GClass:
		s := "["
		if x.Inverted {
			s += "^"
		}
		for _, c := range x.Chars {
			s += fmt.Sprintf("%q", string(c))
		}
		for i := 0; i+1 < len(x.Ranges); i += 2 {
			s += fmt.Sprintf("%q-%q", string(x.Ranges[i]), string(x.Ranges[i+1]))
		}
		for _, c := range x.Classes {
			s += "\\p{" + c + "}"
		}
		s += "]"
		if x.IgnoreCase {
			s += "i"
		}
		return s
	case GAny:
		return "."
	case GStar:
		return x.Subs[0].String() + "*"
	case GPlus:
		return x.Subs[0].String() + "+"
	case GOpt:
		return x.Subs[0].String() + "?"
	case GNot:
		return "!" + x.Subs[0].String()
	case GAnd:
		return "&" + x.Subs[0].String()
	case GState:
		return "#{}"
	case GPredCode:
		return x.Name + "{}"
	}
	return gkindNames[x.Kind]
}

func (g *Grammar) String() string {
	var b strings.Builder
	for _, n := range g.Order {
		fmt.Fprintf(&b, "%s <- %s\n", n, g.Rules[n])
	}
	return b.String()
}

// extractGrammar reads the grammar value the parser interprets from the
// composite literal that initialises the package-level variable of type
// *grammar in the parser package.
func extractGrammar(p *Prog) (*Grammar, error) {
	pk := p.Pkgs[p.Module+"/pkg/core/parser"]
	if pk == nil {
		return nil, fmt.Errorf("package pkg/core/parser not found")
	}
	obj := pk.Types.Scope().Lookup("g")
	var lit *ast.CompositeLit
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					o := pk.TypesInfo.Defs[n]
					if o == nil || i >= len(vs.Values) {
						continue
					}
					if pt, ok := o.Type().(*types.Pointer); ok {
						if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Name() == "grammar" && (obj == nil || o == obj) {
							if u, ok := vs.Values[i].(*ast.UnaryExpr); ok {
								lit, _ = u.X.(*ast.CompositeLit)
							}
						}
					}
				}
			}
		}
	}
	if lit == nil {
		return nil, fmt.Errorf("no grammar literal in pkg/core/parser")
	}
	e := &gextract{p: p, pk: pk}
	g := &Grammar{Rules: map[string]*GX{}, RPos: map[string]token.Pos{}}
	for _, el := range lit.Elts {
		kv := el.(*ast.KeyValueExpr)
		if kv.Key.(*ast.Ident).Name != "rules" {
			continue
		}
		rl := e.lit(kv.Value)
		if rl == nil {
			return nil, fmt.Errorf("rules is not a literal")
		}
		for _, re := range rl.Elts {
			r := e.lit(re)
			if r == nil {
				return nil, fmt.Errorf("%s: rule is not a literal", p.Pos(re.Pos()))
			}
			var name string
			var x *GX
			for _, fe := range r.Elts {
				fkv := fe.(*ast.KeyValueExpr)
				switch fkv.Key.(*ast.Ident).Name {
				case "name":
					name = e.str(fkv.Value)
				case "expr":
					var err error
					x, err = e.expr(fkv.Value)
					if err != nil {
						return nil, err
					}
				}
			}
			if name == "" || x == nil {
				return nil, fmt.Errorf("%s: malformed rule", p.Pos(r.Pos()))
			}
			if g.Rules[name] != nil {
				return nil, fmt.Errorf("rule %s defined twice", name)
			}
			g.Rules[name] = x
			g.RPos[name] = r.Pos()
			g.Order = append(g.Order, name)
		}
	}
	if len(g.Order) == 0 {
		return nil, fmt.Errorf("grammar without rules")
	}
	for _, n := range g.Order {
		var bad error
		g.Rules[n].walk(func(x *GX) {
			if x.Kind == GRef && g.Rules[x.Name] == nil {
				bad = fmt.Errorf("rule %s refers to undefined rule %s", n, x.Name)
			}
		})
		if bad != nil {
			return nil, bad
		}
	}
	return g, nil
}

func (x *GX) walk(f func(*GX)) {
	f(x)
	for _, s := range x.Subs {
		s.walk(f)
	}
}

type gextract struct {
	p  *Prog
	pk *packages.Package
}

func (e *gextract) lit(x ast.Expr) *ast.CompositeLit {
	switch v := x.(type) {
	case *ast.CompositeLit:
		return v
	case *ast.UnaryExpr:
		c, _ := v.X.(*ast.CompositeLit)
		return c
	}
	return nil
}

func (e *gextract) str(x ast.Expr) string {
	if tv, ok := e.pk.TypesInfo.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value)
	}
	return ""
}

func (e *gextract) boolean(x ast.Expr) bool {
	tv, ok := e.pk.TypesInfo.Types[x]
	return ok && tv.Value != nil && constant.BoolVal(tv.Value)
}

func (e *gextract) runes(x ast.Expr) []rune {
	var out []rune
	if l := e.lit(x); l != nil {
		for _, el := range l.Elts {
			if tv, ok := e.pk.TypesInfo.Types[el]; ok && tv.Value != nil {
				n, _ := constant.Int64Val(tv.Value)
				out = append(out, rune(n))
			}
		}
	}
	return out
}

func (e *gextract) expr(x ast.Expr) (*GX, error) {
	l := e.lit(x)
	if l == nil {
		return nil, fmt.Errorf("%s: grammar expression is not a literal", e.p.Pos(x.Pos()))
	}
	t := e.pk.TypesInfo.Types[l].Type
	nt, ok := t.(*types.Named)
	if !ok {
		return nil, fmt.Errorf("%s: unexpected grammar type %s", e.p.Pos(x.Pos()), t)
	}
	g := &GX{Pos: l.Pos()}
	fields := map[string]ast.Expr{}
	for _, el := range l.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			fields[kv.Key.(*ast.Ident).Name] = kv.Value
		}
	}
	sub := func(name string) error {
		if fields[name] == nil {
			return fmt.Errorf("%s: %s without %s", e.p.Pos(x.Pos()), nt.Obj().Name(), name)
		}
		s, err := e.expr(fields[name])
		if err != nil {
			return err
		}
		g.Subs = append(g.Subs, s)
		return nil
	}
	list := func(name string) error {
		ll := e.lit(fields[name])
		if ll == nil {
			return fmt.Errorf("%s: %s without %s", e.p.Pos(x.Pos()), nt.Obj().Name(), name)
		}
		for _, el := range ll.Elts {
			s, err := e.expr(el)
			if err != nil {
				return err
			}
			g.Subs = append(g.Subs, s)
		}
		return nil
	}
	run := func() error {
		f := e.funcObj(fields["run"])
		if f == nil {
			return fmt.Errorf("%s: cannot resolve the code of %s", e.p.Pos(x.Pos()), nt.Obj().Name())
		}
		g.Run = f
		return nil
	}
	var err error
	switch nt.Obj().Name() {
	case "actionExpr":
		g.Kind = GAction
		if err = sub("expr"); err == nil {
			err = run()
		}
	case "seqExpr":
		g.Kind = GSeq
		err = list("exprs")
	case "choiceExpr":
		g.Kind = GChoice
		err = list("alternatives")
	case "labeledExpr":
		g.Kind = GLabel
		g.Name = e.str(fields["label"])
		err = sub("expr")
	case "ruleRefExpr":
		g.Kind = GRef
		g.Name = e.str(fields["name"])
	case "litMatcher":
		g.Kind = GLit
		g.Name = e.str(fields["val"])
		g.IgnoreCase = fields["ignoreCase"] != nil && e.boolean(fields["ignoreCase"])
	case "charClassMatcher":
		g.Kind = GClass
		g.IgnoreCase = fields["ignoreCase"] != nil && e.boolean(fields["ignoreCase"])
		g.Inverted = fields["inverted"] != nil && e.boolean(fields["inverted"])
		if fields["chars"] != nil {
			g.Chars = e.runes(fields["chars"])
		}
		if fields["ranges"] != nil {
			g.Ranges = e.runes(fields["ranges"])
		}
		if fields["basicLatinChars"] != nil {
			return nil, fmt.Errorf("%s: basicLatinChars not supported", e.p.Pos(x.Pos()))
		}
		if fields["classes"] != nil {
			if ll := e.lit(fields["classes"]); ll != nil {
				for _, el := range ll.Elts {
					c, ok := el.(*ast.CallExpr)
					if !ok || len(c.Args) != 1 {
						return nil, fmt.Errorf("%s: unexpected class", e.p.Pos(el.Pos()))
					}
					g.Classes = append(g.Classes, e.str(c.Args[0]))
				}
			}
		}
	case "anyMatcher":
		g.Kind = GAny
	case "zeroOrMoreExpr":
		g.Kind = GStar
		err = sub("expr")
	case "oneOrMoreExpr":
		g.Kind = GPlus
		err = sub("expr")
	case "zeroOrOneExpr":
		g.Kind = GOpt
		err = sub("expr")
	case "notExpr":
		g.Kind = GNot
		err = sub("expr")
	case "andExpr":
		g.Kind = GAnd
		err = sub("expr")
	case "stateCodeExpr":
		g.Kind = GState
		err = run()
	case "andCodeExpr":
		g.Kind = GPredCode
		g.Name = "&"
		err = run()
	case "notCodeExpr":
		g.Kind = GPredCode
		g.Name = "!"
		err = run()
	default:
		return nil, fmt.Errorf("%s: grammar expression %s not supported", e.p.Pos(x.Pos()), nt.Obj().Name())
	}
	return g, err
}

// funcObj resolves a method expression such as (*parser).callonX1.
func (e *gextract) funcObj(x ast.Expr) *types.Func {
	for {
		if pe, ok := x.(*ast.ParenExpr); ok {
			x = pe.X
			continue
		}
		break
	}
	switch v := x.(type) {
	case *ast.SelectorExpr:
		if f, ok := e.pk.TypesInfo.Uses[v.Sel].(*types.Func); ok {
			return f
		}
	case *ast.Ident:
		if f, ok := e.pk.TypesInfo.Uses[v].(*types.Func); ok {
			return f
		}
	}
	return nil
}

// ---- structural analyses ----

const (
	gaSpace2 = 128 // non-ASCII separator
	gaOther  = 129 // any other non-ASCII character
	gaSize   = 130
)

type charSet [gaSize]bool

func (s *charSet) or(o *charSet) bool {
	ch := false
	for i := range s {
		if o[i] && !s[i] {
			s[i] = true
			ch = true
		}
	}
	return ch
}
func (s *charSet) meets(o *charSet) []string {
	var r []string
	for i := range s {
		if s[i] && o[i] {
			r = append(r, symName(i))
		}
	}
	return r
}
func symName(i int) string {
	switch i {
	case gaSpace2:
		return "<non-ASCII space>"
	case gaOther:
		return "<non-ASCII>"
	}
	return fmt.Sprintf("%q", string(rune(i)))
}

func lower(c rune) rune {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// classSet is the set of symbols a one-character expression accepts.
func (x *GX) classSet() charSet {
	var s charSet
	switch x.Kind {
	case GAny:
		for i := range s {
			s[i] = true
		}
	case GClass:
		for i := 0; i < gaSize; i++ {
			in := false
			if i < 128 {
				c := rune(i)
				if x.IgnoreCase {
					c = lower(c)
				}
				for _, d := range x.Chars {
					if c == d || (x.IgnoreCase && lower(d) == c) {
						in = true
					}
				}
				for k := 0; k+1 < len(x.Ranges); k += 2 {
					if c >= x.Ranges[k] && c <= x.Ranges[k+1] {
						in = true
					}
				}
				for _, cl := range x.Classes {
					if cl == "Z" && c == ' ' {
						in = true
					}
				}
			} else {
				for _, cl := range x.Classes {
					if cl == "Z" && i == gaSpace2 {
						in = true
					}
					if cl != "Z" {
						in = true
					}
				}
				for _, d := range x.Chars {
					if d > 127 {
						in = true
					}
				}
				for k := 0; k+1 < len(x.Ranges); k += 2 {
					if x.Ranges[k+1] > 127 {
						in = true
					}
				}
			}
			s[i] = in != x.Inverted
		}
	case GLit:
		if x.Name == "" {
			return s
		}
		c := []rune(x.Name)[0]
		if c > 127 {
			s[gaOther] = true
			s[gaSpace2] = true
			break
		}
		for i := 0; i < 128; i++ {
			if rune(i) == c || (x.IgnoreCase && lower(rune(i)) == lower(c)) {
				s[i] = true
			}
		}
	}
	return s
}

type gAnalysis struct {
	g        *Grammar
	nullable map[string]bool
	first    map[string]*charSet
	follow   map[string]*charSet
	reach    map[string]map[string]bool // rule -> rules it refers to transitively (at least one step)
}

func analyseGrammar(g *Grammar) *gAnalysis {
	a := &gAnalysis{g: g, nullable: map[string]bool{}, first: map[string]*charSet{}, follow: map[string]*charSet{}, reach: map[string]map[string]bool{}}
	for _, n := range g.Order {
		a.first[n] = &charSet{}
		a.follow[n] = &charSet{}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Order {
			if !a.nullable[n] && a.null(g.Rules[n]) {
				a.nullable[n] = true
				ch = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Order {
			f := a.firstOf(g.Rules[n])
			if a.first[n].or(&f) {
				ch = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Order {
			if a.followWalk(g.Rules[n], *a.follow[n]) {
				ch = true
			}
		}
	}
	for _, n := range g.Order {
		a.reach[n] = map[string]bool{}
		g.Rules[n].walk(func(x *GX) {
			if x.Kind == GRef {
				a.reach[n][x.Name] = true
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Order {
			for m := range a.reach[n] {
				for k := range a.reach[m] {
					if !a.reach[n][k] {
						a.reach[n][k] = true
						ch = true
					}
				}
			}
		}
	}
	return a
}

func (a *gAnalysis) null(x *GX) bool {
	switch x.Kind {
	case GSeq:
		for _, s := range x.Subs {
			if !a.null(s) {
				return false
			}
		}
		return true
	case GChoice:
		for _, s := range x.Subs {
			if a.null(s) {
				return true
			}
		}
		return false
	case GAction, GLabel, GPlus:
		return a.null(x.Subs[0])
	case GRef:
		return a.nullable[x.Name]
	case GLit:
		return x.Name == ""
	case GStar, GOpt, GNot, GAnd, GState, GPredCode:
		return true
	}
	return false
}

func (a *gAnalysis) firstOf(x *GX) charSet {
	var s charSet
	switch x.Kind {
	case GSeq:
		for _, e := range x.Subs {
			f := a.firstOf(e)
			s.or(&f)
			if !a.null(e) {
				break
			}
		}
	case GChoice:
		for _, e := range x.Subs {
			f := a.firstOf(e)
			s.or(&f)
		}
	case GAction, GLabel, GPlus, GStar, GOpt:
		return a.firstOf(x.Subs[0])
	case GRef:
		return *a.first[x.Name]
	case GLit, GClass, GAny:
		return x.classSet()
	}
	return s
}

// followWalk propagates what may come after x.
func (a *gAnalysis) followWalk(x *GX, after charSet) bool {
	ch := false
	switch x.Kind {
	case GSeq:
		cont := after
		for i := len(x.Subs) - 1; i >= 0; i-- {
			if a.followWalk(x.Subs[i], cont) {
				ch = true
			}
			f := a.firstOf(x.Subs[i])
			if a.null(x.Subs[i]) {
				cont.or(&f)
			} else {
				cont = f
			}
		}
	case GChoice:
		for _, s := range x.Subs {
			if a.followWalk(s, after) {
				ch = true
			}
		}
	case GAction, GLabel, GOpt:
		return a.followWalk(x.Subs[0], after)
	case GStar, GPlus:
		f := a.firstOf(x.Subs[0])
		after.or(&f)
		return a.followWalk(x.Subs[0], after)
	case GNot, GAnd:
		var all charSet
		for i := range all {
			all[i] = true
		}
		return a.followWalk(x.Subs[0], all)
	case GRef:
		return a.follow[x.Name].or(&after)
	}
	return ch
}

// leftRefs are the rules x may enter before consuming a character.
func (a *gAnalysis) leftRefs(x *GX, out map[string]bool) {
	switch x.Kind {
	case GSeq:
		for _, s := range x.Subs {
			a.leftRefs(s, out)
			if !a.null(s) {
				return
			}
		}
	case GRef:
		out[x.Name] = true
	default:
		for _, s := range x.Subs {
			a.leftRefs(s, out)
		}
	}
}

func (a *gAnalysis) sameSCC(m, n string) bool {
	return m == n && a.reach[n][n] || a.reach[m][n] && a.reach[n][m]
}

// entersSCC reports whether x can enter a rule of n's recursive component.
func (a *gAnalysis) entersSCC(x *GX, n string) bool {
	r := false
	x.walk(func(y *GX) {
		if y.Kind == GRef && (a.sameSCC(y.Name, n) || a.reach[y.Name][n]) {
			r = true
		}
	})
	return r
}

// checkTerminationOfGrammar: no left recursion, no repetition of a
// nullable expression.
func (a *gAnalysis) checkTermination(p *Prog, r *Report) {
	left := map[string]map[string]bool{}
	for _, n := range a.g.Order {
		left[n] = map[string]bool{}
		a.leftRefs(a.g.Rules[n], left[n])
	}
	for ch := true; ch; {
		ch = false
		for _, n := range a.g.Order {
			for m := range left[n] {
				for k := range left[m] {
					if !left[n][k] {
						left[n][k] = true
						ch = true
					}
				}
			}
		}
	}
	for _, n := range a.g.Order {
		r.Check(!left[n][n], "no-left-recursion", "grammar rule "+n, p.Pos(a.g.RPos[n]),
			"the rule may call itself only after consuming a character")
		i := 0
		a.g.Rules[n].walk(func(x *GX) {
			if x.Kind == GStar || x.Kind == GPlus {
				i++
				r.Check(!a.null(x.Subs[0]), "repeated-expression-consumes", fmt.Sprintf("grammar rule %s, repetition of %s", n, x.Subs[0]), p.Pos(x.Pos),
					"a repeated expression must not match the empty text")
			}
		})
	}
}

// checkBacktracking: within a recursive component a character decides
// between alternatives that lead back into the component.
func (a *gAnalysis) checkBacktracking(p *Prog, r *Report) {
	for _, n := range a.g.Order {
		if !a.reach[n][n] {
			continue
		}
		r.Analysed["recursive grammar rules"]++
		r.OK("recursive-rule", "grammar rule "+n, p.Pos(a.g.RPos[n]), "member of a recursive component: alternatives and repetitions checked")
		a.backtrackWalk(p, r, n, a.g.Rules[n], *a.follow[n], false)
		r.Check(!a.nullable[n], "recursive-rule-consumes", "grammar rule "+n, p.Pos(a.g.RPos[n]), "a recursive rule must not match the empty text")
	}
}

// contEnters tells whether what follows in the rule body enters the SCC.
func (a *gAnalysis) backtrackWalk(p *Prog, r *Report, n string, x *GX, after charSet, contEnters bool) {
	switch x.Kind {
	case GSeq:
		cont := after
		ce := contEnters
		for i := len(x.Subs) - 1; i >= 0; i-- {
			a.backtrackWalk(p, r, n, x.Subs[i], cont, ce)
			f := a.firstOf(x.Subs[i])
			if a.null(x.Subs[i]) {
				cont.or(&f)
			} else {
				cont = f
			}
			if a.entersSCC(x.Subs[i], n) {
				ce = true
			}
		}
	case GChoice:
		for i := range x.Subs {
			for j := i + 1; j < len(x.Subs); j++ {
				if !a.entersSCC(x.Subs[i], n) || !a.entersSCC(x.Subs[j], n) {
					continue
				}
				fi, fj := a.firstOf(x.Subs[i]), a.firstOf(x.Subs[j])
				m := fi.meets(&fj)
				ok := len(m) == 0 && !a.null(x.Subs[i]) && !a.null(x.Subs[j])
				r.Check(ok, "first-character-decides", fmt.Sprintf("grammar rule %s, alternatives %s and %s", n, x.Subs[i], x.Subs[j]), p.Pos(x.Subs[j].Pos),
					fmt.Sprintf("both alternatives lead back into the rule; they may share the first character(s) %v, so a failure in the first parses the same text again in the second at every nesting level", m))
			}
		}
		for _, s := range x.Subs {
			a.backtrackWalk(p, r, n, s, after, contEnters)
		}
	case GAction, GLabel:
		a.backtrackWalk(p, r, n, x.Subs[0], after, contEnters)
	case GOpt, GStar, GPlus:
		if a.entersSCC(x.Subs[0], n) {
			f := a.firstOf(x.Subs[0])
			m := f.meets(&after)
			r.Check(len(m) == 0, "skip-or-repeat-decided-by-first-character", fmt.Sprintf("grammar rule %s, %s", n, x), p.Pos(x.Pos),
				fmt.Sprintf("the repeated or optional part and what may follow it share the first character(s) %v, so a failed attempt is parsed again at every nesting level", m))
		}
		if x.Kind != GOpt {
			f := a.firstOf(x.Subs[0])
			after.or(&f)
		}
		a.backtrackWalk(p, r, n, x.Subs[0], after, contEnters)
	case GNot, GAnd:
		r.Check(!a.entersSCC(x.Subs[0], n), "no-lookahead-into-recursion", fmt.Sprintf("grammar rule %s, %s", n, x), p.Pos(x.Pos),
			"a lookahead over a recursive rule parses its text twice at every nesting level")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
