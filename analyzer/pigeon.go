package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// parsePigeon reads a pigeon grammar file (the published grammar).
func parsePigeon(src string) (g *Grammar, err error) {
	ps := &pgp{s: []rune(src)}
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(pgErr); ok {
				err = fmt.Errorf("line %d: %s", ps.line(), string(pe))
				return
			}
			panic(e)
		}
	}()
	g = &Grammar{Rules: map[string]*GX{}}
	ps.ws()
	if ps.peek() == '{' { // initializer
		ps.code()
		ps.ws()
	}
	for !ps.eof() {
		name := ps.ident()
		ps.ws()
		if ps.peek() == '"' || ps.peek() == '\'' || ps.peek() == '`' {
			ps.literal()
			ps.ws()
		}
		if !ps.arrow() {
			panic(pgErr("expected <- after " + name))
		}
		ps.ws()
		x := ps.choice()
		if g.Rules[name] != nil {
			panic(pgErr("rule defined twice: " + name))
		}
		g.Rules[name] = x
		g.Order = append(g.Order, name)
		ps.ws()
		if ps.peek() == ';' {
			ps.i++
			ps.ws()
		}
	}
	return g, nil
}

type pgErr string

type pgp struct {
	s []rune
	i int
}

func (p *pgp) line() int {
	n := 1
	for k := 0; k < p.i && k < len(p.s); k++ {
		if p.s[k] == '\n' {
			n++
		}
	}
	return n
}
func (p *pgp) eof() bool { return p.i >= len(p.s) }
func (p *pgp) peek() rune {
	if p.eof() {
		return 0
	}
	return p.s[p.i]
}
func (p *pgp) has(t string) bool {
	return strings.HasPrefix(string(p.s[p.i:min(len(p.s), p.i+len([]rune(t)))]), t)
}
func (p *pgp) ws() {
	for !p.eof() {
		switch {
		case unicode.IsSpace(p.peek()):
			p.i++
		case p.has("//"):
			for !p.eof() && p.peek() != '\n' {
				p.i++
			}
		case p.has("/*"):
			p.i += 2
			for !p.eof() && !p.has("*/") {
				p.i++
			}
			p.i += 2
		default:
			return
		}
	}
}
func isIdent(c rune, first bool) bool {
	return c == '_' || unicode.IsLetter(c) || (!first && unicode.IsDigit(c))
}
func (p *pgp) ident() string {
	st := p.i
	for !p.eof() && isIdent(p.peek(), p.i == st) {
		p.i++
	}
	if st == p.i {
		panic(pgErr(fmt.Sprintf("expected a name, found %q", string(p.peek()))))
	}
	return string(p.s[st:p.i])
}
func (p *pgp) arrow() bool {
	for _, a := range []string{"<-", "←", "⟵", "="} {
		if p.has(a) {
			p.i += len([]rune(a))
			return true
		}
	}
	return false
}

// ruleAhead reports whether a new rule definition starts here.
func (p *pgp) ruleAhead() bool {
	save := p.i
	defer func() { p.i = save }()
	if p.eof() || !isIdent(p.peek(), true) {
		return p.eof()
	}
	p.ident()
	p.ws()
	if p.peek() == '"' || p.peek() == '\'' || p.peek() == '`' {
		p.literal()
		p.ws()
	}
	return p.arrow()
}
func (p *pgp) choice() *GX {
	x := &GX{Kind: GChoice}
	for {
		x.Subs = append(x.Subs, p.action())
		p.ws()
		if p.peek() == '/' && !p.has("//") && !p.has("/*") && !p.has("//{") {
			p.i++
			p.ws()
			continue
		}
		break
	}
	if len(x.Subs) == 1 {
		return x.Subs[0]
	}
	return x
}
func (p *pgp) action() *GX {
	x := &GX{Kind: GSeq}
	for {
		p.ws()
		if p.eof() || p.peek() == ')' || p.peek() == '/' || p.peek() == ';' || p.ruleAhead() {
			break
		}
		if p.peek() == '{' {
			p.code()
			y := &GX{Kind: GAction, Subs: []*GX{x}}
			if len(x.Subs) == 1 {
				y.Subs[0] = x.Subs[0]
			}
			return y
		}
		x.Subs = append(x.Subs, p.labeled())
	}
	if len(x.Subs) == 0 {
		panic(pgErr("empty expression"))
	}
	if len(x.Subs) == 1 {
		return x.Subs[0]
	}
	return x
}
func (p *pgp) labeled() *GX {
	save := p.i
	if isIdent(p.peek(), true) {
		n := p.ident()
		p.ws()
		if p.peek() == ':' {
			p.i++
			p.ws()
			return &GX{Kind: GLabel, Name: n, Subs: []*GX{p.prefixed()}}
		}
		p.i = save
	}
	return p.prefixed()
}
func (p *pgp) prefixed() *GX {
	switch p.peek() {
	case '&', '!':
		c := p.peek()
		p.i++
		p.ws()
		if p.peek() == '{' {
			p.code()
			return &GX{Kind: GPredCode, Name: string(c)}
		}
		k := GAnd
		if c == '!' {
			k = GNot
		}
		return &GX{Kind: k, Subs: []*GX{p.suffixed()}}
	case '#':
		p.i++
		p.ws()
		p.code()
		return &GX{Kind: GState}
	}
	return p.suffixed()
}
func (p *pgp) suffixed() *GX {
	x := p.primary()
	p.ws()
	switch p.peek() {
	case '?':
		p.i++
		return &GX{Kind: GOpt, Subs: []*GX{x}}
	case '*':
		p.i++
		return &GX{Kind: GStar, Subs: []*GX{x}}
	case '+':
		p.i++
		return &GX{Kind: GPlus, Subs: []*GX{x}}
	}
	return x
}
func (p *pgp) primary() *GX {
	c := p.peek()
	switch {
	case c == '(':
		p.i++
		p.ws()
		x := p.choice()
		p.ws()
		if p.peek() != ')' {
			panic(pgErr("expected )"))
		}
		p.i++
		return x
	case c == '"' || c == '\'' || c == '`':
		s := p.literal()
		x := &GX{Kind: GLit, Name: s}
		if p.peek() == 'i' {
			p.i++
			x.IgnoreCase = true
		}
		return x
	case c == '[':
		return p.class()
	case c == '.':
		p.i++
		return &GX{Kind: GAny}
	case isIdent(c, true):
		return &GX{Kind: GRef, Name: p.ident()}
	}
	panic(pgErr(fmt.Sprintf("unexpected %q", string(c))))
}
func (p *pgp) escape() rune {
	// after a backslash
	c := p.peek()
	p.i++
	switch c {
	case 'n':
		return '\n'
	case 't':
		return '\t'
	case 'r':
		return '\r'
	case 'x', 'u', 'U':
		n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[c]
		var v rune
		for k := 0; k < n; k++ {
			var d int
			if _, err := fmt.Sscanf(string(p.peek()), "%x", &d); err != nil {
				panic(pgErr("bad escape"))
			}
			v = v*16 + rune(d)
			p.i++
		}
		return v
	}
	return c
}
func (p *pgp) literal() string {
	q := p.peek()
	p.i++
	var b []rune
	for !p.eof() && p.peek() != q {
		if p.peek() == '\\' && q != '`' {
			p.i++
			b = append(b, p.escape())
			continue
		}
		b = append(b, p.peek())
		p.i++
	}
	if p.eof() {
		panic(pgErr("unterminated literal"))
	}
	p.i++
	return string(b)
}
func (p *pgp) class() *GX {
	x := &GX{Kind: GClass}
	p.i++
	if p.peek() == '^' {
		x.Inverted = true
		p.i++
	}
	one := func() rune {
		c := p.peek()
		p.i++
		if c == '\\' {
			return p.escape()
		}
		return c
	}
	for !p.eof() && p.peek() != ']' {
		if p.has("\\p") {
			p.i += 2
			if p.peek() == '{' {
				p.i++
				st := p.i
				for !p.eof() && p.peek() != '}' {
					p.i++
				}
				x.Classes = append(x.Classes, string(p.s[st:p.i]))
				p.i++
			} else {
				x.Classes = append(x.Classes, string(p.peek()))
				p.i++
			}
			continue
		}
		c := one()
		if p.peek() == '-' && p.i+1 < len(p.s) && p.s[p.i+1] != ']' {
			p.i++
			d := one()
			x.Ranges = append(x.Ranges, c, d)
			continue
		}
		x.Chars = append(x.Chars, c)
	}
	p.i++
	if p.peek() == 'i' {
		p.i++
		x.IgnoreCase = true
	}
	return x
}

// code skips a Go code block, minding strings, runes and comments.
func (p *pgp) code() {
	if p.peek() != '{' {
		panic(pgErr("expected {"))
	}
	depth := 0
	for !p.eof() {
		c := p.peek()
		switch {
		case c == '{':
			depth++
			p.i++
		case c == '}':
			depth--
			p.i++
			if depth == 0 {
				return
			}
		case c == '"' || c == '\'' || c == '`':
			p.literal()
		case p.has("//"), p.has("/*"):
			p.ws()
		default:
			p.i++
		}
	}
	panic(pgErr("unterminated code block"))
}

// bare removes labels and actions and flattens nested sequences and
// choices: what remains decides which texts are accepted.
func (x *GX) bare() *GX {
	switch x.Kind {
	case GAction, GLabel:
		return x.Subs[0].bare()
	case GSeq, GChoice:
		y := &GX{Kind: x.Kind}
		for _, s := range x.Subs {
			b := s.bare()
			if b.Kind == x.Kind {
				y.Subs = append(y.Subs, b.Subs...)
			} else {
				y.Subs = append(y.Subs, b)
			}
		}
		if len(y.Subs) == 1 {
			return y.Subs[0]
		}
		return y
	}
	y := *x
	y.Subs = nil
	for _, s := range x.Subs {
		y.Subs = append(y.Subs, s.bare())
	}
	if y.Kind == GLit && y.IgnoreCase {
		y.Name = strings.ToLower(y.Name)
		if strings.ToUpper(y.Name) == y.Name {
			y.IgnoreCase = false
		}
	}
	return &y
}

func checkC22(p *Prog, r *Report, tier string) {
	r.Explain = "The grammar value compiled into the parser (read from the type-checked composite literal) and the published pigeon grammar file are both reduced to their parsing expressions (labels, action code and redundant nesting removed) and compared rule by rule."
	r.Assume = append(r.Assume, "the interpreter of parsing expressions in parser.go is pigeon's standard runtime; action code is not compared")
	g, err := extractGrammar(p)
	if err != nil {
		r.Fail("grammar-extracted", "pkg/core/parser", "", err.Error())
		return
	}
	path := filepath.Join(p.Repo, "pkg/core/parser/parser.pigeon")
	src, err := os.ReadFile(path)
	if err != nil {
		r.Fail("published-grammar", "parser.pigeon", "", err.Error())
		return
	}
	pub, err := parsePigeon(string(src))
	if err != nil {
		r.Fail("published-grammar", "parser.pigeon", "", err.Error())
		return
	}
	r.Analysed["rules in use"] = len(g.Order)
	r.Analysed["published rules"] = len(pub.Order)
	if len(g.Order) > 0 && len(pub.Order) > 0 {
		r.Check(g.Order[0] == pub.Order[0], "same-start-rule", "start rule", "", fmt.Sprintf("in use %s, published %s", g.Order[0], pub.Order[0]))
	}
	names := map[string]bool{}
	for n := range g.Rules {
		names[n] = true
	}
	for n := range pub.Rules {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		a, b := g.Rules[n], pub.Rules[n]
		pos := "pkg/core/parser/parser.pigeon"
		if a != nil {
			pos = p.Pos(g.RPos[n])
		}
		switch {
		case a == nil:
			r.Fail("rule-in-both", "grammar rule "+n, pos, "published but not in use")
		case b == nil:
			r.Fail("rule-in-both", "grammar rule "+n, pos, "in use but not published")
		default:
			sa, sb := a.bare().String(), b.bare().String()
			r.Check(sa == sb, "same-expression", "grammar rule "+n, pos, fmt.Sprintf("in use: %s; published: %s", sa, sb))
		}
	}
	r.Min("same-expression", 30)
}

func checkC07(p *Prog, r *Report, tier string) {
	r.Explain = "First-character analysis of the grammar value the parser interprets: inside every recursive component, alternatives, options and repetitions that lead back into the component must be decided by their first character, so no text is parsed again in the component after a failed attempt; components are finitely many and ordered, so the total work is polynomial."
	r.Assume = append(r.Assume, "the runtime in parser.go evaluates parsing expressions as PEG semantics prescribes, each in time linear in what it consumes")
	g, err := extractGrammar(p)
	if err != nil {
		r.Fail("grammar-extracted", "pkg/core/parser", "", err.Error())
		return
	}
	a := analyseGrammar(g)
	r.Analysed["grammar rules"] = len(g.Order)
	a.checkBacktracking(p, r)
	a.checkTermination(p, r)
	r.Min("recursive-rule", 12)
	r.Min("first-character-decides", 6)
	r.Min("skip-or-repeat-decided-by-first-character", 4)
}

func init() {
	checks["C22"] = checkC22
	checks["C07"] = checkC07
}
