package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed symbolic scalars. Integer terms are kept as linear
// combinations modulo 2^64, which is exact for Go's wrapping arithmetic on
// int and uint.

type TKind byte

const (
	KInt TKind = iota
	KBool
	KStr
	KOther
)

type Term struct {
	id    int
	kind  TKind
	op    string // "const", "sym", "lin", or an operator
	args  []*Term
	coefs []int64 // lin
	k     int64   // int constant or lin offset
	s     string  // string constant or symbol name
	b     bool    // bool constant
}

type termTable struct {
	tab map[string]*Term
	n   int
}

var terms = &termTable{tab: map[string]*Term{}}

func (tt *termTable) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte('0' + byte(t.kind))
	sb.WriteString(t.op)
	sb.WriteByte('|')
	for i, a := range t.args {
		sb.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.coefs[i], 10))
		}
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.k, 10))
	if t.b {
		sb.WriteByte('T')
	}
	sb.WriteByte('|')
	sb.WriteString(t.s)
	key := sb.String()
	if o, ok := tt.tab[key]; ok {
		return o
	}
	tt.n++
	t.id = tt.n
	n := t
	tt.tab[key] = &n
	return &n
}

var symCounter int

func freshSym(k TKind, name string) *Term {
	symCounter++
	return terms.mk(Term{kind: k, op: "sym", s: fmt.Sprintf("%s#%d", name, symCounter)})
}

// namedSym is a symbol identified by its name alone.
func namedSym(k TKind, name string) *Term {
	return terms.mk(Term{kind: k, op: "sym", s: name})
}

func tInt(k int64) *Term { return terms.mk(Term{kind: KInt, op: "const", k: k}) }
func tStr(s string) *Term {
	return terms.mk(Term{kind: KStr, op: "const", s: s})
}
func tBool(b bool) *Term { return terms.mk(Term{kind: KBool, op: "const", b: b}) }

var tTrue, tFalse, tZero = tBool(true), tBool(false), tInt(0)

func (t *Term) isConst() bool { return t.op == "const" }

func (t *Term) String() string {
	switch t.op {
	case "const":
		switch t.kind {
		case KInt:
			return strconv.FormatInt(t.k, 10)
		case KBool:
			return strconv.FormatBool(t.b)
		default:
			return strconv.Quote(t.s)
		}
	case "sym":
		return t.s
	case "lin":
		var sb strings.Builder
		for i, a := range t.args {
			c := t.coefs[i]
			if c == 1 {
				if i > 0 {
					sb.WriteString("+")
				}
			} else if c == -1 {
				sb.WriteString("-")
			} else {
				if i > 0 && c > 0 {
					sb.WriteString("+")
				}
				sb.WriteString(strconv.FormatInt(c, 10) + "*")
			}
			sb.WriteString(a.String())
		}
		if t.k != 0 {
			fmt.Fprintf(&sb, "%+d", t.k)
		}
		return sb.String()
	}
	var ss []string
	for _, a := range t.args {
		ss = append(ss, a.String())
	}
	return t.op + "(" + strings.Join(ss, ",") + ")"
}

func app(k TKind, op string, args ...*Term) *Term {
	return terms.mk(Term{kind: k, op: op, args: args})
}

// linParts decomposes an integer term.
func linParts(t *Term) ([]*Term, []int64, int64) {
	switch t.op {
	case "const":
		return nil, nil, t.k
	case "lin":
		return t.args, t.coefs, t.k
	}
	return []*Term{t}, []int64{1}, 0
}

func mkLin(m map[*Term]int64, k int64) *Term {
	var bs []*Term
	for b, c := range m {
		if c != 0 {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return tInt(k)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	if len(bs) == 1 && k == 0 && m[bs[0]] == 1 {
		return bs[0]
	}
	cs := make([]int64, len(bs))
	for i, b := range bs {
		cs[i] = m[b]
	}
	return terms.mk(Term{kind: KInt, op: "lin", args: bs, coefs: cs, k: k})
}

func tLin(a *Term, ca int64, b *Term, cb int64) *Term {
	m := map[*Term]int64{}
	as, acs, ak := linParts(a)
	for i, x := range as {
		m[x] += ca * acs[i]
	}
	bs, bcs, bk := linParts(b)
	for i, x := range bs {
		m[x] += cb * bcs[i]
	}
	return mkLin(m, ca*ak+cb*bk)
}

func tAdd(a, b *Term) *Term        { return tLin(a, 1, b, 1) }
func tSub(a, b *Term) *Term        { return tLin(a, 1, b, -1) }
func tNeg(a *Term) *Term           { return tLin(a, -1, tZero, 0) }
func tAddK(a *Term, k int64) *Term { return tLin(a, 1, tInt(k), 1) }

func tMul(a, b *Term) *Term {
	if a.isConst() {
		return tLin(b, a.k, tZero, 0)
	}
	if b.isConst() {
		return tLin(a, b.k, tZero, 0)
	}
	// sign-normalise single-base negations: (-x)*y = -(x*y)
	neg := false
	strip := func(t *Term) *Term {
		if t.op == "lin" && len(t.args) == 1 && t.coefs[0] == -1 && t.k == 0 {
			neg = !neg
			return t.args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	if a.id > b.id {
		a, b = b, a
	}
	r := app(KInt, "mul", a, b)
	if neg {
		return tNeg(r)
	}
	return r
}

func tQuo(a, b *Term) *Term {
	if b.isConst() && b.k == 1 {
		return a
	}
	if a.isConst() && b.isConst() && b.k != 0 && !(a.k == math.MinInt64 && b.k == -1) {
		return tInt(a.k / b.k)
	}
	return app(KInt, "quo", a, b)
}

func tRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 && b.k != -1 {
		return tInt(a.k % b.k)
	}
	return app(KInt, "rem", a, b)
}

func tNot(a *Term) *Term {
	if a.isConst() {
		return tBool(!a.b)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return app(KBool, "not", a)
}

func tLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(a.k < b.k)
	}
	// canonical forms against constants: x < c, x > c as not(x < c+1)
	if a.isConst() && a.k < math.MaxInt64 { // c < x  <=>  not (x < c+1)
		return tNot(app(KBool, "lt", b, tInt(a.k+1)))
	}
	return app(KBool, "lt", a, b)
}
func tLe(a, b *Term) *Term { return tNot(tLt(b, a)) }

func tUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(uint64(a.k) < uint64(b.k))
	}
	return app(KBool, "ult", a, b)
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.kind == KInt && b.kind == KInt {
		d := tSub(a, b)
		if d.isConst() {
			return tBool(d.k == 0)
		}
		// canonical sign: first coefficient positive
		_, cs, _ := linParts(d)
		if cs[0] < 0 {
			d = tNeg(d)
		}
		// isolate a constant: x + k == 0  ->  eq(x, -k)
		bs, cs, k := linParts(d)
		if len(bs) == 1 && cs[0] == 1 {
			return app(KBool, "eq", bs[0], tInt(-k))
		}
		if len(bs) == 2 && cs[0] == 1 && cs[1] == -1 && k == 0 {
			x, y := bs[0], bs[1]
			if x.id > y.id {
				x, y = y, x
			}
			return app(KBool, "eq", x, y)
		}
		return app(KBool, "eq", d, tZero)
	}
	if a.isConst() && b.isConst() {
		switch a.kind {
		case KBool:
			return tBool(a.b == b.b)
		case KStr:
			return tBool(a.s == b.s)
		}
	}
	if a.kind == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.b {
				return a
			}
			return tNot(a)
		}
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	return app(KBool, "eq", a, b)
}

// tConcat joins strings, merging adjacent constants.
func tConcat(parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		if p.op == "concat" {
			flat = append(flat, p.args...)
		} else {
			flat = append(flat, p)
		}
	}
	var out []*Term
	for _, p := range flat {
		if p.isConst() && p.s == "" {
			continue
		}
		if p.isConst() && len(out) > 0 && out[len(out)-1].isConst() {
			out[len(out)-1] = tStr(out[len(out)-1].s + p.s)
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return app(KStr, "concat", out...)
}

func (t *Term) mentions(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.mentions(f) {
			return true
		}
	}
	return false
}

// ---- facts: difference bounds, truth of atoms ----

// Facts holds constraints x - y <= c over term values (as mathematical
// integers) and the known truth of atomic conditions. The tables are shared
// between clones until one of them is written to.
type Facts struct {
	up      map[*Term]map[*Term]int64 // x -> y -> c
	upOwn   bool
	cache   map[*Term]map[*Term]int64 // distances from a source
	bools   map[*Term]bool
	boolOwn bool
}

func newFacts() *Facts {
	return &Facts{up: map[*Term]map[*Term]int64{}, upOwn: true, cache: map[*Term]map[*Term]int64{}, bools: map[*Term]bool{}, boolOwn: true}
}

func (f *Facts) clone() *Facts {
	f.upOwn, f.boolOwn = false, false
	return &Facts{up: f.up, cache: f.cache, bools: f.bools}
}

func (f *Facts) setUp(x, y *Term, c int64) {
	if !f.upOwn {
		n := make(map[*Term]map[*Term]int64, len(f.up)+1)
		for k, v := range f.up {
			n[k] = v
		}
		f.up, f.upOwn = n, true
	}
	m := make(map[*Term]int64, len(f.up[x])+1)
	for k, v := range f.up[x] {
		m[k] = v
	}
	m[y] = c
	f.up[x] = m
	f.cache = map[*Term]map[*Term]int64{}
}

func (f *Facts) setBool(t *Term, v bool) {
	if !f.boolOwn {
		n := make(map[*Term]bool, len(f.bools)+1)
		for k, w := range f.bools {
			n[k] = w
		}
		f.bools, f.boolOwn = n, true
	}
	f.bools[t] = v
}

const maxLen = int64(1) << 48 // no slice or string is longer

// intrinsic bounds of a term on its own.
func intrinsic(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch t.op {
	case "const":
		return t.k, t.k, true, true
	case "len":
		return 0, maxLen, true, true
	case "byte":
		return 0, 255, true, true
	case "sym":
		if strings.HasPrefix(t.s, "len:") {
			return 0, maxLen, true, true
		}
	}
	return math.MinInt64, math.MaxInt64, true, true
}

func satAdd(a, b int64) int64 {
	if a > 0 && b > math.MaxInt64-a {
		return math.MaxInt64
	}
	if a < 0 && b < math.MinInt64-a {
		return math.MinInt64
	}
	return a + b
}

// split writes t as var + off, exact as mathematical integers.
func (f *Facts) split(t *Term) (*Term, int64) {
	if t.isConst() {
		return tZero, t.k
	}
	if t.op == "lin" && len(t.args) == 1 && t.coefs[0] == 1 {
		b := t.args[0]
		lo, hi := f.bounds(b)
		if t.k >= 0 && hi <= math.MaxInt64-t.k || t.k < 0 && lo >= math.MinInt64-t.k {
			return b, t.k
		}
	}
	return t, 0
}

func (f *Facts) bounds(v *Term) (int64, int64) {
	if v.isConst() {
		return v.k, v.k
	}
	lo, hi, _, _ := intrinsic(v)
	if u, ok := f.dist(v, tZero); ok && u < hi {
		hi = u
	}
	if u, ok := f.dist(tZero, v); ok && u != math.MinInt64 && -u > lo {
		lo = -u
	}
	return lo, hi
}

// dist is the least known upper bound of x - y for variables x, y.
func (f *Facts) dist(x, y *Term) (int64, bool) {
	if x == y {
		return 0, true
	}
	best, ok := f.cache[x]
	if !ok {
		best = f.from(x)
		f.cache[x] = best
	}
	c, ok := best[y]
	if z, okz := best[tZero]; okz {
		lo, _, _, _ := intrinsic(y)
		if lo != math.MinInt64 {
			if d := satAdd(z, -lo); !ok || d < c {
				c, ok = d, true
			}
		}
	}
	return c, ok
}

// from computes the distances from x.
func (f *Facts) from(x *Term) map[*Term]int64 {
	best := map[*Term]int64{x: 0}
	queue := []*Term{x}
	inq := map[*Term]bool{x: true}
	relax := func(z *Term, c int64) {
		if o, ok := best[z]; !ok || c < o {
			best[z] = c
			if !inq[z] {
				inq[z] = true
				queue = append(queue, z)
			}
		}
	}
	steps := 0
	for len(queue) > 0 && steps < 4000 {
		steps++
		v := queue[0]
		queue = queue[1:]
		inq[v] = false
		c := best[v]
		for y, w := range f.up[v] {
			relax(y, satAdd(c, w))
		}
		if v != tZero {
			_, hi, _, _ := intrinsic(v)
			if hi != math.MaxInt64 {
				relax(tZero, satAdd(c, hi))
			}
		} else {
			for z := range f.up {
				if z == tZero {
					continue
				}
				lo, _, _, _ := intrinsic(z)
				if lo != math.MinInt64 {
					relax(z, satAdd(c, -lo))
				}
			}
		}
	}
	return best
}

// upper bounds a - b for arbitrary integer terms.
func (f *Facts) upper(a, b *Term) (int64, bool) {
	x, cx := f.split(a)
	y, cy := f.split(b)
	d, ok := f.dist(x, y)
	if !ok {
		// fall back on bounds
		_, hi := f.bounds(x)
		lo, _ := f.bounds(y)
		if hi == math.MaxInt64 || lo == math.MinInt64 {
			return 0, false
		}
		if lo < 0 && hi > math.MaxInt64+lo {
			return 0, false
		}
		d = hi - lo
	}
	return satAdd(d, satAdd(cx, -cy)), true
}

// apart writes a difference of two bounded terms as x - y.
func (f *Facts) apart(d *Term) (x, y *Term, ok bool) {
	bs, cs, k := linParts(d)
	if len(bs) != 2 || cs[0]+cs[1] != 0 || cs[0] != 1 && cs[0] != -1 || k < -1<<40 || k > 1<<40 {
		return nil, nil, false
	}
	for _, b := range bs {
		if lo, hi := f.bounds(b); lo < -1<<40 || hi > 1<<40 {
			return nil, nil, false
		}
	}
	if cs[0] == 1 {
		return tAddK(bs[0], k), bs[1], true
	}
	return tAddK(bs[1], k), bs[0], true
}

// addLe records a - b <= c; false means contradiction.
func (f *Facts) addLe(a, b *Term, c int64) bool {
	x, cx := f.split(a)
	y, cy := f.split(b)
	c = satAdd(c, satAdd(cy, -cx))
	if x == y {
		return c >= 0
	}
	if back, ok := f.dist(y, x); ok && satAdd(back, c) < 0 {
		return false
	}
	if cur, ok := f.dist(x, y); ok && cur <= c {
		return true
	}
	f.setUp(x, y, c)
	return true
}

// addRaw records a - b <= c without looking for contradictions.
func (f *Facts) addRaw(a, b *Term, c int64) {
	x, cx := f.split(a)
	y, cy := f.split(b)
	c = satAdd(c, satAdd(cy, -cx))
	if x == y {
		return
	}
	if cur, ok := f.up[x][y]; ok && cur <= c {
		return
	}
	f.setUp(x, y, c)
}

// truth evaluates an atom: 1 true, 0 false, -1 unknown.
func (f *Facts) truth(t *Term) int {
	if t.isConst() {
		if t.b {
			return 1
		}
		return 0
	}
	if t.op == "not" {
		r := f.truth(t.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := f.bools[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.op {
	case "lt":
		a, b := t.args[0], t.args[1]
		if u, ok := f.upper(a, b); ok && u <= -1 {
			return 1
		}
		if u, ok := f.upper(b, a); ok && u <= 0 {
			return 0
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.kind == KInt {
			if x, y, ok := f.apart(tSub(a, b)); ok {
				a, b = x, y
			}
			u1, ok1 := f.upper(a, b)
			u2, ok2 := f.upper(b, a)
			if ok1 && u1 <= -1 || ok2 && u2 <= -1 {
				return 0
			}
			if ok1 && ok2 && u1 <= 0 && u2 <= 0 {
				return 1
			}
		}
		if a.kind == KStr && b.isConst() {
			for k, v := range f.bools {
				if v && k.op == "eq" && k.args[0] == a && k.args[1].isConst() {
					if k.args[1] == b {
						return 1
					}
					return 0
				}
			}
			if b.s == "" {
				if u, ok := f.upper(tZero, app(KInt, "len", a)); ok && u <= -1 {
					return 0
				}
			}
			if mn := strMinLen(a); mn > len(b.s) {
				return 0
			}
		}
	}
	return -1
}

func strMinLen(t *Term) int {
	if t.isConst() {
		return len(t.s)
	}
	if t.op == "concat" {
		n := 0
		for _, a := range t.args {
			n += strMinLen(a)
		}
		return n
	}
	if t.op == "itoa" {
		return 1
	}
	return 0
}

// assume adds an atom; false means the path is infeasible.
func (f *Facts) assume(t *Term, v bool) bool {
	switch f.truth(t) {
	case 1:
		return v
	case 0:
		return !v
	}
	if t.op == "not" {
		return f.assume(t.args[0], !v)
	}
	f.setBool(t, v)
	switch t.op {
	case "lt":
		a, b := t.args[0], t.args[1]
		if v {
			return f.addLe(a, b, -1)
		}
		return f.addLe(b, a, 0)
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.kind == KInt {
			if v {
				if x, y, ok := f.apart(tSub(a, b)); ok && !(f.addLe(x, y, 0) && f.addLe(y, x, 0)) {
					return false
				}
				return f.addLe(a, b, 0) && f.addLe(b, a, 0)
			}
			// sharpen one-sided bounds
			if u, ok := f.upper(a, b); ok && u == 0 {
				return f.addLe(a, b, -1)
			}
			if u, ok := f.upper(b, a); ok && u == 0 {
				return f.addLe(b, a, -1)
			}
		}
		if a.kind == KStr && b.isConst() {
			l := app(KInt, "len", a)
			if v {
				return f.addLe(l, tInt(int64(len(b.s))), 0) && f.addLe(tInt(int64(len(b.s))), l, 0)
			}
			if b.s == "" {
				return f.addLe(tInt(1), l, 0)
			}
		}
	}
	return true
}
