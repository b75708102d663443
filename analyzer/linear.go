package main

import (
	"math"
	"math/big"
)

// Linear inequalities over integer terms, for values that are combinations
// of the operands, their quotient and their remainder.

type ineq struct { // sum of c[x]*x + k <= 0
	c map[*Term]*big.Int
	k *big.Int
}

func linIneq(t *Term, k int64) ineq { // t + k <= 0
	bs, cs, c := linParts(t)
	q := ineq{map[*Term]*big.Int{}, new(big.Int).Add(big.NewInt(c), big.NewInt(k))}
	for i, b := range bs {
		q.c[b] = big.NewInt(cs[i])
	}
	return q
}

func (q ineq) neg() ineq { // not (t <= 0)  <=>  -t + 1 <= 0
	n := ineq{map[*Term]*big.Int{}, new(big.Int).Neg(q.k)}
	n.k.Add(n.k, big.NewInt(1))
	for x, c := range q.c {
		n.c[x] = new(big.Int).Neg(c)
	}
	return n
}

// diff is x - y + k <= 0.
func diff(x, y *Term, k int64) ineq {
	q := linIneq(x, k)
	r := linIneq(y, 0)
	for v, c := range r.c {
		if q.c[v] == nil {
			q.c[v] = new(big.Int)
		}
		q.c[v] = new(big.Int).Sub(q.c[v], c)
		if q.c[v].Sign() == 0 {
			delete(q.c, v)
		}
	}
	q.k.Sub(q.k, r.k)
	return q
}

// feasible decides whether the inequalities have a rational solution, with
// every derived inequality rounded to the integers.
func feasible(qs []ineq) bool {
	for step := 0; ; step++ {
		var v *Term
		best := -1
		cnt := map[*Term][2]int{}
		for i := range qs {
			q := &qs[i]
			if len(q.c) == 0 {
				if q.k.Sign() > 0 {
					return false
				}
				continue
			}
			g := new(big.Int)
			for _, c := range q.c {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				for x, c := range q.c {
					q.c[x] = new(big.Int).Quo(c, g)
				}
				// ceil(k/g)
				d, m := new(big.Int).DivMod(q.k, g, new(big.Int))
				if m.Sign() != 0 {
					d.Add(d, big.NewInt(1))
				}
				q.k = d
			}
			for x, c := range q.c {
				n := cnt[x]
				if c.Sign() > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[x] = n
			}
		}
		for x, n := range cnt {
			w := n[0] * n[1]
			if best < 0 || w < best || w == best && x.id < v.id {
				best, v = w, x
			}
		}
		if v == nil {
			return true
		}
		if len(qs) > 4000 {
			return true
		}
		var up, low, rest []ineq
		for _, q := range qs {
			c := q.c[v]
			switch {
			case c == nil:
				rest = append(rest, q)
			case c.Sign() > 0:
				up = append(up, q)
			default:
				low = append(low, q)
			}
		}
		for _, u := range up {
			for _, l := range low {
				a, b := u.c[v], new(big.Int).Neg(l.c[v])
				n := ineq{map[*Term]*big.Int{}, new(big.Int)}
				n.k.Add(new(big.Int).Mul(u.k, b), new(big.Int).Mul(l.k, a))
				for x, c := range u.c {
					n.c[x] = new(big.Int).Mul(c, b)
				}
				for x, c := range l.c {
					if n.c[x] == nil {
						n.c[x] = new(big.Int)
					}
					n.c[x].Add(n.c[x], new(big.Int).Mul(c, a))
				}
				for x, c := range n.c {
					if c.Sign() == 0 {
						delete(n.c, x)
					}
				}
				rest = append(rest, n)
			}
		}
		qs = rest
	}
}

func cloneIneqs(qs []ineq) []ineq {
	out := make([]ineq, len(qs))
	for i, q := range qs {
		n := ineq{map[*Term]*big.Int{}, new(big.Int).Set(q.k)}
		for x, c := range q.c {
			n.c[x] = new(big.Int).Set(c)
		}
		out[i] = n
	}
	return out
}

func infeasible(qs []ineq, more ...ineq) bool {
	return !feasible(cloneIneqs(append(append([]ineq{}, qs...), more...)))
}

// linear domain: a conjunction of inequalities under which literals are
// translated.
type linCase struct {
	qs []ineq
	// a literal that was left out because a term in it may wrap around
	wraps *Term
}

func (lc linCase) with(q ...ineq) linCase {
	return linCase{append(append([]ineq{}, lc.qs...), q...), lc.wraps}
}

// within proves lo <= t <= hi.
func (lc linCase) within(t *Term, lo, hi *big.Int) bool {
	above := linIneq(t, 0).neg() // t >= 1
	// t > hi: -t + hi + 1 <= 0
	above.k = new(big.Int).Sub(new(big.Int).Add(hi, big.NewInt(1)), constOf(t))
	below := linIneq(t, 0) // t <= lo-1: t - lo + 1 <= 0
	below.k = new(big.Int).Add(constOf(t), new(big.Int).Sub(big.NewInt(1), lo))
	return infeasible(lc.qs, above) && infeasible(lc.qs, below)
}

func constOf(t *Term) *big.Int {
	_, _, k := linParts(t)
	return big.NewInt(k)
}

// literals translates a boolean term with a truth value to the cases in
// which it holds; ok is false for terms outside the domain.
func (lc linCase) literal(t *Term, v bool, known func(*Term) bool) (out []linCase, ok bool) {
	if t.isConst() {
		if t.b == v {
			return []linCase{lc}, true
		}
		return nil, true
	}
	if t.op == "not" {
		return lc.literal(t.args[0], !v, known)
	}
	vars := func(x *Term) bool {
		bs, _, _ := linParts(x)
		for _, b := range bs {
			if !known(b) {
				return false
			}
		}
		return true
	}
	switch t.op {
	case "lt", "ult":
		x, y := t.args[0], t.args[1]
		if !vars(x) || !vars(y) {
			return nil, false
		}
		lo, hi := big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
		if t.op == "ult" {
			lo, hi = new(big.Int), new(big.Int).SetUint64(math.MaxUint64)
		}
		if infeasible(lc.qs) {
			return nil, true
		}
		for _, s := range []*Term{x, y} {
			if !lc.within(s, lo, hi) {
				n := lc
				n.wraps = s
				return []linCase{n}, true
			}
		}
		if v {
			return []linCase{lc.with(diff(x, y, 1))}, true
		}
		return []linCase{lc.with(diff(y, x, 0))}, true
	case "eq":
		x, y := t.args[0], t.args[1]
		if x.kind == KBool {
			for _, b := range []bool{true, false} {
				ps, ok := lc.literal(x, b, known)
				if !ok {
					return nil, false
				}
				for _, p := range ps {
					qs, ok := p.literal(y, b == v, known)
					if !ok {
						return nil, false
					}
					out = append(out, qs...)
				}
			}
			return out, true
		}
		if x.kind != KInt || !vars(x) || !vars(y) {
			return nil, false
		}
		if v {
			return []linCase{lc.with(diff(x, y, 0), diff(y, x, 0))}, true
		}
		return []linCase{lc.with(diff(x, y, 1)), lc.with(diff(y, x, 1))}, true
	}
	return nil, false
}

// path conjoins the decisions of a path.
func (lc linCase) path(st *State, known func(*Term) bool) (out []linCase, ok bool) {
	out = []linCase{lc}
	// signs first: they bound the others
	for pass := 0; pass < 2; pass++ {
		for _, t := range boolsOf(st) {
			v := st.facts.bools[t]
			simple := t.op == "lt" && t.args[1].isConst() || t.op == "eq" && t.args[1].isConst()
			if simple != (pass == 0) {
				continue
			}
			var n []linCase
			for _, c := range out {
				cs, ok := c.literal(t, v, known)
				if !ok {
					return nil, false
				}
				for _, c := range cs {
					if !infeasible(c.qs) {
						n = append(n, c)
					}
				}
			}
			out = n
		}
	}
	return out, true
}
