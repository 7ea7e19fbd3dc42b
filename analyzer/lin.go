package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sym is the identity of an atom: a program quantity the analysis treats as opaque.
type Sym int

// Lin is a linear expression over atoms: c + sum(coef*atom).
type Lin struct {
	c *big.Int
	t map[Sym]int64
}

func linConst(n int64) *Lin { return &Lin{c: big.NewInt(n), t: nil} }
func linBig(n *big.Int) *Lin {
	return &Lin{c: new(big.Int).Set(n)}
}
func linSym(s Sym) *Lin { return &Lin{c: new(big.Int), t: map[Sym]int64{s: 1}} }

func (a *Lin) isConst() bool { return len(a.t) == 0 }
func (a *Lin) constVal() (int64, bool) {
	if len(a.t) == 0 && a.c.IsInt64() {
		return a.c.Int64(), true
	}
	return 0, false
}

func (a *Lin) soleSym() (Sym, bool) {
	if len(a.t) == 1 && a.c.Sign() == 0 {
		for s, k := range a.t {
			if k == 1 {
				return s, true
			}
		}
	}
	return 0, false
}

func (a *Lin) addScaled(b *Lin, k int64) *Lin {
	r := &Lin{c: new(big.Int).Mul(b.c, big.NewInt(k)), t: make(map[Sym]int64, len(a.t)+len(b.t))}
	r.c.Add(r.c, a.c)
	for s, v := range a.t {
		r.t[s] = v
	}
	for s, v := range b.t {
		n := r.t[s] + v*k
		if n == 0 {
			delete(r.t, s)
		} else {
			r.t[s] = n
		}
	}
	return r
}
func (a *Lin) add(b *Lin) *Lin { return a.addScaled(b, 1) }
func (a *Lin) sub(b *Lin) *Lin { return a.addScaled(b, -1) }
func (a *Lin) addC(n int64) *Lin {
	return a.addScaled(linConst(n), 1)
}
func (a *Lin) scale(k int64) *Lin { return linConst(0).addScaled(a, k) }
func (a *Lin) equal(b *Lin) bool {
	d := a.sub(b)
	return d.isConst() && d.c.Sign() == 0
}

func (a *Lin) key() string {
	syms := make([]int, 0, len(a.t))
	for s := range a.t {
		syms = append(syms, int(s))
	}
	sort.Ints(syms)
	var sb strings.Builder
	for _, s := range syms {
		fmt.Fprintf(&sb, "%d*s%d+", a.t[Sym(s)], s)
	}
	sb.WriteString(a.c.String())
	return sb.String()
}

func (a *Lin) maxCoef() int64 {
	var m int64
	for _, v := range a.t {
		if v < 0 {
			v = -v
		}
		if v > m {
			m = v
		}
	}
	return m
}

// normalise divides by the gcd of the coefficients and tightens the constant (a >= 0 over the integers).
func (a *Lin) tighten() *Lin {
	var g int64
	for _, v := range a.t {
		if v < 0 {
			v = -v
		}
		g = gcd64(g, v)
	}
	if g <= 1 {
		return a
	}
	r := &Lin{c: new(big.Int), t: make(map[Sym]int64, len(a.t))}
	for s, v := range a.t {
		r.t[s] = v / g
	}
	gb := big.NewInt(g)
	r.c.Div(a.c, gb) // Euclidean: floor for positive divisor
	return r
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// infeasible reports whether the conjunction of (c >= 0) has no integer solution,
// by Fourier–Motzkin elimination with integer tightening. It is incomplete
// (false means "not shown infeasible").
func infeasible(cons []*Lin) bool {
	const maxCons = 1500
	cur := map[string]*Lin{}
	bad := false
	addTo := func(m map[string]*Lin, l *Lin) {
		l = l.tighten()
		if l.isConst() {
			if l.c.Sign() < 0 {
				bad = true
			}
			return
		}
		// key without constant: keep the strongest
		k := coefKey(l)
		if o, ok := m[k]; ok {
			if l.c.Cmp(o.c) < 0 {
				m[k] = l
			}
			return
		}
		m[k] = l
	}
	for _, l := range cons {
		addTo(cur, l)
		if bad {
			return true
		}
	}
	for len(cur) > 0 {
		// opposite pairs quick check happens naturally during elimination
		type cnt struct{ p, n int }
		cs := map[Sym]*cnt{}
		for _, l := range cur {
			for s, v := range l.t {
				c := cs[s]
				if c == nil {
					c = &cnt{}
					cs[s] = c
				}
				if v > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		best := Sym(-1)
		bestCost := int(^uint(0) >> 1)
		var keys []int
		for s := range cs {
			keys = append(keys, int(s))
		}
		sort.Ints(keys)
		for _, si := range keys {
			c := cs[Sym(si)]
			cost := c.p*c.n - c.p - c.n
			if cost < bestCost {
				bestCost = cost
				best = Sym(si)
			}
		}
		if best < 0 {
			return false
		}
		var pos, neg []*Lin
		next := map[string]*Lin{}
		for _, l := range cur {
			v := l.t[best]
			switch {
			case v > 0:
				pos = append(pos, l)
			case v < 0:
				neg = append(neg, l)
			default:
				next[coefKey(l)] = l
			}
		}
		if len(pos)*len(neg)+len(next) > maxCons {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.t[best], -n.t[best]
				g := gcd64(a, b)
				r := p.scale(b/g).addScaled(n, a/g)
				delete(r.t, best)
				if r.maxCoef() > 1<<30 {
					continue
				}
				addTo(next, r)
				if bad {
					return true
				}
			}
		}
		cur = next
	}
	return false
}

func coefKey(a *Lin) string {
	syms := make([]int, 0, len(a.t))
	for s := range a.t {
		syms = append(syms, int(s))
	}
	sort.Ints(syms)
	b := make([]byte, 0, 16*len(syms))
	for _, s := range syms {
		b = fmt.Appendf(b, "%d*%d,", a.t[Sym(s)], s)
	}
	return string(b)
}
