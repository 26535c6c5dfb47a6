package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// Linear constraints over integer atoms, with Fourier-Motzkin elimination. The abstract domain of the
// backward analysis in back.go.

type atom struct {
	id     int
	kind   atomKind
	fr     *bframe
	v      mval
	idx    lin // aRead
	name   string
	lo, hi int64
	hasLo  bool
	hasHi  bool
}

type atomKind int

const (
	aVal  atomKind = iota // an integer, byte or boolean
	aLen                  // length of a slice, string, map
	aNN                   // 1 when a pointer, map, function or interface is not nil
	aRead                 // a byte of a string or byte slice
	aCap                  // capacity of a slice
)

type term1 struct {
	a *atom
	k int64
}

type lin struct {
	c int64
	t []term1 // sorted by atom id, no zero coefficients
}

func linC(c int64) lin { return lin{c: c} }
func linA(a *atom) lin { return lin{t: []term1{{a, 1}}} }

func (x lin) add(y lin, k int64) lin {
	if k == 0 {
		return x
	}
	out := lin{c: x.c + k*y.c, t: make([]term1, 0, len(x.t)+len(y.t))}
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || i < len(x.t) && x.t[i].a.id < y.t[j].a.id:
			out.t = append(out.t, x.t[i])
			i++
		case i >= len(x.t) || y.t[j].a.id < x.t[i].a.id:
			out.t = append(out.t, term1{y.t[j].a, k * y.t[j].k})
			j++
		default:
			if s := x.t[i].k + k*y.t[j].k; s != 0 {
				out.t = append(out.t, term1{x.t[i].a, s})
			}
			i++
			j++
		}
	}
	return out
}

func (x lin) scale(k int64) lin { return linC(0).add(x, k) }
func (x lin) plus(c int64) lin  { x.c += c; return x }
func (x lin) isConst() bool     { return len(x.t) == 0 }

func (x lin) coef(a *atom) int64 {
	for _, t := range x.t {
		if t.a == a {
			return t.k
		}
	}
	return 0
}

func (x lin) subst(a *atom, by lin) lin {
	k := x.coef(a)
	if k == 0 {
		return x
	}
	out := lin{c: x.c}
	for _, t := range x.t {
		if t.a != a {
			out.t = append(out.t, t)
		}
	}
	return out.add(by, k)
}

func (x lin) String() string {
	var sb strings.Builder
	for i, t := range x.t {
		switch {
		case t.k == 1 && i > 0:
			sb.WriteString(" + ")
		case t.k == -1:
			sb.WriteString(" - ")
		case t.k != 1:
			fmt.Fprintf(&sb, " %+d*", t.k)
		}
		sb.WriteString(t.a.name)
	}
	if x.c != 0 || len(x.t) == 0 {
		fmt.Fprintf(&sb, " %+d", x.c)
	}
	return sb.String()
}

func (x lin) appendKey(b []byte) []byte {
	for _, t := range x.t {
		b = binary.AppendVarint(b, t.k)
		b = binary.AppendUvarint(b, uint64(t.a.id))
	}
	b = append(b, '|')
	return binary.AppendVarint(b, x.c)
}

func (x lin) key() string { return string(x.appendKey(make([]byte, 0, 32))) }

type cop int

const (
	cLE cop = iota // l <= 0
	cEQ            // l == 0
	cNE            // l != 0
)

type con struct {
	l    lin
	op   cop
	goal bool // comes from the condition being chased
}

func le(x, y lin) con { return con{l: x.add(y, -1), op: cLE} }         // x <= y
func lt(x, y lin) con { return con{l: x.add(y, -1).plus(1), op: cLE} } // x < y
func eq(x, y lin) con { return con{l: x.add(y, -1), op: cEQ} }
func ne(x, y lin) con { return con{l: x.add(y, -1), op: cNE} }

func (c con) neg() []con {
	switch c.op {
	case cLE:
		return []con{{l: c.l.scale(-1).plus(1), op: cLE}}
	case cEQ:
		return []con{{l: c.l, op: cNE}}
	}
	return []con{{l: c.l, op: cEQ}}
}

func (c con) String() string {
	s := map[cop]string{cLE: " <= 0", cEQ: " == 0", cNE: " != 0"}[c.op]
	if c.goal {
		s += " !"
	}
	return c.l.String() + s
}

func (c con) key() string { return string(c.l.appendKey(append(make([]byte, 0, 32), byte(c.op)))) }

func consKey(cs []con) string {
	ks := make([]string, len(cs))
	for i, c := range cs {
		ks[i] = c.key()
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x00;")
}

func consString(cs []con) string {
	var ks []string
	for _, c := range cs {
		ks = append(ks, c.String())
	}
	return strings.Join(ks, ", ")
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// norm tightens a constraint over the integers. ok=false: it can never hold; drop: it always holds.
func (c con) norm() (out con, ok, drop bool) {
	if len(c.l.t) == 0 {
		switch c.op {
		case cLE:
			return c, c.l.c <= 0, true
		case cEQ:
			return c, c.l.c == 0, true
		default:
			return c, c.l.c != 0, true
		}
	}
	g := int64(0)
	for _, t := range c.l.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		l := lin{t: make([]term1, len(c.l.t))}
		for i, t := range c.l.t {
			l.t[i] = term1{t.a, t.k / g}
		}
		switch c.op {
		case cLE:
			l.c = -floorDiv(-c.l.c, g)
		default:
			if c.l.c%g != 0 {
				return c, c.op == cNE, true
			}
			l.c = c.l.c / g
		}
		c.l = l
	}
	if c.op != cLE && c.l.t[0].k < 0 {
		c.l = c.l.scale(-1)
	}
	return c, true, false
}

const fmCap = 260

// normAll normalises, removes duplicates and keeps the tightest of parallel inequalities.
func normAll(cs []con) ([]con, bool) {
	out := make([]con, 0, len(cs))
	at := map[string]int{}
	for _, c := range cs {
		c, ok, drop := c.norm()
		if !ok {
			return nil, false
		}
		if drop {
			continue
		}
		l0 := c.l
		l0.c = 0
		if c.op != cLE {
			l0.c = c.l.c
		}
		k := con{l: l0, op: c.op}.key()
		if i, dup := at[k]; dup {
			if c.op == cLE && c.l.c > out[i].l.c {
				out[i] = c
			} else if c.l.c == out[i].l.c && !c.goal {
				out[i].goal = false
			}
			continue
		}
		at[k] = len(out)
		out = append(out, c)
	}
	return out, true
}

func (c con) unitAtom(pref func(*atom) bool) *atom {
	var best *atom
	for _, t := range c.l.t {
		if (t.k == 1 || t.k == -1) && pref(t.a) {
			if best == nil || t.a.id > best.id {
				best = t.a
			}
		}
	}
	return best
}

// solveFor gives the value of a from an equation in which its coefficient is +-1.
func (c con) solveFor(a *atom) lin {
	k := c.l.coef(a)
	rest := c.l.subst(a, linC(0))
	return rest.scale(-k)
}

// fmStep removes a from the inequalities by combining its lower and upper bounds.
func fmStep(cs []con, a *atom) ([]con, bool) {
	var lo, hi, rest []con
	for _, c := range cs {
		k := c.l.coef(a)
		switch {
		case k == 0:
			rest = append(rest, c)
		case c.op == cNE:
			// says nothing about the others
		case c.op == cEQ:
			p := con{l: c.l, op: cLE, goal: c.goal}
			n := con{l: c.l.scale(-1), op: cLE, goal: c.goal}
			if k > 0 {
				hi, lo = append(hi, p), append(lo, n)
			} else {
				hi, lo = append(hi, n), append(lo, p)
			}
		case k > 0:
			hi = append(hi, c)
		default:
			lo = append(lo, c)
		}
	}
	if len(lo)*len(hi)+len(rest) > fmCap {
		return rest, true
	}
	for _, l := range lo {
		for _, h := range hi {
			kl, kh := -l.l.coef(a), h.l.coef(a)
			g := gcd(kl, kh)
			rest = append(rest, con{l: l.l.scale(kh/g).add(h.l, kl/g), op: cLE, goal: l.goal || h.goal})
		}
	}
	return normAll(rest)
}

// atomsOf lists the atoms of the constraints; inner also those inside reads.
func atomsOf(cs []con, inner bool) []*atom {
	seen := map[*atom]bool{}
	var out []*atom
	var visit func(a *atom)
	visit = func(a *atom) {
		if seen[a] {
			return
		}
		seen[a] = true
		out = append(out, a)
		if inner && a.kind == aRead {
			for _, t := range a.idx.t {
				visit(t.a)
			}
		}
	}
	for _, c := range cs {
		for _, t := range c.l.t {
			visit(t.a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
