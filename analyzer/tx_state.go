package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of scanners over well formed texts.
//
// A text is a list of cells: single bytes of a known set, and runs of unknown length. Integers are linear expressions
// over the lengths of runs, so that a position is the sum of what lies before it. Reading inside a run takes a byte out
// of it; runs nobody points into are merged again, which keeps the number of states finite. What follows the last byte
// read is made up by a grammar, one byte at a time, and every choice of it is followed. Beside the program runs the
// specification: it sees the bytes the grammar makes and has to agree with what the program hands out.

// lx is a linear expression over symbols.
type lx struct {
	c int
	t []lxt
}
type lxt struct{ s, k int }

func lc(c int) lx { return lx{c: c} }
func ls(s int) lx { return lx{t: []lxt{{s, 1}}} }

func (a lx) plus(c int) lx { return lx{a.c + c, a.t} }

func (a lx) add(b lx, k int) lx {
	if k == 0 {
		return a
	}
	if len(b.t) == 0 {
		return lx{a.c + k*b.c, a.t}
	}
	r := lx{c: a.c + k*b.c, t: make([]lxt, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, lxt{b.t[j].s, k * b.t[j].k})
			j++
		default:
			if v := a.t[i].k + k*b.t[j].k; v != 0 {
				r.t = append(r.t, lxt{a.t[i].s, v})
			}
			i++
			j++
		}
	}
	return r
}
func (a lx) sub(b lx) lx { return a.add(b, -1) }
func (a lx) sum(b lx) lx { return a.add(b, 1) }
func (a lx) con() bool   { return len(a.t) == 0 }
func (a lx) eq(b lx) bool {
	d := a.sub(b)
	return d.con() && d.c == 0
}
func (a lx) coef(s int) int {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}
func (a lx) subst(s int, e lx) lx {
	k := a.coef(s)
	if k == 0 {
		return a
	}
	r := lx{c: a.c}
	for _, t := range a.t {
		if t.s != s {
			r.t = append(r.t, t)
		}
	}
	return r.add(e, k)
}

// bset is a set of bytes.
type bset [4]uint64

func bs(s string) (b bset) {
	for i := 0; i < len(s); i++ {
		b[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return
}
func (b bset) has(c int) bool { return c >= 0 && c < 256 && b[c>>6]>>(uint(c)&63)&1 == 1 }
func (b bset) and(o bset) bset {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b bset) or(o bset) bset {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b bset) not() bset {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b bset) empty() bool { return b == bset{} }
func (b bset) count() int {
	n := 0
	for _, w := range b {
		n += bits.OnesCount64(w)
	}
	return n
}
func (b bset) list() []int {
	var l []int
	for i := 0; i < 256; i++ {
		if b.has(i) {
			l = append(l, i)
		}
	}
	return l
}
func one(c int) (b bset) {
	b[c>>6] |= 1 << (uint(c) & 63)
	return
}

var (
	bAny    = bset{}.not()
	bSpace  = bs(" \t\n\r")
	bQuote  = bs(`"`)
	bBack   = bs(`\`)
	bPlain  = ctrl().or(bQuote).or(bBack).not()
	bScalar = bs("-+.0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	bFirst  = bs("-0123456789tfn")
)

func ctrl() (b bset) {
	for i := 0; i < 32; i++ {
		b = b.or(one(i))
	}
	return
}

// tcell is a piece of a text.
type tcell struct {
	id   int
	kind byte
	set  bset
	run  bool
	n    lx // length, 1 for a byte
}

// tseq is a text, or a list of path elements.
type tseq struct {
	cells []*tcell // immutable
}

type tk int

const (
	tvTop tk = iota
	tvInt
	tvBool
	tvByte   // unknown byte of a set
	tvCell   // byte of cell id, plus n.c
	tvText   // seq id, lo, hi
	tvStr    // constant string or bytes
	tvCat    // concatenation
	tvList   // obj id, lo, hi
	tvAddr   // obj id, element n
	tvTAddr  // seq id, position lo
	tvNil    //
	tvErr    // an error, not nil: s says which
	tvOpaque // term s(a)
	tvTuple
	tvClos
	tvFunc // callback
	tvElem // element of a path: seq id, cell
	tvIface
)

// tv is an abstract value; never changed once made.
type tv struct {
	k      tk
	n      lx
	s      string
	id     int
	lo, hi lx
	a      []*tv
	fn     *ssa.Function
	set    bset
}

func vint(e lx) *tv  { return &tv{k: tvInt, n: e} }
func vnum(c int) *tv { return &tv{k: tvInt, n: lc(c)} }
func vbool(b bool) *tv {
	if b {
		return &tv{k: tvBool, n: lc(1)}
	}
	return &tv{k: tvBool}
}
func vstr(s string) *tv          { return &tv{k: tvStr, s: s} }
func vop(s string, a ...*tv) *tv { return &tv{k: tvOpaque, s: s, a: a} }

var vtop = &tv{k: tvTop}
var vnil = &tv{k: tvNil}

// tobj is a piece of memory; never changed once shared, see tstate.own.
type tobj struct {
	kind  byte // 'a' elements, 'o' output, 'b' buffer with holes
	elems []*tv
	n     lx    // output: length so far
	items []*tv // output: what was appended and not yet looked at; buffer: pieces
	lens  []lx  // buffer: their lengths
	n2    []lx  // filled slice: where it was stored to
	tag   string
	site  ssa.Value
}

type tframe struct {
	fn   *ssa.Function
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	i    int
	env  map[ssa.Value]*tv
	free []*tv
	call ssa.CallInstruction
	redo bool // the call at hand is done again
}

type tstate struct {
	e      *teng
	min    map[int]int
	loose  map[int]bool // symbols that stand for any integer
	seqs   []*tseq
	objs   map[int]*tobj
	mine   map[int]bool
	frames []*tframe
	ne     []lx // known not to be zero
	spec   gspec
	imp    string // why the state may be more than can happen
	trail  *ttrail
	dead   bool
	lens   map[string]lx // length of an opaque text
}

type ttrail struct {
	up  *ttrail
	txt string
}

// gspec is the state of the specification.
type gspec struct {
	s map[string]string
	x map[string]lx
	v map[string]*tv
}

func (g gspec) clone() gspec {
	n := gspec{make(map[string]string, len(g.s)), make(map[string]lx, len(g.x)), make(map[string]*tv, len(g.v))}
	for k, v := range g.s {
		n.s[k] = v
	}
	for k, v := range g.x {
		n.x[k] = v
	}
	for k, v := range g.v {
		n.v[k] = v
	}
	return n
}

func (st *tstate) clone() *tstate {
	n := &tstate{e: st.e, imp: st.imp, trail: st.trail}
	n.min = make(map[int]int, len(st.min))
	for k, v := range st.min {
		n.min[k] = v
	}
	n.loose = make(map[int]bool, len(st.loose))
	for k, v := range st.loose {
		n.loose[k] = v
	}
	n.lens = make(map[string]lx, len(st.lens))
	for k, v := range st.lens {
		n.lens[k] = v
	}
	n.seqs = append([]*tseq(nil), st.seqs...)
	n.objs = make(map[int]*tobj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	st.mine = map[int]bool{}
	n.mine = map[int]bool{}
	n.ne = append([]lx(nil), st.ne...)
	n.spec = st.spec.clone()
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*tv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *tstate) top() *tframe { return st.frames[len(st.frames)-1] }

func (st *tstate) note(f string, a ...interface{}) {
	st.trail = &ttrail{st.trail, fmt.Sprintf(f, a...)}
}

func (st *tstate) sym(min int) int {
	st.e.nsym++
	st.min[st.e.nsym] = min
	return st.e.nsym
}

func (st *tstate) looseSym() int {
	st.e.nsym++
	st.min[st.e.nsym] = -1 << 40
	st.loose[st.e.nsym] = true
	return st.e.nsym
}

func (st *tstate) cellByte(kind byte, set bset) *tcell {
	st.e.ncell++
	return &tcell{id: st.e.ncell, kind: kind, set: set, n: lc(1)}
}

func (st *tstate) cellRun(kind byte, set bset, min int) *tcell {
	st.e.ncell++
	return &tcell{id: st.e.ncell, kind: kind, set: set, run: true, n: ls(st.sym(min))}
}

func (st *tstate) newObj(o *tobj) int {
	st.e.nobj++
	st.objs[st.e.nobj] = o
	st.mine[st.e.nobj] = true
	return st.e.nobj
}

// own gives an object that may be changed.
func (st *tstate) own(id int) *tobj {
	o := st.objs[id]
	if !st.mine[id] {
		c := *o
		c.elems = append([]*tv(nil), o.elems...)
		c.items = append([]*tv(nil), o.items...)
		c.lens = append([]lx(nil), o.lens...)
		o = &c
		st.objs[id] = o
		st.mine[id] = true
	}
	return o
}

// mapLx applies g to every integer expression of v.
func mapLx(v *tv, g func(lx) lx) *tv {
	if v == nil {
		return nil
	}
	switch v.k {
	case tvInt:
		if len(v.n.t) == 0 {
			return v
		}
		return &tv{k: tvInt, n: g(v.n)}
	case tvText, tvList, tvTAddr, tvOpaque, tvTuple, tvClos, tvCat, tvAddr, tvIface:
		c := *v
		c.n, c.lo, c.hi = g(v.n), g(v.lo), g(v.hi)
		if len(v.a) > 0 {
			c.a = make([]*tv, len(v.a))
			for i, x := range v.a {
				c.a[i] = mapLx(x, g)
			}
		}
		return &c
	}
	return v
}

// replaceSym puts e for symbol s everywhere.
func (st *tstate) replaceSym(s int, e lx) {
	g := func(x lx) lx { return x.subst(s, e) }
	st.eachLx(g)
	delete(st.min, s)
	delete(st.loose, s)
}

func (st *tstate) eachLx(g func(lx) lx) {
	for qi, q := range st.seqs {
		ch := false
		for _, c := range q.cells {
			if c.run && !g(c.n).eq(c.n) {
				ch = true
			}
		}
		if ch {
			nq := &tseq{}
			for _, c := range q.cells {
				if c.run {
					d := *c
					d.n = g(c.n)
					if d.n.con() && d.n.c == 0 {
						continue
					}
					c = &d
				}
				nq.cells = append(nq.cells, c)
			}
			st.seqs[qi] = nq
		}
	}
	for id, o := range st.objs {
		if o.kind == 'a' && len(o.elems) > 64 {
			continue
		}
		o = st.own(id)
		for i, v := range o.elems {
			o.elems[i] = mapLx(v, g)
		}
		for i, v := range o.items {
			o.items[i] = mapLx(v, g)
		}
		for i, v := range o.lens {
			o.lens[i] = g(v)
		}
		o.n = g(o.n)
		if len(o.n2) > 0 {
			n2 := make([]lx, len(o.n2))
			for i, v := range o.n2 {
				n2[i] = g(v)
			}
			o.n2 = n2
		}
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = mapLx(v, g)
		}
		nf := make([]*tv, len(f.free))
		for i, v := range f.free {
			nf[i] = mapLx(v, g)
		}
		f.free = nf
	}
	for i, x := range st.ne {
		st.ne[i] = g(x)
	}
	for k, x := range st.spec.x {
		st.spec.x[k] = g(x)
	}
	for k, v := range st.spec.v {
		st.spec.v[k] = mapLx(v, g)
	}
	for k, x := range st.lens {
		st.lens[k] = g(x)
	}
}

// bounds gives what is known of e: lo and hi, with ok flags.
func (st *tstate) bounds(e lx) (lo int, lok bool, hi int, hok bool) {
	lo, hi, lok, hok = e.c, e.c, true, true
	for _, t := range e.t {
		m := st.min[t.s]
		if t.k > 0 {
			hok = false
			if m < -1<<30 {
				lok = false
			}
			lo += t.k * m
		} else {
			lok = false
			if m < -1<<30 {
				hok = false
			}
			hi += t.k * m
		}
	}
	return
}

func (st *tstate) knownNonzero(e lx) bool {
	for _, x := range st.ne {
		if x.eq(e) || x.sum(e).con() && x.sum(e).c == 0 {
			return true
		}
	}
	return false
}

// seqLen is the length of a text.
func (st *tstate) seqLen(q int) lx {
	n := lc(0)
	for _, c := range st.seqs[q].cells {
		n = n.sum(c.n)
	}
	return n
}

// prefix is the position of cell j.
func (st *tstate) prefix(q, j int) lx {
	n := lc(0)
	for _, c := range st.seqs[q].cells[:j] {
		n = n.sum(c.n)
	}
	return n
}

func (st *tstate) cellIndex(q, id int) int {
	for i, c := range st.seqs[q].cells {
		if c.id == id {
			return i
		}
	}
	return -1
}

func (st *tstate) findCell(id int) (q, j int, ok bool) {
	for q := range st.seqs {
		if j := st.cellIndex(q, id); j >= 0 {
			return q, j, true
		}
	}
	return 0, 0, false
}

// setCells replaces cells j..k (exclusive) of text q.
func (st *tstate) setCells(q, j, k int, cells ...*tcell) {
	old := st.seqs[q].cells
	n := &tseq{}
	n.cells = append(n.cells, old[:j]...)
	n.cells = append(n.cells, cells...)
	n.cells = append(n.cells, old[k:]...)
	st.seqs[q] = n
}

// refine narrows the set of a byte; false when nothing is left.
func (st *tstate) refine(id int, set bset) bool {
	q, j, ok := st.findCell(id)
	if !ok {
		return true
	}
	c := *st.seqs[q].cells[j]
	c.set = c.set.and(set)
	if c.kind == 'q' && c.set.and(bSpace.or(bScalar)).empty() {
		// what is between the ends of a value was not made as a document would have it
		st.imp = "it depends on what is inside of a value"
	}
	st.setCells(q, j, j+1, &c)
	return !c.set.empty()
}

func (st *tstate) cell(id int) *tcell {
	if q, j, ok := st.findCell(id); ok {
		return st.seqs[q].cells[j]
	}
	return nil
}

// keyer names symbols and objects by their first use, so that equal states have equal keys.
type keyer struct {
	st    *tstate
	sb    strings.Builder
	syms  map[int]int
	objs  map[int]int
	queue []int
	cells map[int]string
	mask  bool
	nums  []int
	where []maskAt
}

type maskAt struct {
	kind byte // 'e' env, 'x' spec, 'o' object element, 'n' length of an output
	fr   int
	v    ssa.Value
	name string
	obj  int
	idx  int
	rest lx // what a number is relative to
}

// togo: e is so many more than the elements that are still to come before the one that is searched.
func (st *tstate) togo(e lx) bool {
	if len(e.t) != 1 || e.t[0].k != 1 {
		return false
	}
	for n, v := range st.spec.v {
		if n[0] == 'N' && v.k == tvInt && v.n.coef(e.t[0].s) == 1 {
			return true
		}
	}
	return false
}

func (k *keyer) sym(s int) int {
	n, ok := k.syms[s]
	if !ok {
		n = len(k.syms) + 1
		k.syms[s] = n
		fmt.Fprintf(&k.sb, "<%d", k.st.min[s])
		if k.st.loose[s] {
			k.sb.WriteByte('*')
		}
		k.sb.WriteByte('>')
	}
	return n
}

func (k *keyer) lx(e lx) {
	fmt.Fprintf(&k.sb, "%d", e.c)
	if len(e.t) == 0 {
		return
	}
	// symbols known already come first, in the order of their names
	ts := append([]lxt(nil), e.t...)
	sort.Slice(ts, func(i, j int) bool {
		a, aok := k.syms[ts[i].s]
		b, bok := k.syms[ts[j].s]
		if aok != bok {
			return aok
		}
		if aok {
			return a < b
		}
		return ts[i].s < ts[j].s
	})
	for _, t := range ts {
		fmt.Fprintf(&k.sb, "%+ds%d", t.k, k.sym(t.s))
	}
}

func (k *keyer) val(v *tv, at maskAt) {
	if v == nil {
		k.sb.WriteString("_")
		return
	}
	fmt.Fprintf(&k.sb, "%d", v.k)
	switch v.k {
	case tvInt:
		k.sb.WriteByte('i')
		if k.mask && at.kind != 0 && (v.n.con() || k.st.togo(v.n)) {
			k.nums = append(k.nums, v.n.c)
			at.rest = lx{t: v.n.t}
			k.where = append(k.where, at)
			k.sb.WriteByte('#')
			if len(v.n.t) > 0 {
				k.lx(at.rest)
			}
		} else {
			k.lx(v.n)
		}
	case tvBool:
		fmt.Fprintf(&k.sb, "b%d", v.n.c)
	case tvByte:
		fmt.Fprintf(&k.sb, "B%x", v.set)
	case tvCell, tvElem:
		fmt.Fprintf(&k.sb, "%sc%s+%d", v.s, k.cells[v.id], v.n.c)
	case tvText, tvList, tvAddr, tvTAddr:
		id := v.id
		if v.k == tvList || v.k == tvAddr {
			n, ok := k.objs[id]
			if !ok {
				n = len(k.objs) + 1
				k.objs[id] = n
				k.queue = append(k.queue, id)
			}
			id = n
		}
		if v.k == tvText || v.k == tvTAddr {
			k.sb.WriteString(v.s)
		}
		fmt.Fprintf(&k.sb, "t%d:", id)
		k.lx(v.lo)
		k.sb.WriteByte(':')
		k.lx(v.hi)
		k.sb.WriteByte(':')
		k.lx(v.n)
	default:
		fmt.Fprintf(&k.sb, "o%s(", v.s)
		if v.fn != nil {
			fmt.Fprintf(&k.sb, "%p", v.fn)
		}
		k.lx(v.n)
		k.lx(v.lo)
		k.lx(v.hi)
		for _, a := range v.a {
			k.val(a, maskAt{})
			k.sb.WriteByte(',')
		}
		k.sb.WriteByte(')')
	}
}

func (st *tstate) key(mask bool) *keyer {
	k := &keyer{st: st, syms: map[int]int{}, objs: map[int]int{}, cells: map[int]string{}, mask: mask}
	for qi, q := range st.seqs {
		fmt.Fprintf(&k.sb, "S%d", qi)
		for i, c := range q.cells {
			fmt.Fprintf(&k.sb, "[%c%x", c.kind, c.set)
			if c.run {
				k.lx(c.n)
			}
			k.cells[c.id] = fmt.Sprintf("%d.%d", qi, i)
		}
	}
	for _, n := range sortedKeys(st.spec.s) {
		fmt.Fprintf(&k.sb, "|%s=%s", n, st.spec.s[n])
	}
	var xs []string
	for n := range st.spec.x {
		xs = append(xs, n)
	}
	sort.Strings(xs)
	for _, n := range xs {
		fmt.Fprintf(&k.sb, "|%s=", n)
		if x := st.spec.x[n]; mask && x.con() && st.e.counter(n) {
			k.nums = append(k.nums, x.c)
			k.where = append(k.where, maskAt{kind: 'x', name: n})
			k.sb.WriteByte('#')
		} else {
			k.lx(x)
		}
	}
	xs = xs[:0]
	for n := range st.spec.v {
		xs = append(xs, n)
	}
	sort.Strings(xs)
	for _, n := range xs {
		fmt.Fprintf(&k.sb, "|%s=", n)
		k.val(st.spec.v[n], maskAt{kind: 'v', name: n})
	}
	for fi, f := range st.frames {
		fmt.Fprintf(&k.sb, "\nF%p.%d.%d.%v:", f.fn, f.b.Index, f.i, f.redo)
		ord := st.e.order(f.fn)
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return ord[vs[i]] < ord[vs[j]] })
		for _, v := range vs {
			fmt.Fprintf(&k.sb, ";%d=", ord[v])
			at := maskAt{kind: 'e', fr: fi, v: v}
			k.val(f.env[v], at)
		}
		for _, v := range f.free {
			k.sb.WriteString(";f")
			k.val(v, maskAt{})
		}
	}
	for i := 0; i < len(k.queue); i++ {
		id := k.queue[i]
		o := st.objs[id]
		fmt.Fprintf(&k.sb, "\nO%d%c%s:", k.objs[id], o.kind, o.tag)
		if mask && o.kind == 'o' && o.n.con() {
			k.nums = append(k.nums, o.n.c)
			k.where = append(k.where, maskAt{kind: 'n', obj: id})
			k.sb.WriteByte('#')
		} else {
			k.lx(o.n)
		}
		if len(o.elems) > 64 {
			for _, v := range o.elems {
				if v != nil && v.k == tvBool {
					k.sb.WriteByte("01"[v.n.c])
				} else {
					k.val(v, maskAt{})
				}
			}
		} else {
			for j, v := range o.elems {
				k.sb.WriteByte(',')
				k.val(v, maskAt{kind: 'o', obj: id, idx: j})
			}
		}
		for j, v := range o.items {
			k.sb.WriteByte('/')
			k.val(v, maskAt{})
			if j < len(o.lens) {
				k.lx(o.lens[j])
			}
		}
	}
	// facts about symbols that are still used
	var fs []string
	for _, x := range st.ne {
		ok := true
		for _, t := range x.t {
			if _, used := k.syms[t.s]; !used {
				ok = false
			}
		}
		if ok && len(x.t) > 0 {
			sub := &keyer{st: st, syms: k.syms}
			if y := x.add(x, -2); x.t[0].k < 0 {
				x = y
			}
			sub.lx(x)
			fs = append(fs, sub.sb.String())
		}
	}
	// lengths of list elements that are still to come
	if st.e.drv.load != nil {
		for _, q := range st.seqs {
			for _, c := range q.cells {
				for _, s := range []string{"K", "V"} {
					if n, ok := st.lens[fmt.Sprintf("E%d%s", c.id, s)]; ok && c.kind == 'V' {
						sub := &keyer{st: st, syms: k.syms}
						sub.lx(n)
						fs = append(fs, s+k.cells[c.id]+sub.sb.String())
					}
				}
			}
		}
	}
	sort.Strings(fs)
	k.sb.WriteString("\nN" + strings.Join(fs, ";"))
	fmt.Fprintf(&k.sb, "\n%v", st.imp != "")
	return k
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
