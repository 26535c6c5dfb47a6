package main

import (
	"golang.org/x/tools/go/ssa"
)

// live values of a function, at the first instruction after the phis of a block and after an instruction.
type liveInfo struct {
	in  []map[ssa.Value]bool
	out []map[ssa.Value]bool
	ord map[ssa.Value]int
	aft map[ssa.Instruction]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter:
		return true
	case ssa.Instruction:
		return true
	}
	return false
}

func liveness(f *ssa.Function) *liveInfo {
	n := len(f.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n), ord: map[ssa.Value]int{}, aft: map[ssa.Instruction]map[ssa.Value]bool{}}
	k := 0
	for _, p := range f.Params {
		li.ord[p] = k
		k++
	}
	for _, b := range f.Blocks {
		li.in[b.Index], li.out[b.Index] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				li.ord[v] = k
				k++
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := li.out[i]
			for _, s := range b.Succs {
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if e := ph.Edges[pi]; tracked(e) && li.in[s.Index][ph] && !out[e] {
						out[e] = true
						ch = true
					}
				}
				for v := range li.in[s.Index] {
					if !phis[v] && !out[v] {
						out[v] = true
						ch = true
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !li.in[i][v] {
					li.in[i][v] = true
					ch = true
				}
			}
		}
	}
	return li
}

func (li *liveInfo) after(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := li.aft[in]; ok {
		return m
	}
	b := in.Block()
	cur := map[ssa.Value]bool{}
	for v := range li.out[b.Index] {
		cur[v] = true
	}
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		x := b.Instrs[j]
		if x == in {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(cur, v)
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && tracked(*op) {
				cur[*op] = true
			}
		}
	}
	if v, ok := in.(ssa.Value); ok {
		delete(cur, v)
	}
	li.aft[in] = cur
	return cur
}

func (e *teng) live(f *ssa.Function) *liveInfo {
	li, ok := e.lives[f]
	if !ok {
		li = liveness(f)
		e.lives[f] = li
	}
	return li
}

func (e *teng) order(f *ssa.Function) map[ssa.Value]int { return e.live(f).ord }

// prune drops what is not used any more.
func (st *tstate) prune() {
	for i, f := range st.frames {
		li := st.e.live(f.fn)
		var live map[ssa.Value]bool
		if i == len(st.frames)-1 {
			live = li.in[f.b.Index]
		} else {
			live = li.after(f.b.Instrs[f.i])
		}
		if f.redo {
			in := f.b.Instrs[f.i]
			live = map[ssa.Value]bool{}
			for v := range li.after(in) {
				live[v] = true
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && tracked(*op) {
					live[*op] = true
				}
			}
		}
		kept := st.basesOf(f, live)
		for v := range f.env {
			if !live[v] && !kept[v] {
				delete(f.env, v)
			}
		}
	}
	used := map[int]bool{}
	var visit func(v *tv)
	visit = func(v *tv) {
		if v == nil {
			return
		}
		if (v.k == tvList || v.k == tvAddr) && !used[v.id] {
			used[v.id] = true
			if o := st.objs[v.id]; o != nil {
				for _, x := range o.elems {
					visit(x)
				}
				for _, x := range o.items {
					visit(x)
				}
			}
		}
		for _, x := range v.a {
			visit(x)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, v := range f.free {
			visit(v)
		}
	}
	for _, v := range st.spec.v {
		visit(v)
	}
	for id := range st.objs {
		if !used[id] {
			delete(st.objs, id)
		}
	}
}

// eachInt calls g for every live integer expression that may be a position: x relative to base. set changes it.
func (st *tstate) eachInt(g func(x, base lx, pos bool) lx) {
	st.eachProg(g)
	st.eachSpec(g)
}

func (st *tstate) eachProg(g func(x, base lx, pos bool) lx) { st.eachOf(g, true, false) }
func (st *tstate) eachSpec(g func(x, base lx, pos bool) lx) { st.eachOf(g, false, true) }

func (st *tstate) eachOf(g func(x, base lx, pos bool) lx, prog, spec bool) {
	zero := lc(0)
	var visit func(v *tv, base lx, pos bool) *tv
	visit = func(v *tv, base lx, pos bool) *tv {
		if v == nil {
			return nil
		}
		switch v.k {
		case tvInt:
			if n := g(v.n, base, pos); !n.eq(v.n) {
				return vint(n)
			}
			return v
		case tvText, tvTAddr:
			st.e.ends2 = v.k == tvText
			lo, hi := g(v.lo, zero, true), g(v.hi, zero, true)
			st.e.ends2 = false
			if lo.eq(v.lo) && hi.eq(v.hi) {
				return v
			}
			c := *v
			c.lo, c.hi = lo, hi
			return &c
		}
		if len(v.a) == 0 {
			return v
		}
		var out []*tv
		for i, x := range v.a {
			if y := visit(x, zero, false); y != x {
				if out == nil {
					out = append([]*tv(nil), v.a...)
				}
				out[i] = y
			}
		}
		if out == nil {
			return v
		}
		c := *v
		c.a = out
		return &c
	}
	for _, f := range st.frames {
		if !prog {
			break
		}
		for k, v := range f.env {
			if v == nil {
				continue
			}
			if v.k == tvInt {
				if st.e.pos.pos(k) {
					f.env[k] = visit(v, st.base(f, k), true)
				} else {
					f.env[k] = visit(v, zero, false)
				}
				continue
			}
			if n := visit(v, zero, false); n != v {
				f.env[k] = n
			}
		}
		for i, v := range f.free {
			if n := visit(v, zero, false); n != v {
				f.free = append([]*tv(nil), f.free...)
				f.free[i] = n
			}
		}
	}
	for id, o := range st.objs {
		if len(o.elems) > 64 || !prog {
			continue
		}
		pos := st.e.pos.cellPos(o.site)
		for i, v := range o.elems {
			if n := visit(v, zero, pos); n != v {
				st.own(id).elems[i] = n
			}
		}
		for i, v := range o.items {
			if n := visit(v, zero, false); n != v {
				st.own(id).items[i] = n
			}
		}
	}
	if !spec {
		return
	}
	for n, x := range st.spec.x {
		if !st.e.counter(n) {
			st.spec.x[n] = g(x, zero, true)
		} else {
			g(x, zero, false)
		}
	}
	for n, v := range st.spec.v {
		st.spec.v[n] = visit(v, zero, false)
	}
}

func (st *tstate) eachCellRef(cell func(id int)) {
	var visit func(v *tv)
	visit = func(v *tv) {
		if v == nil {
			return
		}
		if v.k == tvCell || v.k == tvElem {
			cell(v.id)
		}
		for _, x := range v.a {
			visit(x)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, v := range f.free {
			visit(v)
		}
	}
	for _, o := range st.objs {
		if len(o.elems) > 64 {
			continue
		}
		for _, v := range o.elems {
			visit(v)
		}
		for _, v := range o.items {
			visit(v)
		}
	}
	for _, v := range st.spec.v {
		visit(v)
	}
}

// compact merges the cells nobody points between.
func (st *tstate) compact() {
	st.prune()
	for q := range st.seqs {
		if len(st.seqs[q].cells) < 2 {
			continue
		}
		for again := true; again; {
			again = false
			cells := st.seqs[q].cells
			cand := -1
			pins := make([]bool, len(cells)+1)
			ints := make([]bool, len(cells)+1)
			pre := make([]lx, len(cells)+1)
			for i, c := range cells {
				pre[i+1] = pre[i].sum(c.n)
			}
			for i := range cells {
				if single(cells[i]) != 0 || wider(cells[i], st.e.drv) != cells[i].set || i+1 < len(cells) && st.e.merge(cells[i], cells[i+1]) != 0 {
					cand = i
					break
				}
			}
			if cand < 0 {
				break
			}
			pin := func(x, base lx, pos bool) lx {
				if pos {
					x2 := x.sum(base)
					// the nearest ends of cells before and behind it
					lo, hi := -1, -1
					for i := range pre {
						if d := x2.sub(pre[i]); d.con() {
							if d.c >= 0 {
								lo = i
							} else if hi < 0 {
								hi = i
							}
						}
					}
					if lo >= 0 {
						pins[lo] = true
						if !st.e.ends2 {
							ints[lo] = true
						}
					}
					if hi >= 0 && (lo < 0 || !x2.eq(pre[lo])) {
						pins[hi] = true
					}
				}
				return x
			}
			st.eachProg(pin)
			read, at := append([]bool(nil), pins...), append([]bool(nil), ints...)
			st.eachSpec(pin)
			refs := map[int]bool{}
			st.eachCellRef(func(id int) { refs[id] = true })
			for i := cand; i < len(cells); i++ {
				if k := single(cells[i]); k != 0 && !refs[cells[i].id] && (!read[i] || k == 'w' && !at[i]) {
					st.mergeCells(q, i, i+1, k, refs)
					again = true
					break
				}
				if w := wider(cells[i], st.e.drv); w != cells[i].set && !refs[cells[i].id] {
					c := *cells[i]
					c.set = w
					st.setCells(q, i, i+1, &c)
					again = true
					break
				}
				if i+1 == len(cells) || pins[i+1] {
					continue
				}
				if st.e.drv.ahead && at[i] && cells[i].kind == 'k' {
					// the program is there and goes on unit by unit
					continue
				}
				if k := st.e.merge(cells[i], cells[i+1]); k != 0 {
					st.mergeCells(q, i, i+2, k, refs)
					again = true
					break
				}
			}
		}
	}
	st.normalize()
}

// wider is what is worth remembering of a byte that was looked at.
func wider(c *tcell, d *tdrv) bset {
	switch c.kind {
	case 'w':
		return bSpace
	case 'q':
		return bAny
	case 'n':
		if !d.first {
			return bScalar
		}
	}
	return c.set
}

// single says what one byte nobody looks at any more is as good as a number of.
func single(c *tcell) byte {
	if c.run {
		return 0
	}
	switch c.kind {
	case 'w', 'd', 'o', 'S', 'q':
		return c.kind
	case 'I':
		return 'd'
	case 'J':
		return 'o'
	case 'p':
		return 's'
	}
	return 0
}

// merge says what two cells become together, 0 when they stay apart.
//
// s is a run of units of a string that does not end in a backslash that escapes or is escaped, B a run of backslashes,
// an even number of them unless one of them has been taken out.
func (e *teng) merge(a, b *tcell) byte {
	odd := func(c *tcell) bool { return c.n.c%2 != 0 }
	switch string([]byte{a.kind, b.kind}) {
	case "ke":
		if b.set == one(92) {
			return 'B'
		}
		return 's'
	case "bb":
		return 'B'
	case "Bb", "bB":
		if odd(a) != odd(b) {
			return 0
		}
		return 'B'
	case "BB":
		return 'B'
	case "ss", "sp", "ps", "pp", "sl", "ls", "lp", "pl", "ul":
		return 's'
	case "Bs", "Bp":
		if !odd(a) {
			return 's'
		}
	case "iI":
		return 'd'
	case "jJ":
		return 'o'
	case "ww", "SS", "dd", "oo", "EE", "QQ", "PP", "zz", "qq", "DD":
		return a.kind
	case "nn", "vv":
		if a.set == b.set {
			return a.kind
		}
	}
	return 0
}

func (st *tstate) mergeCells(q, i, j int, kind byte, refs map[int]bool) {
	cells := st.seqs[q].cells[i:j]
	total := lc(0)
	set := bset{}
	lo := 0
	for _, c := range cells {
		total = total.sum(c.n)
		set = set.or(c.set)
		if !c.run {
			lo++
		} else if l, ok, _, _ := st.bounds(c.n); ok && l > 0 {
			lo += l
		}
		if refs[c.id] && !c.run {
			st.detach(c)
		}
	}
	k := 1
	if kind == 'B' {
		k = 2
		lo /= 2
	}
	if lo > 1 {
		lo = 1
	}
	s := st.sym(lo)
	st.e.ncell++
	m := &tcell{id: st.e.ncell, kind: kind, set: set, run: true, n: lx{t: []lxt{{s, k}}}}
	switch kind {
	case 's':
		m.set = bPlain
	case 'w':
		m.set = bSpace
	case 'd', 'o', 'S', 'Q', 'P', 'z', 'q':
		m.set = bAny
	}
	// k*s = total: solve for a symbol of total with the same coefficient
	for _, t := range total.t {
		if t.k == k {
			// t.s = s - (total - k*t.s)/k
			rest := total.add(ls(t.s), -k)
			ok := rest.c%k == 0
			for _, r := range rest.t {
				ok = ok && r.k%k == 0
			}
			if !ok {
				continue
			}
			div := lx{c: rest.c / k}
			for _, r := range rest.t {
				div.t = append(div.t, lxt{r.s, r.k / k})
			}
			min := st.min[s]
			st.setCells(q, i, j, m)
			st.replaceSym(t.s, ls(s).sub(div))
			st.min[s] = min
			return
		}
	}
	// the symbol is new: positions behind the run get it in place of what was known of its length
	pre := st.prefix(q, i)
	end := pre.sum(total)
	st.setCells(q, i, j, m)
	st.eachInt(func(x, base lx, pos bool) lx {
		if !pos {
			return x
		}
		y := x.sum(base)
		if d := y.sub(pre); d.con() && d.c <= 0 {
			return x
		}
		if d := y.sub(end); !d.con() {
			if l, ok, _, _ := st.bounds(d); !ok || l < 0 {
				return x
			}
		}
		// where the text begins that x counts from moves along
		nb := base
		if bd := base.sub(end); len(base.t) > 0 || base.c > 0 {
			if l, ok, _, _ := st.bounds(bd); ok && l >= 0 {
				nb = base.sub(total).sum(m.n)
			}
		}
		return y.sub(total).sum(m.n).sub(nb)
	})
}

// detach keeps what is known of a byte whose cell goes away.
func (st *tstate) detach(c *tcell) {
	f := func(v *tv) *tv {
		if v != nil && v.k == tvCell && v.id == c.id {
			if c.set.count() == 1 {
				return vnum(c.set.list()[0] + v.n.c)
			}
			if v.n.c == 0 {
				return &tv{k: tvByte, set: c.set}
			}
			return vtop
		}
		return v
	}
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
	}
	for id, o := range st.objs {
		if len(o.elems) > 64 {
			continue
		}
		o = st.own(id)
		for i, v := range o.elems {
			o.elems[i] = f(v)
		}
		for i, v := range o.items {
			o.items[i] = f(v)
		}
	}
}

// normalize makes counters of the specification plain symbols again and forgets unused ones.
func (st *tstate) normalize() {
	for q := range st.seqs {
		for again := true; again; {
			again = false
			for ci, c := range st.seqs[q].cells {
				if !c.run || len(c.n.t) != 1 || c.n.t[0].k < 1 {
					continue
				}
				s, k := c.n.t[0].s, c.n.t[0].k
				if st.loose[s] {
					continue
				}
				if k > 1 && (c.kind == 'S' || c.kind == 'd' || c.kind == 'o') && st.lone(s, c.id) && st.scale(s, k) {
					// any length will do
					again = true
					break
				}
				if d := c.n.c / k; d != 0 {
					// k*s + c = k*(s+d) + c%k
					ns := st.sym(st.min[s] + d)
					st.replaceSym(s, ls(ns).plus(-d))
					again = true
					break
				}
				if st.min[s] > 1 {
					// unless something points into the run
					in := false
					pre := st.prefix(q, ci)
					st.eachInt(func(x, base lx, pos bool) lx {
						if d := x.sum(base).sub(pre); d.con() && d.c > 0 {
							in = true
						}
						return x
					})
					if !in {
						st.min[s] = 1
					}
				}
			}
		}
	}
	for n, x := range st.spec.x {
		if !st.e.counter(n) || len(x.t) != 1 || x.t[0].k != 1 || x.c == 0 {
			continue
		}
		s := x.t[0].s
		if st.loose[s] {
			continue
		}
		min := st.min[s] + x.c
		if min > st.e.counterCap(n) {
			min = st.e.counterCap(n)
		}
		ns := st.sym(min)
		st.replaceSym(s, ls(ns).plus(-x.c))
		st.min[ns] = min
	}
	used := map[int]bool{}
	mark := func(x lx) {
		for _, t := range x.t {
			used[t.s] = true
		}
	}
	for _, q := range st.seqs {
		for _, c := range q.cells {
			mark(c.n)
		}
	}
	st.eachInt(func(x, _ lx, _ bool) lx { mark(x); return x })
	for _, o := range st.objs {
		mark(o.n)
		for _, x := range o.n2 {
			mark(x)
		}
		for _, x := range o.lens {
			mark(x)
		}
		if len(o.elems) <= 64 {
			for _, v := range append(append([]*tv{}, o.elems...), o.items...) {
				mapLx(v, func(x lx) lx { mark(x); return x })
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			mapLx(v, func(x lx) lx { mark(x); return x })
		}
	}
	for n, x := range st.lens {
		keep := false
		for _, t := range x.t {
			keep = keep || used[t.s]
		}
		if !keep && n[0] == 'E' {
			delete(st.lens, n)
		} else {
			mark(x)
		}
	}
	var ne []lx
	for _, x := range st.ne {
		ok := len(x.t) > 0
		for _, t := range x.t {
			ok = ok && used[t.s]
		}
		if ok {
			ne = append(ne, x)
		}
	}
	st.ne = ne
	for s := range st.min {
		if !used[s] {
			delete(st.min, s)
			delete(st.loose, s)
		}
	}
}

// generalize: st is like an earlier state but for numbers; those that moved along with a counter of the specification
// are tied to it, others that moved are given up.
func (st *tstate) generalize(old, now *keyer) bool {
	var sn int = -1
	for i, w := range now.where {
		if w.kind == 'x' && now.nums[i] != old.nums[i] {
			sn = i
			break
		}
	}
	if sn < 0 {
		// numbers that move on their own
		moved := false
		for i, w := range now.where {
			if now.nums[i] == old.nums[i] {
				continue
			}
			if w.kind == 'x' {
				continue
			}
			if now.nums[i] > 12 || now.nums[i] < -12 {
				moved = true
				st.setNum(w, lx{}, true)
			}
		}
		return moved
	}
	d := now.nums[sn] - old.nums[sn]
	min := old.nums[sn]
	if now.nums[sn] < min {
		min = now.nums[sn]
	}
	s := st.sym(min)
	for i, w := range now.where {
		dd := now.nums[i] - old.nums[i]
		if dd == 0 {
			continue
		}
		if dd == d {
			st.setNum(w, ls(s).plus(now.nums[i]-now.nums[sn]), false)
		} else if w.kind == 'x' {
			st.setNum(w, ls(st.sym(0)), false)
		} else {
			st.setNum(w, lx{}, true)
		}
	}
	return true
}

// along says whether all numbers that are not what they were moved as far as a counter of the specification.
func (k *keyer) along(old []int) bool {
	d, some := 0, false
	for i, w := range k.where {
		if w.kind == 'x' && k.nums[i] != old[i] && !some {
			d, some = k.nums[i]-old[i], true
		}
	}
	for i := range k.where {
		if x := k.nums[i] - old[i]; x != 0 && x != d {
			return false
		}
	}
	return some
}

func (st *tstate) setNum(w maskAt, e lx, top bool) {
	e = e.sum(w.rest)
	v := vint(e)
	if top {
		v = vint(ls(st.looseSym()))
		e = v.n
	}
	switch w.kind {
	case 'x':
		st.spec.x[w.name] = e
	case 'v':
		st.spec.v[w.name] = v
	case 'e':
		st.frames[w.fr].env[w.v] = v
	case 'o':
		st.own(w.obj).elems[w.idx] = v
	case 'n':
		// slices of the output refer to its length
		old := st.own(w.obj).n
		st.own(w.obj).n = e
		f := func(x *tv) *tv {
			if x != nil && x.k == tvList && x.id == w.obj && x.hi.eq(old) {
				c := *x
				c.hi = e
				return &c
			}
			return x
		}
		for _, fr := range st.frames {
			for k, x := range fr.env {
				fr.env[k] = f(x)
			}
		}
		for id, o := range st.objs {
			if len(o.elems) > 64 {
				continue
			}
			o = st.own(id)
			for i, x := range o.elems {
				o.elems[i] = f(x)
			}
			for i, x := range o.items {
				o.items[i] = f(x)
			}
		}
		for k, x := range st.spec.v {
			st.spec.v[k] = f(x)
		}
	}
}

// lone says whether the length of only one cell depends on s.
func (st *tstate) lone(s, id int) bool {
	for _, q := range st.seqs {
		for _, c := range q.cells {
			if c.id != id && c.run && c.n.coef(s) != 0 {
				return false
			}
		}
	}
	for _, o := range st.objs {
		if o.n.coef(s) != 0 {
			return false
		}
	}
	return true
}

// scale puts a symbol for k*s.
func (st *tstate) scale(s, k int) bool {
	ok := true
	n := st.sym(st.min[s])
	st.min[n] = 1
	if st.min[s] < 1 {
		st.min[n] = 0
	}
	st.eachLx(func(x lx) lx {
		if x.coef(s)%k != 0 {
			ok = false
		}
		return x
	})
	if !ok {
		return false
	}
	st.eachLx(func(x lx) lx {
		c := x.coef(s)
		if c == 0 {
			return x
		}
		return x.subst(s, lc(0)).add(ls(n), c/k)
	})
	delete(st.min, s)
	return true
}

// accel: a slice of unknown length is being filled from its start; how far it was filled is made a number of its own,
// the length that and what is left.
func (st *tstate) accel() {
	f := st.top()
	for id, o := range st.objs {
		if o.kind != 'u' || len(o.n2) != 2 {
			continue
		}
		last := o.n2[1]
		var d int
		switch {
		case len(o.n.t) == 1 && o.n.t[0].k == 1 && o.n.c == 0 && !st.loose[o.n.t[0].s] && last.con() && last.c >= 1:
			s := o.n.t[0].s
			if d = st.min[s] - last.c; d < 0 {
				continue
			}
			a, r := st.sym(1), st.sym(min(d, 1))
			for v, x := range f.env {
				if x != nil && x.k == tvInt && x.n.con() && (x.n.c == last.c || x.n.c == last.c+1) {
					f.env[v] = vint(ls(a).plus(x.n.c - last.c))
				}
			}
			st.own(id).n2 = []lx{lc(0), ls(a)}
			st.replaceSym(s, ls(a).sum(ls(r)))
		case len(last.t) == 1 && last.t[0].k == 1 && last.c >= 1 && len(o.n.t) == 2 && o.n.coef(last.t[0].s) == 1:
			a := last.t[0].s
			r := o.n.t[0]
			if r.s == a {
				r = o.n.t[1]
			}
			if r.k != 1 || st.min[r.s]+o.n.c-last.c < 0 {
				continue
			}
			m := min(st.min[r.s]+o.n.c-last.c, 1)
			na, nr := st.sym(1), st.sym(m)
			off := last.c
			nc := o.n.c
			st.replaceSym(a, ls(na).plus(-off))
			// n = na - off + r + nc
			st.replaceSym(r.s, ls(nr).plus(off-nc))
		}
	}
}
