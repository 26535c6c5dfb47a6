package main

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The search of a path. Every element of the path names a key, or a number when it stands before an array. When the
// grammar has made a key it is decided whether it is the one that is searched; the program's comparisons of the two
// have to come out that way. The number searched is the number of elements so far and those to go.

type search struct {
	n int // elements of the path
}

func pathElem(v *tv) (int, bool) {
	if v != nil && v.k == tvOpaque && strings.HasPrefix(v.s, "path element ") {
		n, err := strconv.Atoi(v.s[len("path element "):])
		return n, err == nil
	}
	return 0, false
}

func (st *tstate) seg() int {
	n, _ := strconv.Atoi(st.spec.s["seg"])
	return n
}

// live: the search still goes on.
func (st *tstate) live() bool { return st.spec.s["noval"] == "" && st.spec.s["found"] == "" }

// number decides whether path element k is a number, and which.
func (st *tstate) number(k int) *tv {
	n := fmt.Sprintf("N%d", k)
	if v := st.spec.v[n]; v != nil {
		return v
	}
	st.fork(func(c *tstate) bool {
		c.spec.v[n] = vint(ls(c.sym(0)))
		return true
	}, func(c *tstate) bool {
		c.note("path element %d is a negative number", k)
		c.spec.v[n] = vint(lc(-1).sub(ls(c.sym(0))))
		return true
	}, func(c *tstate) bool {
		c.note("path element %d is no number", k)
		c.spec.v[n] = &tv{k: tvErr, s: "Atoi"}
		return true
	})
	return nil
}

// before runs before the grammar makes the next byte.
func (s *search) before(st *tstate, kind byte, ph string) {
	if st.spec.s["fresh"] != "" {
		// what lies before the second container is history once its inside is looked at
		delete(st.spec.s, "fresh")
		st.retag(0, lc(0), st.spec.x["open"].plus(-1), 'o')
	}
	if kind != 'a' || !st.live() || st.spec.s["tgt"] != "" {
		return
	}
	switch ph {
	case "first", "val1":
	default:
		return
	}
	v := st.number(st.seg())
	if v.k == tvErr || v.n.coefMin() < 0 {
		st.fork(func(c *tstate) bool {
			c.spec.s["noval"] = "it is not a number of an element"
			return true
		})
	}
	is := st.equal(v.n, st.spec.x["n"])
	st.fork(func(c *tstate) bool {
		c.spec.s["tgt"] = "no"
		if is {
			c.spec.s["tgt"] = "yes"
		}
		return true
	})
}

func (e lx) coefMin() int {
	m := 0
	for _, t := range e.t {
		if t.k < m {
			m = t.k
		}
	}
	return m
}

// key: a key has come to its end.
func (s *search) key(c *tstate, pos lx) {
	if c.live() {
		c.spec.x["klo"], c.spec.x["khi"+"2"] = c.spec.x["slo"], pos
		c.spec.s["g"] = "keyend"
		delete(c.spec.s, "len")
	}
}

func (s *search) keyend(st *tstate) {
	st.fork(func(c *tstate) bool {
		c.spec.s["tgt"] = "yes"
		c.spec.s["g"] = "colon"
		return true
	}, func(c *tstate) bool {
		c.spec.s["tgt"] = "no"
		c.spec.s["g"] = "colon"
		return true
	})
}

// begin: a value begins; true when it is a container to be searched.
func (s *search) begin(c *tstate, lo lx, ch byte) bool {
	tgt := c.spec.s["tgt"]
	delete(c.spec.s, "tgt")
	if tgt == "no" && c.spec.v[fmt.Sprintf("N%d", c.seg())] != nil && c.kind() == 'a' {
		// one less to go
		v := c.spec.v[fmt.Sprintf("N%d", c.seg())]
		left := lx{}
		if v.k == tvInt {
			left = v.n.sub(c.spec.x["n"])
		}
		if len(left.t) == 1 && left.t[0].k == 1 {
			r := left.t[0].s
			m := c.min[r] - 1
			if m < 0 {
				m = 0
			}
			n := c.sym(m)
			c.replaceSym(r, ls(n).plus(1))
			c.min[n] = m
		}
	}
	if !c.live() || tgt != "yes" {
		c.forget()
		return false
	}
	if c.seg() == s.n-1 {
		c.spec.s["found"] = "value"
		c.spec.x["tlo"] = lo
		c.spec.s["tch"] = string([]byte{ch})
		return false
	}
	if ch != '[' && ch != '{' {
		c.spec.s["noval"] = "what is found first has no elements"
		return false
	}
	k := "a"
	cl := "]"
	if ch == '{' {
		k, cl = "o", "}"
	}
	c.spec.s["seg"] = strconv.Itoa(c.seg() + 1)
	c.spec.x["n"] = lc(0)
	c.spec.s["kind"] = k
	for _, n := range []string{"klo", "khi2", "sep", "open", "khi", "chi", "slo", "shi"} {
		delete(c.spec.x, n)
	}
	c.spec.s["fresh"] = "yes"
	delete(c.spec.x, "start")
	c.spec.x["open"] = lo.plus(1)
	c.spec.s["g"] = "first"
	q, j := c.frontier()
	c.setCells(q, j+1, len(c.seqs[q].cells), c.cellByte('x', bs(cl)), c.cellRun('Q', bAny, 0), c.cellByte('z', bs("]}").or(bSpace)))
	return true
}

func (st *tstate) kind() byte {
	if s := st.spec.s["kind"]; s != "" {
		return s[0]
	}
	return st.e.drv.kind
}

// end: a value has come to its end.
func (s *search) end(c *tstate, hi lx) {
	if c.spec.s["found"] == "value" {
		c.spec.s["found"] = "all"
		c.spec.x["thi"] = hi
		c.spec.s["g"] = "tail"
		return
	}
}

// forget the key that was not searched.
func (c *tstate) forget() {
	for _, n := range []string{"klo", "khi2"} {
		delete(c.spec.x, n)
	}
	delete(c.spec.s, "len")
	delete(c.spec.s, "begins")
}

// tail: what follows the value that was searched does not matter.
func (s *search) tail(st *tstate) {
	st.fork(func(c *tstate) bool {
		q, j := c.frontier()
		g := *c.seqs[q].cells[j]
		g.kind = 'Q'
		c.setCells(q, j, j+1, &g)
		c.spec.s["g"] = "end"
		return true
	})
}

func (p *Program) searchDriver(fn *ssa.Function, kind byte, n int, just bool) *tdrv {
	name := fmt.Sprintf("%s, %d path element", fn.Name(), n)
	if n > 1 {
		name += "s"
	}
	k := " in an array"
	if kind == 'o' {
		k = " in an object"
	}
	name += k
	if just {
		name += ", start only"
	}
	s := &search{n: n}
	g := &cgram{kind: kind, count: true, search: s}
	dr := &tdrv{name: name, counters: map[string]int{"depth": 2, "n": 1}, kind: kind}
	dr.gen = g.gen
	dr.init = func(e *teng) []*tstate {
		d := tdoc{kind: kind}
		st := e.document(d)
		o := &tobj{kind: 'a'}
		for i := 0; i < n; i++ {
			o.elems = append(o.elems, vop(fmt.Sprintf("path element %d", i)))
		}
		id := st.newObj(o)
		args := []*tv{{k: tvText, id: 0, hi: st.seqLen(0)}, vbool(just), {k: tvList, id: id, hi: lc(n)}}
		st.enter(fn, args, nil, nil)
		return []*tstate{st}
	}
	dr.call = func(st *tstate, f *ssa.Function, args []*tv) (*tv, bool) {
		if f.String() == "strconv.Atoi" {
			if k, ok := pathElem(args[0]); ok {
				v := st.number(k)
				if v.k == tvErr {
					return tuple(vnum(0), v), true
				}
				return tuple(v, vnil), true
			}
		}
		return nil, false
	}
	dr.textIs = func(st *tstate, a *tv, q int, lo, hi lx, front bool) bool {
		k, ok := pathElem(a)
		if !ok || q != 0 {
			und("compares with something that is not known: %s", st.tvs(a))
		}
		if st.spec.s["g"] == "keyend" {
			g.gen(st)
		}
		klo, ok := st.spec.x["klo"]
		if !ok || k != st.seg() || !lo.eq(klo) {
			// names can be such that this is not the same
			return false
		}
		khi := st.spec.x["khi2"]
		n := st.length(a)
		if hi.eq(klo.sum(n)) {
			// as many bytes as the name has
			if st.spec.s["tgt"] == "yes" || st.spec.s["found"] != "" {
				return true
			}
			if st.spec.s["len"] == "same" {
				return false
			}
			// the name may be the beginning of the key
			b := st.spec.s["begins"]
			if b == "" {
				st.fork(func(c *tstate) bool { c.spec.s["begins"] = "no"; return true },
					func(c *tstate) bool {
						c.spec.s["begins"] = "yes"
						c.note("the path element is the beginning of a key")
						return true
					})
			}
			return b == "yes"
		}
		if !hi.eq(khi) {
			return false
		}
		return st.spec.s["tgt"] == "yes" || st.spec.s["found"] != ""
	}
	dr.sameLen = func(st *tstate, d lx) (bool, bool) {
		for i := 0; i < n; i++ {
			l, ok := st.lens["L"+st.tvs(vop(fmt.Sprintf("path element %d", i)))]
			if !ok || len(l.t) != 1 {
				continue
			}
			c := d.coef(l.t[0].s)
			if c != 1 && c != -1 {
				continue
			}
			x := d.add(l, -c) // c*l + x = 0
			if c == 1 {
				x = lc(0).sub(x)
			}
			if st.spec.s["g"] == "keyend" {
				g.gen(st)
			}
			klo, ok := st.spec.x["klo"]
			if !ok || i != st.seg() || !x.eq(st.spec.x["khi2"].sub(klo)) {
				if x.con() {
					und("compares the length of a path element with %d", x.c)
				}
				return false, true
			}
			if st.spec.s["tgt"] == "yes" || st.spec.s["found"] != "" {
				return true, true
			}
			b := st.spec.s["len"]
			if b == "" {
				st.fork(func(c *tstate) bool { c.spec.s["len"] = "same"; return true }, func(c *tstate) bool { c.spec.s["len"] = "other"; return true })
			}
			return b == "same", true
		}
		return false, false
	}
	dr.ret = func(st *tstate, res []*tv) {
		err := res[3]
		if err.k != tvNil && err.k != tvErr {
			und("returns an error that is not known")
		}
		for st.spec.s["g"] == "keyend" || st.live() && st.kind() == 'a' && (st.spec.s["g"] == "first" || st.spec.s["g"] == "val1") && st.spec.s["tgt"] == "" {
			g.gen(st)
		}
		if err.k == tvErr {
			switch {
			case st.spec.s["noval"] != "":
				return
			case st.spec.s["found"] != "":
				st.fail("returns the error of %s although the path leads to a value", err.s)
			case st.spec.s["g"] == "end":
				return
			}
			switch st.spec.s["g"] {
			case "first", "after", "sc":
				// the container may come to its end here
				g.gen(st)
			}
			st.fail("returns the error of %s before the end of what is searched", err.s)
		}
		if st.spec.s["noval"] != "" {
			st.fail("returns no error although %s", st.spec.s["noval"])
		}
		if st.spec.s["found"] == "" {
			switch st.spec.s["g"] {
			case "end":
				st.fail("returns no error although the path leads nowhere")
			case "first", "after", "sc", "val", "val1", "colon":
				if st.spec.s["tgt"] == "yes" || st.spec.s["g"] == "first" {
					g.gen(st)
				}
			}
			st.fail("returns before it has come to the value")
		}
		ks, off, end := res[0], res[1], res[2]
		if off.k != tvInt || end.k != tvInt || ks.k != tvInt {
			und("returns a position that is not known")
		}
		tlo := st.spec.x["tlo"]
		if st.kind() == 'o' && !st.equal(ks.n, st.spec.x["klo"]) {
			st.fail("returns %s as the start of the key, which is at %s", st.lxs(ks.n), st.lxs(st.spec.x["klo"]))
		}
		if st.kind() == 'a' && !st.equal(ks.n, lc(-1)) {
			st.fail("returns %s as the start of a key, an element of an array has none", st.lxs(ks.n))
		}
		str := st.spec.s["tch"] == `"`
		want := tlo
		if !just && str {
			want = tlo.plus(1)
		}
		if !st.equal(off.n, want) {
			st.fail("returns %s as the start of the value, which is at %s", st.lxs(off.n), st.lxs(want))
		}
		if just {
			return
		}
		for st.spec.s["found"] == "value" {
			switch st.spec.s["g"] {
			case "sc":
				g.gen(st)
			}
			st.fail("returns before the end of the value")
		}
		if thi := st.spec.x["thi"]; !st.equal(end.n, thi) {
			st.fail("returns %s as the end of the value, which is at %s", st.lxs(end.n), st.lxs(thi))
		}
	}
	return dr
}

func (p *Program) searchDrivers() []*tdrv {
	var l []*tdrv
	for _, n := range []int{1, 2} {
		for _, k := range []byte{'o', 'a'} {
			for _, just := range []bool{true, false} {
				l = append(l, p.searchDriver(p.fn("core"), k, n, just))
			}
		}
	}
	return l
}
