package main

import "golang.org/x/tools/go/ssa"

// Flatten and Indent: what is outside of strings may lose or get white space, everything else stays as it is.

// fgen makes any sequence of tokens with balanced brackets.
func fgen(st *tstate) {
	var alts []talt
	add := func(f func(c *tstate)) { alts = append(alts, func(c *tstate) bool { f(c); return true }) }
	to := func(c *tstate, p string) {
		c.spec.s["g"] = p
		if p != "out" {
			c.minAfter(1)
		}
	}
	switch st.spec.s["g"] {
	case "out":
		none := st.equal(st.spec.x["depth"], lc(0))
		add(func(c *tstate) { c.emit('w', bSpace) })
		for _, b := range "[{" {
			b := string(b)
			add(func(c *tstate) {
				c.emit('x', bs(b))
				c.spec.x["depth"] = c.spec.x["depth"].plus(1)
				to(c, "out")
			})
		}
		if !none {
			for _, b := range "]}" {
				b := string(b)
				add(func(c *tstate) {
					c.emit('x', bs(b))
					c.spec.x["depth"] = c.spec.x["depth"].plus(-1)
					to(c, "out")
				})
			}
		}
		add(func(c *tstate) { c.emit('x', bs(",")) })
		add(func(c *tstate) { c.emit('x', bs(":")) })
		add(func(c *tstate) { c.emit('x', bScalar) })
		add(func(c *tstate) { c.emit('x', bQuote); to(c, "str") })
		add(func(c *tstate) { c.vanish() })
	case "str":
		add(func(c *tstate) { c.emit('p', bPlain); to(c, "str") })
		add(func(c *tstate) { c.emit('k', bBack); to(c, "esc") })
		add(func(c *tstate) { c.emit('x', bQuote); to(c, "out") })
	case "esc":
		add(func(c *tstate) { c.emit('e', bBack); to(c, "str") })
		add(func(c *tstate) { c.emit('e', bEscaped); to(c, "str") })
	default:
		und("generator in phase %q", st.spec.s["g"])
	}
	st.fork(alts...)
}

// skipWhite moves the place of the output behind white space outside of strings.
func (st *tstate) skipWhite() {
	o := st.spec.x["out"]
	pre := lc(0)
	for _, c := range st.seqs[0].cells {
		if c.kind == 'w' && pre.eq(o) {
			o = o.sum(c.n)
			st.spec.x["out"] = o
		}
		pre = pre.sum(c.n)
	}
}

// nextOut is the cell at the place of the output, nil when it was not made yet.
func (st *tstate) nextOut() (*tcell, int) {
	o := st.spec.x["out"]
	pre := lc(0)
	for j, c := range st.seqs[0].cells {
		if pre.eq(o) && !(c.n.con() && c.n.c == 0) {
			if c.kind == 'g' {
				return nil, j
			}
			return c, j
		}
		pre = pre.sum(c.n)
	}
	return nil, len(st.seqs[0].cells)
}

// openHere is how many containers are open where the output is.
func (st *tstate) openHere() lx {
	n := st.spec.x["depth"]
	_, j := st.nextOut()
	for i, c := range st.seqs[0].cells {
		if i < j || c.kind != 'x' || c.set.count() != 1 {
			continue
		}
		switch c.set.list()[0] {
		case '[', '{':
			n = n.plus(-1)
		case ']', '}':
			n = n.plus(1)
			if i == j {
				n = n.plus(-1)
			}
		}
	}
	return n
}

func (p *Program) formatDriver(fn *ssa.Function, indent bool) *tdrv {
	dr := &tdrv{name: fn.Name(), counters: map[string]int{"depth": 2, "tabs": 2}, coarse: true, ahead: true}
	dr.init = func(e *teng) []*tstate {
		st := e.newState()
		st.seqs = []*tseq{{cells: []*tcell{st.cellRun('g', bAny, 0)}}}
		st.spec.s["g"] = "out"
		st.spec.x["depth"] = lc(0)
		st.spec.x["out"] = lc(0)
		st.enter(fn, st.args(fn, false), nil, nil)
		return []*tstate{st}
	}
	dr.gen = fgen
	if indent {
		dr.call = func(st *tstate, f *ssa.Function, args []*tv) (*tv, bool) {
			if f.Name() == "Flatten" && len(args) == 1 {
				// takes away white space, and nothing else
				return args[0], true
			}
			return nil, false
		}
	}
	white := func(st *tstate, n lx, b int) {
		if !indent {
			st.fail("puts white space where there is none")
		}
		if st.spec.s["ostr"] != "" {
			st.fail("puts white space into a string")
		}
		if b == '\n' {
			st.spec.s["nl"] = "yes"
			st.spec.x["tabs"] = lc(0)
		} else if st.spec.s["nl"] != "" {
			st.spec.x["tabs"] = st.spec.x["tabs"].sum(n)
		}
	}
	// pass goes on behind the cell at the place of the output.
	pass := func(st *tstate, c *tcell) {
		if st.spec.s["nl"] != "" {
			if n := st.openHere(); !st.equal(st.spec.x["tabs"], n) {
				st.fail("begins a line with %s tabs where %s containers are open", st.lxs(st.spec.x["tabs"]), st.lxs(n))
			}
			delete(st.spec.x, "tabs")
		}
		if indent && c.kind == 'x' && c.set.count() == 1 && st.spec.s["ostr"] == "" {
			b := c.set.list()[0]
			if (b == ']' || b == '}' || st.spec.s["want"] != "") && st.spec.s["nl"] == "" {
				st.fail("puts out the byte at %s on the line of the one before", st.lxs(st.spec.x["out"]))
			}
			delete(st.spec.s, "want")
			if b == '[' || b == '{' || b == ',' {
				st.spec.s["want"] = "nl"
			}
		} else if indent && st.spec.s["ostr"] == "" {
			if st.spec.s["want"] != "" && st.spec.s["nl"] == "" {
				st.fail("puts out the byte at %s on the line of the one before", st.lxs(st.spec.x["out"]))
			}
			delete(st.spec.s, "want")
		}
		delete(st.spec.s, "nl")
		if c.kind == 'x' && c.set == bQuote {
			if st.spec.s["ostr"] == "" {
				st.spec.s["ostr"] = "yes"
			} else {
				delete(st.spec.s, "ostr")
			}
		}
		st.spec.x["out"] = st.spec.x["out"].sum(c.n)
		if st.spec.s["ostr"] == "" {
			st.retag(0, lc(0), st.spec.x["out"], 'o')
		}
	}
	dr.append = func(st *tstate, id int, v *tv) {
		if v.k == tvList && v.lo.eq(v.hi) {
			return
		}
		if st.objs[id].tag == "" {
			if st.spec.s["some"] != "" {
				und("has a second output")
			}
			st.own(id).tag = "out"
			st.spec.s["some"] = "yes"
		}
		switch {
		case v.k == tvCell:
			_, j, ok := st.findCell(v.id)
			if !ok || v.n.c != 0 {
				und("puts out a byte that is not known")
			}
			at := st.prefix(0, j)
			c := st.seqs[0].cells[j]
			o := st.spec.x["out"]
			if !at.eq(o) && st.spec.s["ostr"] == "" {
				st.skipWhite()
				o = st.spec.x["out"]
			}
			if !at.eq(o) {
				if c.kind == 'w' && indent && st.spec.s["ostr"] == "" {
					und("puts out white space")
				}
				st.fail("puts out the byte at %s, the next is at %s", st.lxs(at), st.lxs(o))
			}
			if c.kind == 'w' {
				if !indent {
					st.fail("puts out white space from outside of a string")
				}
				st.spec.x["out"] = o.sum(c.n)
				und("puts out white space")
			}
			pass(st, c)
		case v.k == tvInt && v.n.con():
			b := v.n.c
			if bSpace.has(b) {
				white(st, lc(1), b)
				return
			}
			if st.spec.s["ostr"] == "" {
				st.skipWhite()
			}
			c, _ := st.nextOut()
			if c == nil && st.spec.s["g"] == "end" {
				st.fail("puts out byte %d behind the end", b)
			}
			if c == nil {
				und("puts out byte %d before it has seen it", b)
			}
			if c.set != one(b) {
				st.fail("puts out byte %d in place of the byte at %s", b, st.lxs(st.spec.x["out"]))
			}
			pass(st, c)
		case v.k == tvOpaque && v.s == "fill":
			for _, x := range v.a {
				if x.k != tvInt || !x.n.con() || !bSpace.has(x.n.c) {
					und("puts out something that is not known: %s", st.tvs(x))
				}
			}
			white(st, v.n, '\t')
		default:
			und("puts out something that is not known: %s", st.tvs(v))
		}
	}
	dr.ret = func(st *tstate, res []*tv) {
		if st.spec.s["g"] != "end" {
			fgen(st)
		}
		st.skipWhite()
		if c, _ := st.nextOut(); c != nil {
			st.fail("returns without the byte at %s", st.lxs(st.spec.x["out"]))
		}
		r := res[0]
		if st.spec.s["some"] == "" {
			if r.k == tvNil || r.k == tvList && st.equal(r.lo, r.hi) {
				return
			}
			und("returns something that is not known")
		}
		if r.k != tvList || st.objs[r.id] == nil || st.objs[r.id].kind != 'o' {
			und("returns something that is not known")
		}
		if o := st.objs[r.id]; o.tag != "out" || !r.lo.eq(lc(0)) || !r.hi.eq(o.n) {
			st.fail("returns a part of what it put out")
		}
	}
	return dr
}

func (p *Program) formatDrivers() []*tdrv {
	var l []*tdrv
	for _, n := range []string{"Flatten", "Indent"} {
		if fn := p.fn(n); fn != nil {
			l = append(l, p.formatDriver(fn, n == "Indent"))
		}
	}
	return l
}
