package main

import "golang.org/x/tools/go/ssa"

// The functions that hand out all elements of a container at once.

// streamDriver: result i is the list of what stream s[i] hands out, in order.
func (p *Program) streamDriver(fn *ssa.Function, d tdoc, streams ...string) *tdrv {
	what := map[string]string{"k": "key", "v": "value"}
	g := &cgram{kind: d.kind}
	for _, s := range streams {
		g.keys = g.keys || s == "k"
		g.vals = g.vals || s == "v"
	}
	dr := &tdrv{name: fn.Name() + ", " + where(d), counters: cntCaps, coarse: true}
	dr.init = func(e *teng) []*tstate { return []*tstate{e.docState(fn, d)} }
	dr.gen = g.gen
	dr.call = coreCall
	dr.append = func(st *tstate, id int, v *tv) {
		if st.spec.s["noval"] != "" {
			st.fail("has something to return although the path is not found")
		}
		s := st.objs[id].tag
		if s == "" {
			for _, x := range streams {
				if lo, hi, ok := st.head(x); ok && s == "" && st.spec.s["out:"+x] == "" && st.is(v, lo, hi) {
					s = x
				}
			}
			if s == "" {
				st.fail("hands out %s, which is not the first %s", st.tvs(v), what[streams[0]])
			}
			st.own(id).tag = s
			st.spec.s["out:"+s] = "some"
		} else {
			st.take(s, what[s], v)
		}
		st.pop(s)
	}
	dr.ret = func(st *tstate, res []*tv) {
		err := res[len(res)-1]
		if st.spec.s["noval"] != "" {
			st.isErr(err, "core")
			return
		}
		if st.empty(err) {
			return
		}
		st.noErr(err)
		st.rest(streams...)
		for i, s := range streams {
			st.isOutput(res[i], s, what[s]+"s")
		}
	}
	return dr
}

// isOutput: v is everything that was handed out of stream s.
func (st *tstate) isOutput(v *tv, s, what string) {
	if st.spec.s["out:"+s] == "" {
		switch v.k {
		case tvNil:
			return
		case tvList:
			if o := st.objs[v.id]; o != nil && st.equal(v.lo, v.hi) {
				return
			}
		}
		st.fail("returns %s although there are none", what)
	}
	if v.k == tvNil {
		st.fail("returns nothing in place of the %s", what)
	}
	if v.k != tvList || st.objs[v.id] == nil || st.objs[v.id].kind != 'o' {
		und("returns something that is not known")
	}
	o := st.objs[v.id]
	if o.tag != s {
		st.fail("returns something else in place of the %s", what)
	}
	if !v.lo.eq(lc(0)) || !v.hi.eq(o.n) {
		st.fail("returns a part of the %s", what)
	}
}

// mapDriver: the result maps every key to its value, or the number of every element to it.
func (p *Program) mapDriver(fn *ssa.Function, d tdoc) *tdrv {
	g := &cgram{kind: d.kind, keys: d.kind == 'o', vals: true}
	dr := &tdrv{name: fn.Name() + ", " + where(d), counters: map[string]int{"depth": 2}}
	if d.kind == 'a' {
		dr.counters["m"] = 2
	}
	dr.init = func(e *teng) []*tstate {
		st := e.docState(fn, d)
		if d.kind == 'a' {
			st.spec.x["m"] = lc(0)
		}
		return []*tstate{st}
	}
	dr.gen = g.gen
	dr.call = coreCall
	dr.mapSet = func(st *tstate, m, k, v *tv) {
		if m.k != tvList {
			und("writes a map that is not known")
		}
		if d.kind == 'o' {
			st.take("k", "key", k)
		} else if k.k != tvOpaque || k.s != "strconv.Itoa" || len(k.a) != 1 || k.a[0].k != tvInt {
			und("the key is something that is not known: %s", st.tvs(k))
		} else if n := k.a[0].n; !st.equal(n, st.spec.x["m"]) {
			st.fail("hands out an element under number %s, it is number %s", st.lxs(n), st.lxs(st.spec.x["m"]))
		}
		st.take("v", "value", v)
		if o := st.objs[m.id]; o.tag == "" && st.spec.s["out"] != "" {
			st.fail("hands out a value in a second map")
		} else if o.tag == "" {
			st.own(m.id).tag = "map"
			st.spec.s["out"] = "some"
		}
		if d.kind == 'o' {
			st.pop("k")
		} else {
			st.spec.x["m"] = st.spec.x["m"].plus(1)
		}
		st.pop("v")
	}
	dr.ret = func(st *tstate, res []*tv) {
		m, err := res[0], res[1]
		if st.spec.s["noval"] != "" {
			st.isErr(err, "core")
			return
		}
		if st.empty(err) {
			return
		}
		st.noErr(err)
		st.rest("k", "v")
		if m.k == tvNil {
			if st.spec.s["out"] != "" {
				st.fail("returns nothing in place of the map")
			}
			return
		}
		if m.k != tvList {
			und("returns something that is not known")
		}
		if st.spec.s["out"] != "" && st.objs[m.id].tag != "map" {
			st.fail("returns another map")
		}
	}
	return dr
}

// lengthDriver: the result is the number of elements.
func (p *Program) lengthDriver(fn *ssa.Function, d tdoc) *tdrv {
	g := &cgram{kind: d.kind, count: true}
	dr := &tdrv{name: fn.Name() + ", " + where(d), counters: map[string]int{"depth": 2, "n": 2}}
	dr.init = func(e *teng) []*tstate { return []*tstate{e.docState(fn, d)} }
	dr.gen = g.gen
	dr.call = coreCall
	dr.ret = func(st *tstate, res []*tv) {
		n, err := res[0], res[1]
		if st.spec.s["noval"] != "" {
			st.isErr(err, "core")
			return
		}
		st.noErr(err)
		st.rest()
		if n.k != tvInt {
			und("returns a number that is not known")
		}
		if !st.equal(n.n, st.spec.x["n"]) {
			st.fail("returns %s as the length of a container of %s", st.lxs(n.n), st.lxs(st.spec.x["n"]))
		}
	}
	return dr
}

func (p *Program) memberDrivers() []*tdrv {
	var l []*tdrv
	for _, path := range []bool{false, true} {
		o, a := tdoc{kind: 'o', path: path}, tdoc{kind: 'a', path: path}
		l = append(l, p.mapDriver(p.fn("GetMap"), o))
		l = append(l, p.streamDriver(p.fn("GetKeysValues"), o, "k", "v"))
		l = append(l, p.streamDriver(p.fn("GetKeys"), o, "k"))
		l = append(l, p.streamDriver(p.fn("GetValues"), o, "v"))
		l = append(l, p.mapDriver(p.fn("GetMap"), a))
	}
	return l
}

func (p *Program) lengthDrivers() []*tdrv {
	var l []*tdrv
	for _, path := range []bool{false, true} {
		o, a := tdoc{kind: 'o', path: path}, tdoc{kind: 'a', path: path}
		l = append(l, p.lengthDriver(p.fn("Length"), o), p.lengthDriver(p.fn("Length"), a))
	}
	return l
}

func (p *Program) getDrivers() []*tdrv { return append(p.memberDrivers(), p.lengthDrivers()...) }
