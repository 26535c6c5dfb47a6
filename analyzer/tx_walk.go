package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Walking: every value that is no container is handed out once, with its path. The type query, the getter and the
// iterations are properties of their own; here they do what those say.

func hasFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// walker is the function below Walk that calls itself, directly or from a function it makes.
func (p *Program) walker(fn *ssa.Function) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	var found *ssa.Function
	var calls func(f *ssa.Function) []*ssa.Function
	calls = func(f *ssa.Function) []*ssa.Function {
		var l []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Package() == p.SSA {
						l = append(l, g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			l = append(l, calls(a)...)
		}
		return l
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || found != nil {
			return
		}
		seen[f] = true
		text, path, cb := false, false, false
		for _, q := range f.Params {
			text = text || isTextT(q.Type())
			path = path || q.Type().String() == "[]string"
			cb = cb || hasFunc(q.Type())
		}
		for _, g := range calls(f) {
			if g == f && text && path && cb {
				found = f
				return
			}
			visit(g)
		}
	}
	visit(fn)
	return found
}

// ownPath: v is the path the walk is at, and the last element of it after that.
func (st *tstate) ownPath(v *tv, more int) (*tv, bool) {
	var l []*tv
	for _, x := range st.parts(v) {
		if x.k == tvStr && x.s == "" {
			und("a path with an empty element")
		}
		l = append(l, x)
	}
	want := st.spec.s["at"] != ""
	if want {
		// the path up to its last element, and that
		if len(l) != 2+more || l[0].k != tvList || l[1].k != tvOpaque || l[1].s != "last element" {
			return nil, false
		}
		if o := st.objs[l[0].id]; o == nil || o.kind != 'p' || !st.equal(l[0].hi, st.spec.x["plen"]) || !l[0].lo.eq(lc(0)) {
			return nil, false
		}
		l = l[2:]
	}
	if len(l) != more {
		return nil, false
	}
	if more == 1 {
		return l[0], true
	}
	return nil, true
}

func (st *tstate) ownText(v *tv) {
	if v.k != tvText || v.id != 0 || !v.lo.eq(lc(0)) || !v.hi.eq(st.seqLen(0)) {
		und("looks at something else than the document")
	}
}

// again does the call at hand again after a call of fn.
func (st *tstate) again(fn *ssa.Function, args, free []*tv) bool {
	in := st.instr()
	st.top().redo = true
	if !st.e.admit(st) {
		return false
	}
	st.enter(fn, args, free, in)
	return true
}

func (p *Program) walkDriver(fn *ssa.Function, root bool) *tdrv {
	name := fn.Name() + ", a member"
	if root {
		name = fn.Name() + ", the document"
	}
	dr := &tdrv{name: name, counters: map[string]int{"i": 2}, far: true}
	dr.init = func(e *teng) []*tstate {
		st := e.newState()
		st.seqs = []*tseq{{cells: []*tcell{st.cellRun('q', bAny, 0)}}}
		st.spec.x["i"] = lc(0)
		var args []*tv
		for _, q := range fn.Params {
			switch {
			case isTextT(q.Type()):
				args = append(args, &tv{k: tvText, id: 0, hi: st.seqLen(0)})
			case hasFunc(q.Type()):
				args = append(args, &tv{k: tvFunc})
			case q.Type().String() == "[]string" && root:
				args = append(args, &tv{k: tvList, id: st.newObj(&tobj{kind: 'o', n: lc(0)})})
			case q.Type().String() == "[]string":
				n := ls(st.sym(0))
				st.spec.x["plen"] = n
				st.spec.s["at"] = "member"
				up := &tv{k: tvList, s: "all", id: st.newObj(&tobj{kind: 'p'}), hi: n}
				o := &tobj{kind: 'o', tag: "path", n: n.plus(1), items: []*tv{up, vop("last element")}}
				args = append(args, &tv{k: tvList, id: st.newObj(o), hi: n.plus(1)})
			default:
				args = append(args, vop("argument "+q.Name()))
			}
		}
		st.enter(fn, args, nil, nil)
		return []*tstate{st}
	}
	dr.gen = func(st *tstate) { und("looks into the document") }
	dr.append = func(st *tstate, id int, v *tv) {
		o := st.own(id)
		o.items = append(o.items, v)
	}
	// kind decides what the value at the path is.
	kind := func(st *tstate) string {
		if k := st.spec.s["kind"]; k != "" {
			return k
		}
		var alts []func(*tstate) bool
		for _, k := range []string{"object", "array", "string", "number", "boolean", "null", "none"} {
			k := k
			alts = append(alts, func(c *tstate) bool {
				c.spec.s["kind"] = k
				if k == "none" {
					c.note("the path is not found")
				} else {
					c.note("the value is: %s", k)
				}
				return true
			})
		}
		st.fork(alts...)
		return ""
	}
	bad := &tv{k: tvErr, s: "search"}
	dr.call = func(st *tstate, g *ssa.Function, args []*tv) (*tv, bool) {
		query := func(zero *tv, f func(k string) *tv) (*tv, bool) {
			if len(args) < 2 {
				return nil, false
			}
			st.ownText(args[0])
			if _, ok := st.ownPath(args[1], 0); !ok {
				und("looks at another path")
			}
			k := kind(st)
			if k == "none" {
				return tuple(zero, bad), true
			}
			return tuple(f(k), vnil), true
		}
		switch {
		case g == fn:
			return st.walkOn(fn, args), true
		case g.Signature.Recv() != nil || g.Parent() != nil:
			return nil, false
		}
		switch g.Name() {
		case "GetType":
			return query(vstr("ERROR"), func(k string) *tv { return vstr(k) })
		case "IsObject":
			return query(vbool(false), func(k string) *tv { return vbool(k == "object") })
		case "IsArray":
			return query(vbool(false), func(k string) *tv { return vbool(k == "array") })
		case "IsValue":
			return query(vbool(false), func(k string) *tv { return vbool(k != "object" && k != "array") })
		case "Get":
			return query(vnil, func(k string) *tv { return vop("notnil the value") })
		case "GetString":
			return query(vstr(""), func(k string) *tv { return vop("the value") })
		case "IterateKeyValue", "IterateArray":
			return st.iterateOver(g, args, kind(st))
		}
		return nil, false
	}
	dr.callback = func(st *tstate, args []*tv) *tv {
		if k := st.spec.s["kind"]; k == "object" || k == "array" {
			st.fail("hands out an %s", k)
		} else if k == "none" {
			st.fail("hands out something although the path is not found")
		} else if k == "" {
			und("hands out a value it knows nothing of")
		}
		if st.spec.s["said"] != "" {
			st.fail("hands out a value twice")
		}
		if len(args) != 3 {
			und("calls something else")
		}
		switch key := args[0]; {
		case key.k == tvOpaque && key.s == "last element":
			if root {
				st.fail("internal")
			}
		case key.k == tvOpaque && key.s == "path element":
			st.fail("hands out another element of the path as key")
		case key.k == tvStr:
			if !root || key.s != "" {
				st.fail("hands out the key %q in place of the last element of the path", key.s)
			}
		default:
			und("hands out a key that is not known: %s", st.tvs(key))
		}
		if v := args[1]; v.k != tvOpaque {
			if v.k == tvNil {
				st.fail("hands out no value")
			}
			und("hands out something that is not known: %s", st.tvs(v))
		} else if v.s != "notnil the value" && v.s != "the value" {
			und("hands out something that is not known: %s", st.tvs(v))
		}
		if _, ok := st.ownPath(args[2], 0); !ok {
			st.fail("hands out another path than the value's")
		}
		said := func(s string, ok bool, err *tv) func(*tstate) *tv {
			return func(c *tstate) *tv {
				c.spec.s["said"] = s
				return tuple(vbool(ok), err)
			}
		}
		e := &tv{k: tvErr, s: "callback"}
		st.results(said("go on", true, vnil), said("stop", false, vnil), said("error", true, e), said("error", false, e))
		return nil
	}
	dr.ret = func(st *tstate, res []*tv) {
		if len(res) != 2 || res[0].k != tvBool && res[0].k != tvErr {
			und("returns something that is not known")
		}
		on, err := res[0], res[1]
		said := st.spec.s["said"]
		k := st.spec.s["kind"]
		switch said {
		case "error":
			st.isErr(err, "callback")
			return
		case "iteration":
			st.isErr(err, "iteration")
			return
		}
		if k == "none" {
			st.isErr(err, "the search")
			return
		}
		st.noErr(err)
		if on.k != tvBool {
			und("returns something that is not known")
		}
		switch said {
		case "stop":
			if on.n.c != 0 {
				st.fail("goes on after the callback said to stop")
			}
			return
		case "":
			if k == "object" || k == "array" {
				st.fail("does not go into the %s", k)
			}
			st.fail("does not hand out the value")
		}
		if on.n.c != 1 {
			st.fail("stops although nothing said so")
		}
	}
	return dr
}

// walkOn is a recursive call: the member's values are handed out there.
func (st *tstate) walkOn(fn *ssa.Function, args []*tv) *tv {
	switch st.spec.s["member"] {
	case "":
		und("goes on with a member outside of an iteration")
	case "done":
		st.fail("goes into a member twice")
	}
	for i, q := range fn.Params {
		a := args[i]
		switch {
		case isTextT(q.Type()):
			st.ownText(a)
		case hasFunc(q.Type()):
			if a.k != tvFunc {
				und("another callback")
			}
		case q.Type().String() == "[]string":
			last, ok := st.ownPath(a, 1)
			if !ok {
				st.fail("goes on at another path than the member's")
			}
			if st.spec.s["kind"] == "object" {
				if last.k != tvOpaque {
					st.fail("goes on at another path than the member's")
				}
				if last.s != "notnil key" {
					und("goes on at a path that is not known: %s", st.tvs(last))
				}
			} else if last.k == tvOpaque && last.s == "strconv.Itoa" && last.a[0].k == tvInt {
				if n := last.a[0].n; !st.equal(n, st.spec.x["i"]) {
					st.fail("goes on at element %s in place of element %s", st.lxs(n), st.lxs(st.spec.x["i"]))
				}
			} else {
				und("goes on at a path that is not known: %s", st.tvs(last))
			}
			if o := st.objs[a.id]; a.k == tvList && o != nil && o.kind == 'o' {
				st.own(a.id).tag = "handed out"
			}
		}
	}
	said := func(s string, ok bool, err *tv) func(*tstate) *tv {
		return func(c *tstate) *tv {
			c.spec.s["member"] = "done"
			c.spec.s["answer"] = s
			return tuple(vbool(ok), err)
		}
	}
	e := &tv{k: tvErr, s: "callback"}
	st.results(said("go on", true, vnil), said("stop", false, vnil), said("error", true, e), said("error", false, e))
	return nil
}

// iterateOver is a call of an iteration with a function of the program.
func (st *tstate) iterateOver(g *ssa.Function, args []*tv, kind string) (*tv, bool) {
	if len(args) != 3 || args[1].k != tvClos {
		und("iterates with something that is not known")
	}
	st.ownText(args[0])
	if _, ok := st.ownPath(args[2], 0); !ok {
		und("iterates over another path")
	}
	obj := g.Name() == "IterateKeyValue"
	if kind == "none" {
		return &tv{k: tvErr, s: "search"}, true
	}
	if obj != (kind == "object") {
		return &tv{k: tvErr, s: "another kind"}, true
	}
	cl := args[1]
	elem := func(c *tstate) bool {
		a := []*tv{vop("notnil element")}
		if obj {
			a = []*tv{vop("notnil key"), vop("notnil element")}
		}
		c.spec.s["member"] = "todo"
		return c.again(cl.fn, a, cl.a)
	}
	ret := func(v *tv, said string) func(*tstate) bool {
		return func(c *tstate) bool {
			in := c.instr()
			c.spec.s["said"] = said
			delete(c.spec.s, "member")
			f := c.top()
			f.env[in] = v
			f.i++
			return true
		}
	}
	if st.spec.s["said"] != "" {
		st.fail("goes through the members twice")
	}
	if st.spec.s["member"] == "" {
		fail := ret(&tv{k: tvErr, s: "iteration"}, "iteration")
		st.fork(func(c *tstate) bool { c.note("the iteration fails"); return fail(c) }, ret(vnil, "go on"), elem)
	}
	// back from the function
	f := st.top()
	res := f.env[st.instr()]
	if res == nil || res.k != tvTuple || len(res.a) != 2 || res.a[0].k != tvBool {
		und("an answer of its function that is not known")
	}
	if st.spec.s["member"] != "done" {
		st.fail("passes over a member")
	}
	answer := st.spec.s["answer"]
	err := res.a[1]
	switch {
	case err.k == tvErr:
		if answer != "error" {
			st.fail("makes an error although the callback returned none")
		}
		st.fork(ret(err, "error"))
	case err.k != tvNil:
		und("an error of its function that is not known")
	}
	if answer == "error" {
		st.fail("drops the error of the callback")
	}
	if res.a[0].n.c == 0 {
		if answer == "go on" {
			st.fail("stops although nothing said so")
		}
		st.fork(ret(vnil, "stop"))
	}
	if answer == "stop" {
		st.fail("goes on after the callback said to stop")
	}
	next := func(f func(*tstate) bool) func(*tstate) bool {
		return func(c *tstate) bool {
			delete(c.spec.s, "answer")
			if !obj {
				c.spec.x["i"] = c.spec.x["i"].plus(1)
			}
			return f(c)
		}
	}
	st.fork(next(ret(vnil, "go on")), next(elem))
	return nil, false
}

// startDriver: the exported calls begin at the empty path and say what the walk says.
func (p *Program) startDriver(fn, w *ssa.Function) *tdrv {
	name := fn.Name() + ", from the start"
	if fn.Signature.Recv() != nil {
		name = "JO." + name
	}
	dr := &tdrv{name: name, counters: map[string]int{}}
	dr.init = func(e *teng) []*tstate {
		st := e.newState()
		st.seqs = []*tseq{{cells: []*tcell{st.cellRun('q', bAny, 0)}}}
		doc := &tv{k: tvText, id: 0, hi: st.seqLen(0)}
		var args []*tv
		for i, q := range fn.Params {
			switch t := q.Type().Underlying().(type) {
			case *types.Pointer:
				s, ok := t.Elem().Underlying().(*types.Struct)
				if i > 0 || !ok {
					return nil
				}
				o := &tobj{kind: 'a'}
				for j := 0; j < s.NumFields(); j++ {
					if isTextT(s.Field(j).Type()) {
						o.elems = append(o.elems, doc)
					} else {
						o.elems = append(o.elems, vop("field "+s.Field(j).Name()))
					}
				}
				args = append(args, &tv{k: tvAddr, id: st.newObj(o)})
			case *types.Signature:
				args = append(args, &tv{k: tvFunc})
			default:
				args = append(args, doc)
			}
		}
		st.enter(fn, args, nil, nil)
		return []*tstate{st}
	}
	dr.gen = func(st *tstate) { und("looks into the document") }
	dr.append = func(st *tstate, id int, v *tv) { st.own(id).items = append(st.own(id).items, v) }
	dr.call = func(st *tstate, g *ssa.Function, args []*tv) (*tv, bool) {
		if g != w {
			return nil, false
		}
		if st.spec.s["said"] != "" {
			st.fail("walks twice")
		}
		for i, q := range g.Params {
			a := args[i]
			switch {
			case isTextT(q.Type()):
				st.ownText(a)
			case hasFunc(q.Type()):
				if a.k != tvFunc {
					und("another callback")
				}
			case q.Type().String() == "[]string":
				if len(st.parts(a)) > 0 {
					st.fail("does not begin at the empty path")
				}
			}
		}
		said := func(s string, ok bool, err *tv) func(*tstate) *tv {
			return func(c *tstate) *tv {
				c.spec.s["said"] = s
				return tuple(vbool(ok), err)
			}
		}
		e := &tv{k: tvErr, s: "callback"}
		st.results(said("go on", true, vnil), said("stop", false, vnil), said("error", true, e), said("error", false, e))
		return nil, true
	}
	dr.callback = func(st *tstate, args []*tv) *tv {
		und("calls back itself")
		return nil
	}
	dr.ret = func(st *tstate, res []*tv) {
		switch st.spec.s["said"] {
		case "":
			st.fail("does not walk")
		case "error":
			st.isErr(res[0], "callback")
		default:
			st.noErr(res[0])
		}
	}
	return dr
}

func (p *Program) walkDrivers() []*tdrv {
	var l []*tdrv
	w := p.walker(p.fn("Walk"))
	if w == nil {
		return nil
	}
	l = append(l, p.walkDriver(w, true), p.walkDriver(w, false), p.startDriver(p.fn("Walk"), w))
	for _, f := range p.Funcs {
		if f.Name() == "Walk" && f.Signature.Recv() != nil && f.Parent() == nil && f.Synthetic == "" {
			l = append(l, p.startDriver(f, w))
		}
	}
	return l
}

// pathsStay: the functions of the walk write no element of a path that one made before it was called: an earlier call
// of the callback may have been given it.
func (p *Program) pathsStay(r *Report, w *ssa.Function) {
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || ia.X.Type().Underlying().String() != "[]string" {
					continue
				}
				n++
				r.add("paths-stay", fnName(f)+" writes an element", p.pos(in.Pos())+" "+fnName(f), !madeOutside(ia.X, in, 0), "writes to a path that was made outside of this call and may have been handed out")
			}
		}
	}
	visit(w)
	r.Stats["path_elements_written"] = n
}

// madeOutside: the list comes from a variable of the enclosing function that is not set in this one before.
func madeOutside(v ssa.Value, at ssa.Instruction, depth int) bool {
	if depth > 20 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Slice:
		return madeOutside(v.X, at, depth+1)
	case *ssa.ChangeType:
		return madeOutside(v.X, at, depth+1)
	case *ssa.FreeVar, *ssa.Parameter:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if madeOutside(e, at, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		// a function literal called at once
		if mc, ok := v.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Fn.(*ssa.Function).Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if u, ok := ret.Results[0].(*ssa.UnOp); ok {
						for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
							if u.X == fv {
								return outerCell(mc.Bindings[i], at)
							}
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		return outerCell(v.X, at)
	}
	return false
}

func outerCell(x ssa.Value, at ssa.Instruction) bool {
	if _, ok := x.(*ssa.FreeVar); !ok {
		return false
	}
	for _, b := range at.Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == x && (b != at.Block() && b.Dominates(at.Block()) || b == at.Block() && indexIn(st) < indexIn(at)) {
				return false
			}
		}
	}
	return true
}
