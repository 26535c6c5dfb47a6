package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What a value taken out of a local container can be. A container is an object of a struct type of the package with
// one slice of integers, whose functions put in parameters and constants and hand elements out; the object
// is made in the function and used there only, by calls of such functions. Every element is then one of the constants
// or a value that was put in before.

// source of an element or of a result
type csrc struct {
	param int // index of the parameter, or -1
	k     int64
	elem  bool // an element
}

type cfun struct {
	ok      bool
	puts    []csrc
	returns []csrc
}

// cbound is what is known of the result of a call: at least lo, and at most a loop variable.
type cbound struct {
	lo    int64
	hasLo bool
	hi    []*ssa.Phi
}

func (e *back) containerField(t types.Type) (types.Type, int, bool) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, 0, false
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() != e.p.Pkg.Types || openStruct2(n) {
		return nil, 0, false
	}
	s := n.Underlying().(*types.Struct)
	f := -1
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if !affineInt(u.Elem()) || f >= 0 {
				return nil, 0, false
			}
			f = i
		default:
			return nil, 0, false
		}
	}
	return n, f, f >= 0
}

func openStruct2(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return !ok || openStruct(t)
}

// containerFun summarises what a function does to containers of type t: which elements it writes into any of them.
func (e *back) containerFun(f *ssa.Function, t types.Type, field int, open map[*ssa.Function]bool) cfun {
	if open[f] {
		return cfun{}
	}
	open[f] = true
	defer delete(open, f)
	out := cfun{ok: true}
	isT := func(v ssa.Value) bool {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), t)
	}
	bad := cfun{}
	// list: the slice of v comes from the field of a container, or will be put there
	var list func(v ssa.Value, depth int) bool
	list = func(v ssa.Value, depth int) bool {
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && x.Op == token.MUL && isT(fa.X) && fa.Field == field
		case *ssa.MakeSlice:
			return types.Identical(x.Type().Underlying(), t.Underlying().(*types.Struct).Field(field).Type().Underlying())
		case *ssa.Slice:
			return list(x.X, depth+1)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && list(x.Call.Args[0], depth+1)
		}
		return false
	}
	src := func(v ssa.Value) (csrc, bool) {
		switch x := v.(type) {
		case *ssa.Const:
			n, ok := constInt(x)
			return csrc{param: -1, k: n}, ok
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x {
					return csrc{param: i}, true
				}
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && list(ia.X, 0) {
				return csrc{param: -1, elem: true}, true
			}
		}
		return csrc{}, false
	}
	var srcs func(v ssa.Value, seen map[ssa.Value]bool) ([]csrc, bool)
	srcs = func(v ssa.Value, seen map[ssa.Value]bool) ([]csrc, bool) {
		if seen[v] {
			return nil, true
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			var all []csrc
			for _, x := range ph.Edges {
				s, ok := srcs(x, seen)
				if !ok {
					return nil, false
				}
				all = append(all, s...)
			}
			return all, true
		}
		if s, ok := src(v); ok {
			return []csrc{s}, true
		}
		return nil, false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && list(v, 0) {
				// the slices are used in these ways only
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store, *ssa.Slice, *ssa.DebugRef, *ssa.Return:
					case *ssa.IndexAddr:
						for _, q := range *r.Referrers() {
							switch q := q.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if q.Val == ssa.Value(r) {
									return bad
								}
							default:
								return bad
							}
						}
					case *ssa.Call:
						if _, ok := r.Call.Value.(*ssa.Builtin); !ok {
							return bad
						}
					default:
						return bad
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isT(fa.X) {
					if fa.Field == field && !list(x.Val, 0) {
						return bad
					}
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && list(ia.X, 0) {
					s, ok := srcs(x.Val, map[ssa.Value]bool{})
					if !ok {
						return bad
					}
					out.puts = append(out.puts, s...)
					continue
				}
				if isT(x.Val) || list(x.Val, 0) {
					return bad
				}
				if d := derefPtr(x.Addr.Type()); d != nil && types.Identical(d, t) && !movedStruct(x.Val) {
					return bad
				}
			case *ssa.FieldAddr:
				if !isT(x.X) || x.Field != field {
					continue
				}
				for _, r := range *x.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if r.Val == ssa.Value(x) {
							return bad
						}
					default:
						return bad
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" && list(x.Call.Args[0], 0) && !list(x.Call.Args[1], 0) {
						return bad
					}
					if bi.Name() == "append" && list(x.Call.Args[0], 0) && !list(x.Call.Args[1], 0) {
						// the elements of a fresh array
						sl, ok := x.Call.Args[1].(*ssa.Slice)
						if !ok {
							return bad
						}
						al, ok := sl.X.(*ssa.Alloc)
						if !ok {
							return bad
						}
						for _, r := range *al.Referrers() {
							switch r := r.(type) {
							case *ssa.Slice:
								if r != sl {
									return bad
								}
							case *ssa.IndexAddr:
								for _, q := range *r.Referrers() {
									st, ok := q.(*ssa.Store)
									if !ok || st.Addr != ssa.Value(r) {
										return bad
									}
									s, ok := srcs(st.Val, map[ssa.Value]bool{})
									if !ok {
										return bad
									}
									out.puts = append(out.puts, s...)
								}
							case *ssa.DebugRef:
							default:
								return bad
							}
						}
						out.puts = append(out.puts, csrc{param: -1})
					}
					continue
				}
				uses := isT(x)
				for _, a := range x.Call.Args {
					uses = uses || isT(a) || list(a, 0)
				}
				if !uses {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || g.Package() != e.p.SSA {
					return bad
				}
				for _, a := range x.Call.Args {
					if !isT(a) && list(a, 0) {
						return bad
					}
				}
				s := e.containerFun(g, t, field, open)
				if !s.ok {
					return bad
				}
				for _, q := range s.puts {
					if q.param >= 0 {
						m, ok := srcs(x.Call.Args[q.param], map[ssa.Value]bool{})
						if !ok {
							return bad
						}
						out.puts = append(out.puts, m...)
					} else {
						out.puts = append(out.puts, q)
					}
				}
			case *ssa.MakeInterface:
				if isT(x.X) || list(x.X, 0) {
					return bad
				}
			case *ssa.MakeClosure:
				for _, a := range x.Bindings {
					if isT(a) || list(a, 0) {
						return bad
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					switch {
					case isT(r):
					case list(r, 0):
						return bad
					case affineInt(r.Type()) && len(x.Results) == 1:
						s, ok := srcs(r, map[ssa.Value]bool{})
						if !ok {
							s = []csrc{{param: -2}}
						}
						out.returns = append(out.returns, s...)
					}
				}
			case *ssa.Phi:
				if isT(x) {
					return bad
				}
			}
		}
	}
	return out
}

// movedStruct: a struct that was put together in a place of its own and moved.
func movedStruct(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp:
			if r != u {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// learnContents finds the bounds.
func (e *back) learnContents(budget int) {
	e.contents = map[*ssa.Call]cbound{}
	for _, f := range e.p.Funcs {
		if !e.live[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if t, field, ok := e.containerField(c.Type()); ok {
						e.containerUses(f, c, t, field, budget)
					}
				}
			}
		}
	}
}

func (e *back) containerUses(f *ssa.Function, obj *ssa.Call, t types.Type, field int, budget int) {
	mk := obj.Call.StaticCallee()
	if mk == nil || mk.Package() != e.p.SSA {
		return
	}
	// a new object
	for _, b := range mk.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if len(r.Results) != 1 {
					return
				}
				if _, ok := r.Results[0].(*ssa.Alloc); !ok {
					return
				}
			}
		}
	}
	s := e.containerFun(mk, t, field, map[*ssa.Function]bool{})
	if !s.ok {
		return
	}
	consts := map[int64]bool{0: true}
	type put struct {
		c *ssa.Call
		v ssa.Value
	}
	var puts []put
	for _, q := range s.puts {
		switch {
		case q.param >= 0:
			puts = append(puts, put{obj, obj.Call.Args[q.param]})
		case !q.elem:
			consts[q.k] = true
		}
	}
	var takes []*ssa.Call
	for _, r := range *obj.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return
		}
		g := c.Call.StaticCallee()
		if g == nil || g.Package() != e.p.SSA {
			return
		}
		if _, _, ok := e.containerField(c.Type()); ok {
			return
		}
		s := e.containerFun(g, t, field, map[*ssa.Function]bool{})
		if !s.ok {
			return
		}
		for _, q := range s.puts {
			switch {
			case q.param >= 0:
				puts = append(puts, put{c, c.Call.Args[q.param]})
			case !q.elem:
				consts[q.k] = true
			}
		}
		take := len(s.returns) > 0
		for _, q := range s.returns {
			if q.param != -1 {
				take = false
			}
			if !q.elem && q.param == -1 {
				consts[q.k] = true
			}
		}
		if take {
			takes = append(takes, c)
		}
	}
	fr := e.root(f)
	low := int64(0)
	for k := range consts {
		if k < low {
			low = k
		}
	}
	for _, c := range takes {
		bd := cbound{lo: low, hasLo: true}
		for _, q := range puts {
			if ok, _ := e.prove(q.c, []con{lt(e.val(fr, q.v), linC(low))}, budget); !ok {
				bd.hasLo = false
			}
		}
	phis:
		for _, h := range f.Blocks {
			if !loopHead(h) || !h.Dominates(c.Block()) || !loopBody(h)[c.Block()] || loopBody(h)[obj.Block()] || !obj.Block().Dominates(h) {
				continue
			}
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !affineInt(ph.Type()) {
					continue
				}
				good := true
				for i, p := range h.Preds {
					if !h.Dominates(p) {
						continue
					}
					// never smaller in the next round
					last := p.Instrs[len(p.Instrs)-1]
					if ok, _ := e.prove(last, []con{lt(e.val(fr, ph.Edges[i]), e.val(fr, ph))}, budget); !ok {
						good = false
						break
					}
				}
				for _, q := range puts {
					if !good {
						break
					}
					if !loopBody(h)[q.c.Block()] {
						continue phis
					}
					if ok, _ := e.prove(q.c, []con{lt(e.val(fr, ph), e.val(fr, q.v))}, budget); !ok {
						good = false
					}
				}
				for k := range consts {
					if !good {
						break
					}
					if ok, _ := e.prove(c, []con{lt(e.val(fr, ph), linC(k))}, budget); !ok {
						good = false
					}
				}
				if good {
					bd.hi = append(bd.hi, ph)
				}
			}
		}
		if bd.hasLo || len(bd.hi) > 0 {
			e.contents[c] = bd
		}
	}
}

// contentFacts is what is known of the result of a call.
func (e *back) contentFacts(fr *bframe, c *ssa.Call) []con {
	bd, ok := e.contents[c]
	if !ok {
		return nil
	}
	r := linA(e.atom(aVal, fr, c))
	var out []con
	if bd.hasLo {
		out = append(out, le(linC(bd.lo), r))
	}
	for _, ph := range bd.hi {
		out = append(out, le(r, e.val(fr, ph)))
	}
	return out
}

func (e *back) dbgContents() {
	for c, b := range e.contents {
		e.note("content %s %s %+v", c, e.p.pos(c.Pos()), b)
	}
}
