package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Which integers are positions in a text: those that index or slice one, and those that are computed from or compared
// with such a one. Merging the cells of a text rewrites the positions behind them and nothing else.

type posKey struct {
	v   ssa.Value
	fn  *ssa.Function
	res int
	at  bool // what the address v points to
}

type posClasses struct {
	up    map[posKey]posKey
	isPos map[posKey]bool
	bases map[*ssa.Function]map[posKey][]ssa.Value
}

func (p *posClasses) find(k posKey) posKey {
	for {
		u, ok := p.up[k]
		if !ok || u == k {
			return k
		}
		k = u
	}
}

func (p *posClasses) join(a, b posKey) {
	a, b = p.find(a), p.find(b)
	if a != b {
		p.up[a] = b
		if p.isPos[a] {
			p.isPos[b] = true
		}
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8
}

func isTextT(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// isListT: lists of anything but bytes.
func isListT(t types.Type) bool {
	u, ok := t.Underlying().(*types.Slice)
	return ok && !isTextT(u)
}

func positions(fns []*ssa.Function, isTextT func(types.Type) bool) *posClasses {
	p := &posClasses{up: map[posKey]posKey{}, isPos: map[posKey]bool{}, bases: map[*ssa.Function]map[posKey][]ssa.Value{}}
	type use struct {
		fn *ssa.Function
		k  posKey
		x  ssa.Value
	}
	var uses []use
	kv := func(v ssa.Value) (posKey, bool) {
		if _, c := v.(*ssa.Const); c || v == nil || !isIntT(v.Type()) {
			return posKey{}, false
		}
		return posKey{v: v}, true
	}
	j2 := func(a, b ssa.Value) {
		x, ok := kv(a)
		y, ok2 := kv(b)
		if ok && ok2 {
			p.join(x, y)
		}
	}
	idx := func(fn *ssa.Function, x, i ssa.Value) {
		if i == nil || !isTextT(x.Type()) {
			return
		}
		if k, ok := kv(i); ok {
			p.isPos[p.find(k)] = true
			uses = append(uses, use{fn, k, x})
		}
	}
	at := func(v ssa.Value) posKey { return posKey{v: v, at: true} }
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Phi:
					for _, e := range in.Edges {
						j2(in, e)
					}
				case *ssa.BinOp:
					switch in.Op.String() {
					case "+", "-":
						_, cx := in.X.(*ssa.Const)
						_, cy := in.Y.(*ssa.Const)
						if cy {
							j2(in, in.X)
						} else if cx {
							j2(in, in.Y)
						}
					case "<", "<=", ">", ">=", "==", "!=":
						j2(in.X, in.Y)
						for _, o := range []ssa.Value{in.X, in.Y} {
							if c, ok := o.(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isTextT(c.Call.Args[0].Type()) {
									// compared with the length of a text
									idx(fn, c.Call.Args[0], in.X)
									idx(fn, c.Call.Args[0], in.Y)
								}
							}
						}
					}
				case *ssa.IndexAddr:
					idx(fn, in.X, in.Index)
				case *ssa.Lookup:
					idx(fn, in.X, in.Index)
				case *ssa.Index:
					idx(fn, in.X, in.Index)
				case *ssa.Slice:
					idx(fn, in.X, in.Low)
					idx(fn, in.X, in.High)
				case *ssa.Store:
					if k, ok := kv(in.Val); ok {
						p.join(k, at(in.Addr))
					}
				case *ssa.UnOp:
					if k, ok := kv(in); ok && in.Op.String() == "*" {
						p.join(k, at(in.X))
					}
				case *ssa.ChangeType:
					j2(in, in.X)
				case *ssa.Convert:
					j2(in, in.X)
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					for i, v := range in.Bindings {
						p.join(at(v), at(f.FreeVars[i]))
						j2(v, f.FreeVars[i])
					}
				case *ssa.Return:
					for i, v := range in.Results {
						if k, ok := kv(v); ok {
							p.join(k, posKey{fn: fn, res: i})
						}
					}
				case *ssa.Extract:
					if c, ok := in.Tuple.(*ssa.Call); ok {
						if f := c.Call.StaticCallee(); f != nil {
							if k, ok := kv(in); ok {
								p.join(k, posKey{fn: f, res: in.Index})
							}
						}
					}
				case *ssa.Call:
					f := in.Call.StaticCallee()
					if f == nil {
						continue
					}
					if k, ok := kv(in); ok {
						p.join(k, posKey{fn: f})
					}
					for i, a := range in.Call.Args {
						if i < len(f.Params) {
							j2(a, f.Params[i])
						}
					}
				}
			}
		}
	}
	for _, u := range uses {
		k := p.find(u.k)
		p.isPos[k] = true
		m := p.bases[u.fn]
		if m == nil {
			m = map[posKey][]ssa.Value{}
			p.bases[u.fn] = m
		}
		m[k] = append(m[k], u.x)
	}
	return p
}

func (p *posClasses) pos(v ssa.Value) bool { return p.isPos[p.find(posKey{v: v})] }

// cellPos: is what the address v points to a position.
func (p *posClasses) cellPos(v ssa.Value) bool {
	return v != nil && p.isPos[p.find(posKey{v: v, at: true})]
}

// base is where the text begins that v indexes.
func (st *tstate) base(f *tframe, v ssa.Value) lx {
	p := st.e.pos
	m := p.bases[f.fn]
	if m == nil {
		return lc(0)
	}
	for _, x := range m[p.find(posKey{v: v})] {
		if t := f.env[x]; t != nil && t.k == tvText {
			return t.lo
		}
	}
	return lc(0)
}

// basesOf: the texts that positions in use count from and that are not in use themselves. A position stays one as
// long as it is used.
func (st *tstate) basesOf(f *tframe, live map[ssa.Value]bool) map[ssa.Value]bool {
	p := st.e.pos
	m := p.bases[f.fn]
	if m == nil {
		return nil
	}
	var out map[ssa.Value]bool
next:
	for v, t := range f.env {
		if t == nil || t.k != tvInt || !live[v] || !isIntT(v.Type()) {
			continue
		}
		var first ssa.Value
		for _, x := range m[p.find(posKey{v: v})] {
			if t := f.env[x]; t != nil && t.k == tvText {
				if live[x] {
					continue next
				}
				if first == nil {
					first = x
				}
			}
		}
		if first != nil {
			if out == nil {
				out = map[ssa.Value]bool{}
			}
			out[first] = true
		}
	}
	return out
}
