package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loops that compare two texts byte by byte and leave at the first difference: they are done in one step.

type cmpLoop struct {
	head, body   *ssa.BasicBlock
	exit, differ *ssa.BasicBlock
	a, b         ssa.Value // the texts
	ao, bo       ssa.Value // added to the index of each
	ac, bc       int
	n            ssa.Value // the text whose length is the bound, or the bound itself
	idx          *ssa.Phi
}

func (e *teng) cmpLoop(h *ssa.BasicBlock) *cmpLoop {
	if e.cmps == nil {
		e.cmps = map[*ssa.BasicBlock]*cmpLoop{}
	}
	l, ok := e.cmps[h]
	if !ok {
		l = findCmp(h)
		e.cmps[h] = l
	}
	return l
}

// through follows blocks that do nothing but jump.
func through(b, h *ssa.BasicBlock) *ssa.BasicBlock {
	for i := 0; i < 4 && b != h; i++ {
		if len(b.Instrs) != 1 || len(b.Succs) != 1 {
			return b
		}
		b = b.Succs[0]
	}
	return b
}

func findCmp(h *ssa.BasicBlock) *cmpLoop {
	if len(h.Instrs) == 0 || len(h.Preds) != 2 && len(h.Preds) != 3 {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS && cond.Op != token.NEQ {
		return nil
	}
	l := &cmpLoop{head: h, body: h.Succs[0], exit: h.Succs[1]}
	var j ssa.Value
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			if l.idx != nil || !isIntT(in.Type()) {
				return nil
			}
			l.idx = in
		case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	if l.idx == nil {
		return nil
	}
	j = l.idx
	start := 0
	if cond.X != ssa.Value(l.idx) {
		// a range loop counts before it compares
		add, ok := cond.X.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(l.idx) || !isOne(add.Y) {
			return nil
		}
		j = add
		start = -1
	}
	l.n = cond.Y
	// the body
	b := l.body
	if len(b.Preds) != 1 || len(b.Succs) != 2 {
		return nil
	}
	bif, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := bif.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return nil
	}
	same, diff := b.Succs[0], b.Succs[1]
	if cmp.Op == token.NEQ {
		same, diff = diff, same
	}
	// the way back
	back := same
	for i := 0; i < 3 && back != h; i++ {
		for _, in := range back.Instrs {
			switch in := in.(type) {
			case *ssa.Jump, *ssa.DebugRef:
			case *ssa.BinOp:
				if in.X != ssa.Value(l.idx) || in.Op != token.ADD || !isOne(in.Y) {
					return nil
				}
			default:
				return nil
			}
		}
		if len(back.Succs) != 1 || len(back.Preds) != 1 {
			return nil
		}
		back = back.Succs[0]
	}
	if back != h {
		return nil
	}
	for i, p := range h.Preds {
		e := l.idx.Edges[i]
		inside := p == b || p == same || b.Dominates(p)
		if inside {
			add, ok := e.(*ssa.BinOp)
			if !ok || add.Op != token.ADD || add.X != ssa.Value(l.idx) || !isOne(add.Y) {
				return nil
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != int64(start) {
			return nil
		}
	}
	l.differ = diff
	read := func(v ssa.Value) (x, off ssa.Value, k int, ok bool) {
		var i ssa.Value
		switch v := v.(type) {
		case *ssa.Lookup:
			x, i = v.X, v.Index
		case *ssa.Index:
			x, i = v.X, v.Index
		case *ssa.UnOp:
			ia, isIA := v.X.(*ssa.IndexAddr)
			if v.Op != token.MUL || !isIA {
				return
			}
			x, i = ia.X, ia.Index
		default:
			return
		}
		if !isTextT(x.Type()) {
			return
		}
		for n := 0; i != j; n++ {
			add, isAdd := i.(*ssa.BinOp)
			if !isAdd || n > 3 || add.Op != token.ADD && add.Op != token.SUB {
				return
			}
			if c, isC := add.Y.(*ssa.Const); isC {
				if add.Op == token.ADD {
					k += int(c.Int64())
				} else {
					k -= int(c.Int64())
				}
				i = add.X
				continue
			}
			if add.Op != token.ADD || off != nil {
				return
			}
			if add.Y == j || add.X != j && usesOf(add.Y, j) {
				off, i = add.X, add.Y
			} else {
				off, i = add.Y, add.X
			}
		}
		return x, off, k, true
	}
	var ok1, ok2 bool
	l.a, l.ao, l.ac, ok1 = read(cmp.X)
	l.b, l.bo, l.bc, ok2 = read(cmp.Y)
	if !ok1 || !ok2 {
		return nil
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Lookup, *ssa.Index, *ssa.IndexAddr, *ssa.UnOp, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		default:
			_ = in
			return nil
		}
	}
	return l
}

func usesOf(v, j ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (b.X == j || b.Y == j)
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}

// compare does a loop of that kind when one of the texts is one the specification knows by name.
func (st *tstate) compare(l *cmpLoop) (done, on bool) {
	f := st.top()
	if st.e.drv.textIs == nil {
		return
	}
	a, b := st.val(f, l.a), st.val(f, l.b)
	ao, bo, ac, bc := l.ao, l.bo, l.ac, l.bc
	if a.k != tvOpaque {
		a, b, ao, bo, ac, bc = b, a, bo, ao, bc, ac
	}
	if a.k != tvOpaque || b.k != tvText || ao != nil || ac != 0 {
		return
	}
	n := st.val(f, l.n)
	if c, ok := l.n.(*ssa.Call); ok && c.Block() == l.head {
		n = vint(st.length(st.val(f, c.Call.Args[0])))
	}
	if n.k != tvInt {
		return
	}
	at := b.lo.plus(bc)
	if bo != nil {
		o := st.val(f, bo)
		if o.k != tvInt {
			return
		}
		at = at.sum(o.n)
	}
	// up to the length of the one or the other
	whole := n.n.eq(st.length(a))
	if !whole && !n.n.eq(b.hi.sub(at)) {
		return
	}
	if st.e.drv.textIs(st, a, b.id, at, at.sum(n.n), true) {
		f.env[l.idx] = n
		return true, st.jumpFrom(l.head, l.exit)
	}
	f.env[l.idx] = vint(ls(st.looseSym()))
	return true, st.jumpFrom(l.body, l.differ)
}
