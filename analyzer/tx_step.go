package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step does one instruction; false when the state is done with.
func (st *tstate) step() bool {
	f := st.top()
	if f.i > 0 && f.prev != nil {
		if _, ok := f.b.Instrs[f.i-1].(*ssa.Phi); ok {
			if l := st.e.cmpLoop(f.b); l != nil && !l.body.Dominates(f.prev) {
				if _, isPhi := f.b.Instrs[f.i].(*ssa.Phi); !isPhi {
					if done, on := st.compare(l); done {
						return on
					}
				}
			}
		}
	}
	in := f.b.Instrs[f.i]
	set := func(v *tv) bool {
		f.env[in.(ssa.Value)] = v
		f.i++
		return true
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.i++
		return true
	case *ssa.Alloc:
		o := &tobj{kind: 'a', site: in}
		t := in.Type().Underlying().(*types.Pointer).Elem()
		switch u := t.Underlying().(type) {
		case *types.Array:
			if u.Len() > 1024 {
				und("large array")
			}
			for i := int64(0); i < u.Len(); i++ {
				o.elems = append(o.elems, zeroOf(u.Elem()))
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				o.elems = append(o.elems, zeroOf(u.Field(i).Type()))
			}
		default:
			o.elems = []*tv{zeroOf(t)}
		}
		return set(&tv{k: tvAddr, id: st.newObj(o)})
	case *ssa.MakeSlice:
		n := st.val(f, in.Len)
		if n.k != tvInt {
			und("makes a slice of unknown length")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		if n.n.con() {
			if n.n.c == 0 {
				id := st.newObj(&tobj{kind: 'o', n: lc(0), site: in})
				return set(&tv{k: tvList, id: id})
			}
			if n.n.c < 0 || n.n.c > 1024 {
				und("makes a large slice")
			}
			o := &tobj{kind: 'a', site: in}
			for i := 0; i < n.n.c; i++ {
				o.elems = append(o.elems, zeroOf(el))
			}
			return set(&tv{k: tvList, id: st.newObj(o), hi: n.n})
		}
		// every element has a value of a set
		o := &tobj{kind: 'u', n: n.n, site: in, elems: []*tv{}}
		return set(&tv{k: tvList, id: st.newObj(o), hi: n.n})
	case *ssa.Store:
		a, v := st.val(f, in.Addr), st.val(f, in.Val)
		if a.k != tvAddr {
			und("stores to an unknown place")
		}
		o := st.objs[a.id]
		switch {
		case o == nil:
			und("stores to an unknown place")
		case o.kind == 'b' && len(a.a) == 0:
			st.putBuf(a.id, a.n, lc(1), v)
		case o.kind == 'u':
			if st.asBuf(a.id, a.n, v) {
				break
			}
			if !v.n.con() || v.k != tvInt {
				und("stores an unknown byte")
			}
			o = st.own(a.id)
			if len(o.n2) == 0 {
				o.n2 = []lx{a.n}
			} else {
				o.n2 = []lx{lc(0), a.n}
			}
			has := false
			for _, x := range o.elems {
				has = has || x.n.c == v.n.c
			}
			if !has {
				o.elems = append(o.elems, v)
			}
		case o.tag == "handed out":
			st.fail("writes over what it handed out")
		case o.kind != 'a':
			und("writes over output")
		case len(a.a) > 0:
			// index is a byte: the set of it has to be one
			c := a.a[0]
			i := st.oneByte(c)
			if i >= len(o.elems) {
				und("index out of range")
			}
			st.own(a.id).elems[i] = v
		default:
			if !a.n.con() {
				und("stores to an unknown element")
			}
			if a.n.c < 0 || a.n.c >= len(o.elems) {
				und("index out of range")
			}
			st.own(a.id).elems[a.n.c] = v
		}
		f.i++
		return true
	case *ssa.UnOp:
		x := st.val(f, in.X)
		switch in.Op {
		case token.MUL:
			return set(st.load(x))
		case token.NOT:
			if x.k == tvBool {
				return set(vbool(x.n.c == 0))
			}
			return set(vop("not", x))
		case token.SUB:
			if x.k == tvInt {
				return set(vint(lc(0).sub(x.n)))
			}
		}
		return set(vtop)
	case *ssa.BinOp:
		return set(st.binop(in, st.val(f, in.X), st.val(f, in.Y)))
	case *ssa.ChangeType:
		return set(st.val(f, in.X))
	case *ssa.Convert:
		return set(st.convert(in, st.val(f, in.X)))
	case *ssa.MakeInterface:
		x := st.val(f, in.X)
		if x.k == tvErr {
			return set(x)
		}
		return set(&tv{k: tvIface, a: []*tv{x}})
	case *ssa.ChangeInterface:
		return set(st.val(f, in.X))
	case *ssa.IndexAddr:
		x, i := st.val(f, in.X), st.val(f, in.Index)
		return set(st.indexAddr(x, i))
	case *ssa.Lookup:
		x, i := st.val(f, in.X), st.val(f, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			if x.k != tvList || st.objs[x.id] == nil || st.objs[x.id].kind != 'm' {
				und("reads a map that is not known")
			}
			zero := zeroOf(in.X.Type().Underlying().(*types.Map).Elem())
			mk := func(v *tv, ok bool) func(*tstate) bool {
				return func(c *tstate) bool {
					r := v
					if in.CommaOk {
						r = tuple(v, vbool(ok))
					}
					fr := c.top()
					fr.env[in] = r
					fr.i++
					return true
				}
			}
			alts := []func(*tstate) bool{mk(zero, false)}
			if st.objs[x.id].tag != "" {
				// the key may be one that was stored before
				alts = append(alts, mk(vop("value in map", i), true))
			}
			st.fork(alts...)
		}
		return set(st.load(st.indexAddr(x, i)))
	case *ssa.Index:
		return set(st.load(st.indexAddr(st.val(f, in.X), st.val(f, in.Index))))
	case *ssa.Slice:
		var lo, hi *tv
		if in.Low != nil {
			lo = st.val(f, in.Low)
		}
		if in.High != nil {
			hi = st.val(f, in.High)
		}
		// a capacity changes where an append writes, not what it gives (C06 and C07 are about where)
		return set(st.slice(st.val(f, in.X), lo, hi))
	case *ssa.FieldAddr:
		x := st.val(f, in.X)
		if x.k != tvAddr || !x.n.con() || x.n.c != 0 {
			und("field of an unknown struct")
		}
		return set(&tv{k: tvAddr, id: x.id, n: lc(in.Field)})
	case *ssa.Extract:
		t := st.val(f, in.Tuple)
		if t.k == tvTuple && in.Index < len(t.a) {
			return set(t.a[in.Index])
		}
		return set(vtop)
	case *ssa.MakeClosure:
		c := &tv{k: tvClos, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.a = append(c.a, st.val(f, b))
		}
		return set(c)
	case *ssa.MakeMap:
		return set(&tv{k: tvList, id: st.newObj(&tobj{kind: 'm', site: in})})
	case *ssa.MapUpdate:
		if st.e.drv.mapSet == nil {
			und("writes a map")
		}
		st.e.drv.mapSet(st, st.val(f, in.Map), st.val(f, in.Key), st.val(f, in.Value))
		f.i++
		return true
	case *ssa.If:
		c := st.val(f, in.Cond)
		if c.k == tvBool {
			if c.n.c == 1 {
				return st.jump(f.b.Succs[0])
			}
			return st.jump(f.b.Succs[1])
		}
		v := in.Cond
		why := "a condition is not known"
		if c.k == tvOpaque && strings.HasPrefix(c.s, "free ") {
			why = ""
		}
		pick := func(b bool) func(*tstate) bool {
			return func(n *tstate) bool {
				if why != "" {
					n.imp = why
				}
				n.top().env[v] = vbool(b)
				return true
			}
		}
		st.fork(pick(true), pick(false))
	case *ssa.Jump:
		return st.jump(f.b.Succs[0])
	case *ssa.Return:
		var res []*tv
		for _, r := range in.Results {
			res = append(res, st.val(f, r))
		}
		if len(st.frames) == 1 {
			st.e.drv.ret(st, res)
			st.e.ends["return"]++
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
		c := st.top()
		cv, _ := f.call.(ssa.Value)
		if cv != nil {
			switch len(res) {
			case 0:
			case 1:
				c.env[cv] = res[0]
			default:
				c.env[cv] = &tv{k: tvTuple, a: res}
			}
		}
		if c.redo {
			c.redo = false
		} else {
			c.i++
		}
		return true
	case *ssa.Call:
		return st.call(f, in)
	case *ssa.Range:
		if x := st.val(f, in.X); x.k == tvText && x.s == "M" {
			st.spec.x["range"] = lc(0)
			return set(x)
		}
	case *ssa.Next:
		// the elements of a map come in some order, each once
		if x := st.val(f, in.Iter); x.k == tvText && x.s == "M" {
			at := st.spec.x["range"]
			if !st.less(at, x.hi) {
				return set(tuple(vbool(false), vtop, vtop))
			}
			c := st.byteAt(x.id, at)
			st.spec.x["range"] = at.plus(1)
			return set(tuple(vbool(true), st.e.drv.load(st, c, "K"), st.e.drv.load(st, c, "V")))
		}
	case *ssa.Panic:
		st.fail("panics")
	}
	und("instruction %T", in)
	return false
}

func (st *tstate) oneByte(v *tv) int {
	switch v.k {
	case tvInt:
		if v.n.con() {
			return v.n.c
		}
	case tvCell:
		c := st.cell(v.id)
		if c != nil && c.set.count() == 1 {
			return c.set.list()[0] + v.n.c
		}
		if c != nil && c.set.count() < 16 {
			var alts []func(*tstate) bool
			for _, b := range c.set.list() {
				b := b
				alts = append(alts, func(n *tstate) bool { return n.refine(v.id, one(b)) })
			}
			st.fork(alts...)
		}
	}
	und("a byte that is not known")
	return 0
}

func (st *tstate) indexAddr(x, i *tv) *tv {
	switch x.k {
	case tvText:
		if i.k != tvInt {
			und("an index that is not known")
		}
		return &tv{k: tvTAddr, s: x.s, id: x.id, lo: x.lo.sum(i.n)}
	case tvStr:
		if i.k == tvInt && i.n.con() && i.n.c >= 0 && i.n.c < len(x.s) {
			return &tv{k: tvTuple, s: "byte", a: []*tv{vnum(int(x.s[i.n.c]))}}
		}
	case tvList, tvAddr:
		if o := st.objs[x.id]; o != nil && (o.kind == 'a' || o.kind == 'u' || o.kind == 'b') {
			base := x.lo
			if x.k == tvAddr {
				base = x.n
			}
			if i.k == tvInt {
				return &tv{k: tvAddr, id: x.id, n: base.sum(i.n)}
			}
			if i.k == tvCell {
				return &tv{k: tvAddr, id: x.id, a: []*tv{i}}
			}
		} else if o != nil && o.kind == 'o' && i.k == tvInt && len(o.items) > 0 {
			// the last thing it put out
			last := o.items[len(o.items)-1]
			all := (last.k == tvTuple || last.k == tvList) && last.s == "all" || last.k == tvOpaque && last.s == "fill"
			if d := x.lo.sum(i.n).sub(o.n); !all && d.con() && d.c == -1 {
				return &tv{k: tvTuple, s: "byte", a: []*tv{last}}
			}
			if o.tag == "path" || o.tag == "handed out" {
				if v := st.element(x.lo.sum(i.n), o); v != nil {
					return &tv{k: tvTuple, s: "byte", a: []*tv{v}}
				}
			}
		}
	}
	und("an element of something that is not known: %s", st.tvs(x))
	return nil
}

func (st *tstate) load(a *tv) *tv {
	switch a.k {
	case tvTAddr:
		c := st.byteAt(a.id, a.lo)
		if c.kind == 'E' {
			return &tv{k: tvElem, id: c.id}
		}
		if st.e.drv.load != nil {
			return st.e.drv.load(st, c, a.s)
		}
		return &tv{k: tvCell, id: c.id}
	case tvTuple:
		return a.a[0]
	case tvAddr:
		o := st.objs[a.id]
		if o == nil {
			und("reads an unknown place")
		}
		if o.kind == 'u' {
			und("reads a slice of unknown length")
		}
		if o.kind != 'a' {
			und("reads its output")
		}
		if len(a.a) > 0 {
			v := a.a[0]
			c := st.cell(v.id)
			if c == nil {
				und("a byte that is not known")
			}
			// the set of bytes for which the element is the same as for the first
			l := c.set.list()
			get := func(b int) *tv {
				b += v.n.c
				if b < 0 || b >= len(o.elems) {
					und("index out of range")
				}
				return o.elems[b]
			}
			first := get(l[0])
			var s bset
			for _, b := range l {
				x := get(b)
				if x == first || x.k == first.k && (x.k == tvBool || x.k == tvInt) && x.n.eq(first.n) || x.k == tvStr && first.k == tvStr && x.s == first.s {
					s = s.or(one(b))
				}
			}
			if st.inSet(&tv{k: tvCell, id: v.id}, s) {
				return first
			}
			und("internal: load")
		}
		if !a.n.con() {
			und("reads an unknown element")
		}
		if a.n.c < 0 || a.n.c >= len(o.elems) {
			und("index out of range")
		}
		return o.elems[a.n.c]
	}
	und("reads an unknown place: %s", st.tvs(a))
	return nil
}

func (st *tstate) slice(x, lo, hi *tv) *tv {
	num := func(v *tv) lx {
		if v.k != tvInt {
			und("slices at a position that is not known")
		}
		return v.n
	}
	switch x.k {
	case tvNil:
		return x
	case tvText:
		c := *x
		if lo != nil {
			c.lo = x.lo.sum(num(lo))
		}
		if hi != nil {
			c.hi = x.lo.sum(num(hi))
		}
		if st.less(c.hi, c.lo) {
			und("slice bounds out of range")
		}
		return &c
	case tvStr:
		a, b := 0, len(x.s)
		if lo != nil {
			if !num(lo).con() {
				und("slices a constant")
			}
			a = num(lo).c
		}
		if hi != nil {
			if !num(hi).con() {
				und("slices a constant")
			}
			b = num(hi).c
		}
		if a < 0 || b > len(x.s) || a > b {
			und("slice bounds out of range")
		}
		return vstr(x.s[a:b])
	case tvAddr:
		o := st.objs[x.id]
		r := &tv{k: tvList, id: x.id, hi: lc(len(o.elems))}
		if lo != nil {
			r.lo = num(lo)
		}
		if hi != nil {
			r.hi = num(hi)
		}
		return r
	case tvList:
		c := *x
		if lo != nil {
			c.lo = x.lo.sum(num(lo))
		}
		if hi != nil {
			c.hi = x.lo.sum(num(hi))
		}
		return &c
	case tvOpaque:
		if lo == nil && hi == nil {
			return x
		}
	}
	und("slices something that is not known: %s", st.tvs(x))
	return nil
}

func (st *tstate) length(v *tv) lx {
	switch v.k {
	case tvNil:
		return lc(0)
	case tvStr:
		return lc(len(v.s))
	case tvText, tvList:
		return v.hi.sub(v.lo)
	case tvCat:
		n := lc(0)
		for _, x := range v.a {
			n = n.sum(st.length(x))
		}
		return n
	case tvOpaque, tvElem:
		k := "L" + st.tvs(v)
		if v.k == tvElem {
			k = fmt.Sprintf("E%d%s", v.id, v.s)
		}
		if n, ok := st.lens[k]; ok {
			return n
		}
		n := ls(st.sym(0))
		if v.k == tvOpaque && makeTerms[v.s] && v.s != "fmt" {
			n = ls(st.sym(1))
		}
		st.lens[k] = n
		return n
	}
	und("length of something that is not known: %s", st.tvs(v))
	return lx{}
}

func (st *tstate) convert(in *ssa.Convert, x *tv) *tv {
	to := in.Type().Underlying()
	if b, ok := to.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if x.k == tvInt || x.k == tvCell || x.k == tvByte {
			if x.k == tvInt && x.n.con() && b.Kind() == types.Uint8 {
				return vnum(x.n.c & 255)
			}
			return x
		}
		return vop("convert "+b.Name(), x)
	}
	if isTextT(in.Type()) {
		if isTextT(in.X.Type()) {
			if x.k == tvNil {
				return vstr("")
			}
			return x
		}
		if x.k == tvInt && x.n.con() && x.n.c >= 0 && x.n.c < 128 {
			return vstr(string(rune(x.n.c)))
		}
		if x.k == tvCell {
			return vop("char", x)
		}
	}
	return vop("convert "+in.Type().String(), x)
}

func (st *tstate) binop(in *ssa.BinOp, x, y *tv) *tv {
	op := in.Op
	if st.e.drv.load != nil {
		if v, ok := st.elemCmp(op, x, y); ok {
			return v
		}
	}
	// bytes
	if x.k == tvCell || y.k == tvCell || x.k == tvByte || y.k == tvByte {
		a, b, o := x, y, op
		if x.k != tvCell && x.k != tvByte {
			a, b = y, x
			switch op {
			case token.LSS:
				o = token.GTR
			case token.GTR:
				o = token.LSS
			case token.LEQ:
				o = token.GEQ
			case token.GEQ:
				o = token.LEQ
			}
		}
		if b.k == tvCell || b.k == tvByte {
			// two bytes: one of them has to be known
			if c := st.cell(a.id); a.k == tvCell && c != nil && c.set.count() <= 8 {
				a = vnum(st.oneByte(a))
				if x == y {
					b = a
				}
			} else if c := st.cell(b.id); b.k == tvCell && c != nil && c.set.count() <= 8 {
				b = vnum(st.oneByte(b))
			} else {
				und("compares two bytes that are not known")
			}
			if a.k == tvInt && b.k == tvInt {
				return st.binop(in, swapIf(x, y, a, b, true), swapIf(x, y, a, b, false))
			}
			if a.k == tvInt {
				return st.binop(in, a, y)
			}
			return st.binop(in, x, b)
		}
		if b.k != tvInt || !b.n.con() {
			und("compares a byte with something that is not known")
		}
		n := b.n.c
		var s bset
		for i := 0; i < 256; i++ {
			ok := false
			switch o {
			case token.EQL, token.NEQ:
				ok = i == n
			case token.LSS:
				ok = i < n
			case token.LEQ:
				ok = i <= n
			case token.GTR:
				ok = i > n
			case token.GEQ:
				ok = i >= n
			case token.ADD:
				if a.k == tvCell {
					return &tv{k: tvCell, id: a.id, n: lc(a.n.c + n)}
				}
			case token.SUB:
				if a == x && a.k == tvCell {
					return &tv{k: tvCell, id: a.id, n: lc(a.n.c - n)}
				}
			}
			if ok {
				s = s.or(one(i))
			}
		}
		switch o {
		case token.EQL, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return vbool(st.inSet(a, s))
		case token.NEQ:
			return vbool(!st.inSet(a, s))
		}
		return vop("byte "+op.String(), x, y)
	}
	if x.k == tvInt && y.k == tvInt {
		switch op {
		case token.ADD:
			return vint(x.n.sum(y.n))
		case token.SUB:
			return vint(x.n.sub(y.n))
		case token.MUL:
			if y.n.con() {
				return vint(lc(0).add(x.n, y.n.c))
			}
			if x.n.con() {
				return vint(lc(0).add(y.n, x.n.c))
			}
		case token.EQL:
			return vbool(st.equal(x.n, y.n))
		case token.NEQ:
			return vbool(!st.equal(x.n, y.n))
		case token.LSS:
			return vbool(st.less(x.n, y.n))
		case token.GTR:
			return vbool(st.less(y.n, x.n))
		case token.LEQ:
			return vbool(!st.less(y.n, x.n))
		case token.GEQ:
			return vbool(!st.less(x.n, y.n))
		case token.REM, token.AND:
			two := y.n.con() && (op == token.REM && y.n.c == 2 || op == token.AND && y.n.c == 1)
			if x.n.con() && y.n.con() && y.n.c != 0 {
				if op == token.REM {
					return vnum(x.n.c % y.n.c)
				}
				return vnum(x.n.c & y.n.c)
			}
			if two {
				for _, t := range x.n.t {
					if t.k%2 != 0 {
						st.split(x.n)
					}
				}
				p := x.n.c & 1
				if p == 1 && op == token.REM && st.less(x.n, lc(0)) {
					p = -1
				}
				return vnum(p)
			}
		case token.QUO:
			if x.n.con() && y.n.con() && y.n.c != 0 {
				return vnum(x.n.c / y.n.c)
			}
			if st.e.drv.far && y.n.con() && y.n.c > 1 && y.n.c <= 8 {
				if v, ok := st.divide(x.n, y.n.c); ok {
					return vint(v)
				}
			}
		}
		return vop("free "+op.String(), x, y)
	}
	if x.k == tvBool && y.k == tvBool {
		switch op {
		case token.EQL:
			return vbool(x.n.c == y.n.c)
		case token.NEQ:
			return vbool(x.n.c != y.n.c)
		}
	}
	if isTextT(in.X.Type()) {
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			switch op {
			case token.ADD:
				return vcat(x, y)
			case token.EQL, token.NEQ:
				if y.k != tvStr {
					x, y = y, x
				}
				if x.k == tvStr && y.k == tvStr {
					return vbool((x.s == y.s) == (op == token.EQL))
				}
				if y.k == tvStr && x.k == tvText {
					return vbool(st.texEq(x, y.s) == (op == token.EQL))
				}
				if y.k == tvStr && y.s == "" && x.k == tvCat {
					return vbool(st.equal(st.length(x), lc(0)) == (op == token.EQL))
				}
				if v, ok := st.sameText(x, y); ok {
					return vbool(v == (op == token.EQL))
				}
				if st.e.drv.load != nil && x.k == tvElem && y.k == tvStr {
					return vbool(st.texEq(x, y.s) == (op == token.EQL))
				}
				if st.e.drv.load != nil && y.k == tvElem && x.k == tvStr {
					return vbool(st.texEq(y, x.s) == (op == token.EQL))
				}
				if x.k == tvOpaque || y.k == tvOpaque || x.k == tvElem || y.k == tvElem {
					return vop("free ==", x, y)
				}
			}
		}
	}
	// comparison with nil
	if op == token.EQL || op == token.NEQ {
		if y.k != tvNil {
			x, y = y, x
		}
		if y.k == tvNil {
			switch x.k {
			case tvNil:
				return vbool(op == token.EQL)
			case tvErr, tvIface, tvText, tvStr, tvList, tvClos, tvFunc, tvAddr, tvCat:
				return vbool(op == token.NEQ)
			case tvOpaque:
				if strings.HasPrefix(x.s, "notnil ") {
					return vbool(op == token.NEQ)
				}
				return vop("free nil", x)
			}
		}
	}
	for _, v := range []*tv{x, y} {
		if v.k == tvOpaque && strings.HasPrefix(v.s, "any ") {
			return vop("free "+op.String(), x, y)
		}
	}
	return vop("unknown "+op.String(), x, y)
}

// divide makes the number that is k times smaller, by cases of the remainder.
func (st *tstate) divide(x lx, k int) (lx, bool) {
	if st.less(x, lc(0)) {
		return x, false
	}
	all := true
	for _, t := range x.t {
		all = all && t.k%k == 0
	}
	if all && x.c >= 0 {
		q := lc(x.c / k)
		for _, t := range x.t {
			q = q.add(ls(t.s), t.k/k)
		}
		return q, true
	}
	if len(x.t) != 1 || x.t[0].k != 1 || st.loose[x.t[0].s] {
		return x, false
	}
	s := x.t[0].s
	var alts []func(*tstate) bool
	for r := 0; r < k; r++ {
		r := r
		alts = append(alts, func(c *tstate) bool {
			// s is r more than a multiple of k, and not smaller than it was
			m := c.min[s]
			q := c.sym((m - r + k - 1) / k)
			c.replaceSym(s, lc(r).add(ls(q), k))
			return c.neOK()
		})
	}
	st.fork(alts...)
	return x, false
}

// sameText decides whether a text is one the specification knows by name.
func (st *tstate) sameText(x, y *tv) (v, ok bool) {
	if st.e.drv.textIs == nil {
		return
	}
	if y.k != tvText {
		x, y = y, x
	}
	if y.k != tvText {
		return
	}
	lo, hi := y.lo, y.hi
	if x.k == tvCat {
		l := x.a
		n := len(l)
		if n > 1 && l[0].k == tvStr {
			s := l[0].s
			if st.less(hi.sub(lo), lc(len(s))) || !st.texEq(&tv{k: tvText, id: y.id, lo: lo, hi: lo.plus(len(s))}, s) {
				return false, true
			}
			lo = lo.plus(len(s))
			l = l[1:]
		}
		if n = len(l); n > 1 && l[n-1].k == tvStr {
			s := l[n-1].s
			if st.less(hi.sub(lo), lc(len(s))) || !st.texEq(&tv{k: tvText, id: y.id, lo: hi.plus(-len(s)), hi: hi}, s) {
				return false, true
			}
			hi = hi.plus(-len(s))
			l = l[:n-1]
		}
		if len(l) != 1 {
			return
		}
		x = l[0]
	}
	if x.k != tvOpaque {
		return
	}
	return st.e.drv.textIs(st, x, y.id, lo, hi, false), true
}

func swapIf(x, y, a, b *tv, first bool) *tv {
	// a stands for x unless the operands were swapped
	if first {
		return a
	}
	return b
}

// vcat is x followed by y.
func vcat(x, y *tv) *tv {
	var l []*tv
	add := func(v *tv) {
		if v.k == tvStr && v.s == "" {
			return
		}
		if n := len(l); n > 0 && v.k == tvStr && l[n-1].k == tvStr {
			l[n-1] = vstr(l[n-1].s + v.s)
			return
		}
		l = append(l, v)
	}
	for _, v := range []*tv{x, y} {
		if v.k == tvCat {
			for _, p := range v.a {
				add(p)
			}
		} else {
			add(v)
		}
	}
	if len(l) == 0 {
		return vstr("")
	}
	if len(l) == 1 {
		return l[0]
	}
	return &tv{k: tvCat, a: l}
}

// call does a call.
func (st *tstate) call(f *tframe, in *ssa.Call) bool {
	set := func(v *tv) bool {
		f.env[in] = v
		f.i++
		return true
	}
	cc := in.Call
	if cc.IsInvoke() {
		recv := st.val(f, cc.Value)
		if recv.k == tvErr {
			return set(vop("text of error"))
		}
		und("calls a method of an interface")
	}
	var args []*tv
	for _, a := range cc.Args {
		args = append(args, st.val(f, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return set(st.builtin(in, b.Name(), args))
	}
	fn := cc.StaticCallee()
	var free []*tv
	if fn == nil {
		v := st.val(f, cc.Value)
		switch v.k {
		case tvFunc:
			if st.e.drv.callback == nil {
				und("calls a function that is not known")
			}
			return set(st.e.drv.callback(st, args))
		case tvClos:
			fn, free = v.fn, v.a
		default:
			und("calls a function that is not known")
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		free = st.val(f, mc).a
	}
	if st.e.drv.call != nil {
		if v, ok := st.e.drv.call(st, fn, args); ok {
			return set(v)
		}
	}
	if fn.Package() == st.e.p.SSA || fn.Parent() != nil {
		if len(fn.Blocks) == 0 {
			und("calls %s", fn.Name())
		}
		if st.e.errMaker(fn) {
			return set(&tv{k: tvErr, s: fn.Name()})
		}
		n := 0
		for _, fr := range st.frames {
			if fr.fn == fn {
				n++
			}
		}
		if n > 1 || len(st.frames) > 10 {
			und("recursion in %s", fn.Name())
		}
		st.enter(fn, args, free, in)
		return true
	}
	return set(st.extern(in, fn, args))
}

// errMaker: every result of fn is an error it makes itself.
func (e *teng) errMaker(fn *ssa.Function) bool {
	if v, ok := e.makers[fn]; ok {
		return v == 1
	}
	e.makers[fn] = 0
	sig := fn.Signature
	if sig.Results().Len() != 1 || !types.IsInterface(sig.Results().At(0).Type()) {
		return false
	}
	ok, n := true, 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, isR := in.(*ssa.Return)
			if !isR {
				continue
			}
			n++
			switch v := r.Results[0].(type) {
			case *ssa.MakeInterface:
			case *ssa.Call:
				c := v.Call.StaticCallee()
				if c == nil || !(c.String() == "errors.New" || c.String() == "fmt.Errorf" || e.errMaker(c)) {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	if ok && n > 0 {
		e.makers[fn] = 1
	}
	return e.makers[fn] == 1
}

// extern models functions of other packages.
func (st *tstate) extern(in *ssa.Call, fn *ssa.Function, args []*tv) *tv {
	name := fn.String()
	switch name {
	case "errors.New", "fmt.Errorf":
		return &tv{k: tvErr, s: name}
	case "bytes.Equal":
		if v, ok := st.sameText(args[0], args[1]); ok {
			return vbool(v)
		}
	}
	for _, a := range args {
		if a.k == tvClos || a.k == tvFunc {
			und("calls %s with a function", name)
		}
	}
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		und("calls %s", name)
	case 1:
		return vop(name, args...)
	}
	// the last result may be an error
	last := r.At(r.Len() - 1).Type()
	t := &tv{k: tvTuple}
	for i := 0; i < r.Len()-1; i++ {
		t.a = append(t.a, vop(name, args...))
	}
	if types.IsInterface(last) {
		t.a = append(t.a, vop("free error of "+name, args...))
		key := "x" + name
		for _, a := range args {
			key += st.tvs(a)
		}
		good := *t
		good.a = append(append([]*tv(nil), t.a[:r.Len()-1]...), vnil)
		bad := *t
		bad.a = append(append([]*tv(nil), t.a[:r.Len()-1]...), &tv{k: tvErr, s: name, a: args})
		done := func(v *tv) func(*tstate) bool {
			return func(n *tstate) bool {
				f := n.top()
				f.env[in] = v
				f.i++
				return true
			}
		}
		st.fork(done(&good), done(&bad))
	}
	t.a = append(t.a, vop(name, args...))
	return t
}

func (st *tstate) builtin(in *ssa.Call, name string, args []*tv) *tv {
	switch name {
	case "len":
		if args[0].k == tvList {
			if o := st.objs[args[0].id]; o != nil && o.kind == 'm' {
				und("length of a map")
			}
		}
		return vint(st.length(args[0]))
	case "cap":
		return vop("cap", args...)
	case "append":
		return st.appendTo(in, args[0], args[1])
	case "copy":
		return vint(st.copyTo(args[0], args[1]))
	case "ssa:wrapnilchk":
		return args[0]
	}
	und("builtin %s", name)
	return nil
}

// appendTo appends the elements of y to x.
func (st *tstate) appendTo(in *ssa.Call, x, y *tv) *tv {
	var items []*tv
	switch y.k {
	case tvList:
		o := st.objs[y.id]
		if o == nil {
			und("appends something that is not known")
		}
		switch {
		case o.kind == 'a' && y.lo.con() && y.hi.con():
			if y.lo.c < 0 || y.hi.c > len(o.elems) || y.lo.c > y.hi.c {
				und("slice bounds out of range")
			}
			items = append(items, o.elems[y.lo.c:y.hi.c]...)
		case o.kind == 'u':
			items = append(items, &tv{k: tvOpaque, s: "fill", id: y.id, a: o.elems, n: o.n})
		default:
			id := y.id
			if o.kind == 'b' {
				// what is written to it later does not show
				c := *o
				id = st.newObj(&c)
			}
			items = append(items, &tv{k: tvList, s: "all", id: id, lo: y.lo, hi: y.hi})
		}
	case tvNil:
	case tvStr:
		for i := 0; i < len(y.s); i++ {
			items = append(items, vnum(int(y.s[i])))
		}
	case tvText, tvCat, tvOpaque, tvElem:
		items = append(items, &tv{k: tvTuple, s: "all", a: []*tv{y}})
	default:
		und("appends something that is not known: %s", st.tvs(y))
	}
	done := st.qlen("appended")
	if done > 0 {
		if x.k == tvList && st.objs[x.id] != nil && st.objs[x.id].kind == 'a' {
			items = append(append([]*tv(nil), st.objs[x.id].elems[x.lo.c:x.hi.c]...), items...)
		} else if x.k == tvStr {
			var l []*tv
			for i := 0; i < len(x.s); i++ {
				l = append(l, vnum(int(x.s[i])))
			}
			items = append(l, items...)
		}
		x = st.spec.v["appended"]
	}
	if x.k == tvNil {
		id := st.newObj(&tobj{kind: 'o', n: lc(0), site: in})
		x = &tv{k: tvList, id: id}
	}
	if x.k == tvStr {
		// bytes of a constant: they are output now
		o := &tobj{kind: 'a', site: in}
		for i := 0; i < len(x.s); i++ {
			o.elems = append(o.elems, vnum(int(x.s[i])))
		}
		x = &tv{k: tvList, id: st.newObj(o), hi: lc(len(x.s))}
	}
	if x.k != tvList {
		und("appends to something that is not known")
	}
	o := st.objs[x.id]
	if o == nil {
		und("appends to something that is not known")
	}
	if o.kind == 'a' {
		// a list of known length: its elements are output now
		if !x.lo.con() || !x.hi.con() {
			und("appends to something that is not known")
		}
		id := st.newObj(&tobj{kind: 'o', n: lc(0), site: o.site})
		items = append(append([]*tv(nil), o.elems[x.lo.c:x.hi.c]...), items...)
		x = &tv{k: tvList, id: id}
		o = st.objs[id]

	}
	if o.kind != 'o' {
		und("appends to something that is not known")
	}
	if done == 0 && !x.hi.eq(o.n) && o.tag == "handed out" {
		st.fail("writes over what it handed out")
	}
	if x.lo.con() && x.lo.c == 0 && !x.hi.eq(o.n) && st.e.drv.cut != nil && done == 0 && st.e.drv.cut(st, x.id, x.hi) {
		o = st.objs[x.id]
	}
	if done == 0 && (!x.hi.eq(o.n) || !x.lo.con() || x.lo.c != 0) {
		und("appends to a part of its output")
	}
	// the items one by one, since looking at one may fork
	for i, v := range items {
		if i < done {
			continue
		}
		st.addOut(x.id, v)
		if i+1 < len(items) {
			st.spec.s["q:appended"] = strconv.Itoa(i + 1)
			st.spec.v["appended"] = x
		}
	}
	delete(st.spec.s, "q:appended")
	delete(st.spec.v, "appended")
	return &tv{k: tvList, id: x.id, hi: st.objs[x.id].n}
}

func (st *tstate) addOut(id int, v *tv) {
	n := lc(1)
	if v.k == tvTuple && v.s == "all" {
		n = st.length(v.a[0])
	} else if v.k == tvList && v.s == "all" {
		n = v.hi.sub(v.lo)
	} else if v.k == tvOpaque && v.s == "fill" {
		n = v.n
	}
	if st.e.drv.append != nil {
		st.e.drv.append(st, id, v)
	} else {
		o := st.own(id)
		o.items = append(o.items, v)
	}
	o := st.own(id)
	o.n = o.n.sum(n)
	if lo, ok, _, _ := st.bounds(o.n); st.e.drv.coarse && ok && lo > st.e.drv.coarseAt {
		o.n = ls(st.sym(1 + st.e.drv.coarseAt))
	}
}

// asBuf makes a slice of symbolic length a buffer of pieces when what is stored first is no filling.
func (st *tstate) asBuf(id int, at lx, v *tv) bool {
	o := st.objs[id]
	if len(o.elems) > 0 || v.k == tvInt && v.n.con() && at.con() && at.c == 0 {
		return false
	}
	st.toBuf(id)
	st.putBuf(id, at, lc(1), v)
	return true
}

// toBuf turns what was stored so far into pieces.
func (st *tstate) toBuf(id int) {
	o := st.own(id)
	if o.kind != 'u' || len(o.n2) > 1 {
		und("copies over a filled slice")
	}
	o.kind = 'b'
	o.items = []*tv{{k: tvOpaque, s: "hole"}}
	o.lens = []lx{o.n}
	if len(o.n2) == 1 {
		at, v := o.n2[0], o.elems[0]
		o.elems, o.n2 = nil, nil
		st.putBuf(id, at, lc(1), v)
	}
}

// putBuf writes n elements at a place that was not written yet.
func (st *tstate) putBuf(id int, at, n lx, v *tv) {
	o := st.objs[id]
	off := lc(0)
	for i, x := range o.items {
		end := off.sum(o.lens[i])
		if x.k == tvOpaque && x.s == "hole" && !st.less(at, off) && !st.less(end, at.sum(n)) {
			o = st.own(id)
			hole := func(n lx) *tv { return &tv{k: tvOpaque, s: "hole"} }
			a, b := at.sub(off), end.sub(at.sum(n))
			items := append([]*tv(nil), o.items[:i]...)
			lens := append([]lx(nil), o.lens[:i]...)
			items = append(items, hole(a), v, hole(b))
			lens = append(lens, a, n, b)
			o.items = append(items, o.items[i+1:]...)
			o.lens = append(lens, o.lens[i+1:]...)
			return
		}
		off = end
	}
	und("writes over what it wrote")
}

// copyTo is the builtin copy.
func (st *tstate) copyTo(dst, src *tv) lx {
	n := st.length(src)
	if d := st.length(dst); st.less(d, n) {
		und("copies a part")
	}
	none := st.equal(n, lc(0))
	if dst.k == tvList {
		if o := st.objs[dst.id]; o != nil && o.kind == 'u' {
			st.toBuf(dst.id)
		}
	}
	if dst.k == tvNil || none {
		return lc(0)
	}
	if dst.k != tvList || st.objs[dst.id] == nil {
		und("copies to something that is not known")
	}
	v := src
	if src.k != tvText && src.k != tvStr && src.k != tvCat && src.k != tvOpaque && src.k != tvList {
		und("copies something that is not known")
	}
	if src.k == tvList {
		o := st.objs[src.id]
		id := src.id
		if o != nil && o.kind != 'p' {
			c := *o
			id = st.newObj(&c)
		}
		v = &tv{k: tvList, s: "all", id: id, lo: src.lo, hi: src.hi}
	} else {
		v = &tv{k: tvTuple, s: "all", a: []*tv{src}}
	}
	if st.objs[dst.id].kind != 'b' {
		und("copies over something that is known")
	}
	st.putBuf(dst.id, dst.lo, n, v)
	return n
}
