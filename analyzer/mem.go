package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of struct fields and captured variables, as values of the function: a load is the value last stored
// on the way there, a join of those, what the cell held at entry, or what some instruction left in it.

type mval interface{} // ssa.Value, *memPhi, *memInit, *memHavoc, *memZero

type cellKey struct {
	base  mval
	st    types.Type // struct type of the field, nil for a plain variable
	field int
}

func (c cellKey) String() string {
	if c.st == nil {
		return "*" + mname(c.base)
	}
	return mname(c.base) + "." + c.st.Underlying().(*types.Struct).Field(c.field).Name()
}

func (c cellKey) typ() types.Type {
	if c.st == nil {
		if v, ok := c.base.(ssa.Value); ok {
			return derefType(v.Type())
		}
		return nil
	}
	return c.st.Underlying().(*types.Struct).Field(c.field).Type()
}

type memPhi struct {
	block *ssa.BasicBlock
	cell  cellKey
	inc   []mval
	fwd   mval
}
type memInit struct {
	fn   *ssa.Function
	cell cellKey
}
type memHavoc struct {
	in   ssa.Instruction
	cell cellKey
	// the object was just obtained by in, which does not change it
	atDef bool
}
type memZero struct{ t types.Type }

func mname(v mval) string {
	switch v := v.(type) {
	case ssa.Value:
		return v.Name()
	case *memPhi:
		return fmt.Sprintf("%s@%d", v.cell, v.block.Index)
	case *memInit:
		return v.cell.String()
	case *memHavoc:
		return fmt.Sprintf("%s'%s", v.cell, instrName(v.in))
	}
	return "0"
}

func instrName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	return fmt.Sprintf("#%d", in.Block().Index)
}

type memKey struct {
	b    *ssa.BasicBlock
	cell cellKey
}
type memAtKey struct {
	in   interface{}
	cell cellKey
}

type memory struct {
	p     *Program
	atTop map[memKey]mval // value at block start
	inits map[cellKey]map[*ssa.Function]*memInit
	havoc map[memAtKey]*memHavoc
	zeros map[string]*memZero
	loads map[*ssa.UnOp]mval
	busy  map[*ssa.UnOp]bool
	cls   map[*ssa.Alloc]int // 1 does not escape, 2 captured by closures that may write it, 3 escapes, 4 constant after its only store
	one   map[*ssa.Alloc]*ssa.Store
	wmemo map[memAtKey]bool
}

func newMemory(p *Program) *memory {
	return &memory{p: p, atTop: map[memKey]mval{}, inits: map[cellKey]map[*ssa.Function]*memInit{}, havoc: map[memAtKey]*memHavoc{},
		zeros: map[string]*memZero{}, loads: map[*ssa.UnOp]mval{}, busy: map[*ssa.UnOp]bool{}, cls: map[*ssa.Alloc]int{}, one: map[*ssa.Alloc]*ssa.Store{}, wmemo: map[memAtKey]bool{}}
}

func (m *memory) find(v mval) mval {
	for {
		p, ok := v.(*memPhi)
		if !ok || p.fwd == nil {
			return v
		}
		v = p.fwd
	}
}

// canon is the value itself, or the one a load is known to give.
func (m *memory) canon(v ssa.Value) mval {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if r := m.load(x); r != nil {
				return m.find(r)
			}
		}
	case *ssa.ChangeType:
		return m.canon(x.X)
	}
	return v
}

// cellOf names the memory behind an address, if it is a field or a variable.
func (m *memory) cellOf(addr ssa.Value) (cellKey, bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := derefType(a.X.Type())
		if st == nil {
			return cellKey{}, false
		}
		if _, nested := a.X.(*ssa.IndexAddr); nested {
			return cellKey{}, false
		}
		if _, nested := a.X.(*ssa.FieldAddr); nested {
			return cellKey{}, false
		}
		return cellKey{m.canon(a.X), st, a.Field}, true
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		if t := derefType(addr.Type()); t != nil && !isStruct(t) {
			if _, arr := t.Underlying().(*types.Array); !arr {
				return cellKey{addr, nil, 0}, true
			}
		}
	}
	return cellKey{}, false
}

func (m *memory) load(u *ssa.UnOp) mval {
	if r, ok := m.loads[u]; ok {
		return r
	}
	if m.busy[u] {
		return nil
	}
	m.busy[u] = true
	defer delete(m.busy, u)
	c, ok := m.cellOf(u.X)
	if !ok {
		m.loads[u] = nil
		return nil
	}
	if al, isA := c.base.(*ssa.Alloc); isA && m.class(al) == 4 {
		m.loads[u] = m.canon(m.one[al].Val)
		return m.loads[u]
	}
	if fv, isF := c.base.(*ssa.FreeVar); isF {
		if al := captured(fv); al != nil && m.class(al) == 4 {
			// a value of the enclosing function
			if k, isC := m.one[al].Val.(*ssa.Const); isC {
				m.loads[u] = k
				return k
			}
			m.loads[u] = m.init(u.Parent(), c)
			return m.loads[u]
		}
	}
	r := m.at(c, u.Block(), indexIn(u))
	m.loads[u] = r
	return r
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// captured is the variable of the enclosing function behind a free variable.
func captured(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return nil
	}
	k := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			k = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && k < len(mc.Bindings) {
				al, _ := mc.Bindings[k].(*ssa.Alloc)
				return al
			}
		}
	}
	return nil
}

func (m *memory) class(al *ssa.Alloc) int {
	if c, ok := m.cls[al]; ok {
		return c
	}
	m.cls[al] = 3
	c := 1
	stores := 0
	var only *ssa.Store
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					stores++
					only = r
				} else {
					c = 3
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				for _, rr := range *r.Referrers() {
					switch rr := rr.(type) {
					case *ssa.Store:
						if rr.Addr != r {
							c = 3
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						c = 3
					}
				}
			case *ssa.MakeClosure:
				if c == 1 {
					c = 2
				}
				if depth > 3 {
					c = 3
					return
				}
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						visit(f.FreeVars[i], depth+1)
					}
				}
			default:
				c = 3
			}
		}
	}
	visit(al, 0)
	if c == 2 && stores == 1 && only.Parent() == al.Parent() {
		// the one store comes before every closure
		ok := true
		for _, r := range *al.Referrers() {
			if mc, isC := r.(*ssa.MakeClosure); isC && !before(only, mc) {
				ok = false
			}
			if u, isL := r.(*ssa.UnOp); isL && !before(only, u) {
				ok = false
			}
		}
		if ok {
			c = 4
			m.one[al] = only
		}
	}
	m.cls[al] = c
	return c
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexIn(a) < indexIn(b)
	}
	return a.Block().Dominates(b.Block())
}

func (m *memory) init(fn *ssa.Function, c cellKey) *memInit {
	x := m.inits[c]
	if x == nil {
		x = map[*ssa.Function]*memInit{}
		m.inits[c] = x
	}
	if x[fn] == nil {
		x[fn] = &memInit{fn, c}
	}
	return x[fn]
}

func (m *memory) hav(in ssa.Instruction, c cellKey, def bool) *memHavoc {
	k := memAtKey{in, c}
	if m.havoc[k] == nil {
		m.havoc[k] = &memHavoc{in: in, cell: c, atDef: def}
	}
	return m.havoc[k]
}

func (m *memory) zero(t types.Type) *memZero {
	k := t.String()
	if m.zeros[k] == nil {
		m.zeros[k] = &memZero{t}
	}
	return m.zeros[k]
}

// baseDefinedBy tells whether in creates or obtains the base of the cell.
func (m *memory) baseDefinedBy(c cellKey, in ssa.Instruction) bool {
	switch b := c.base.(type) {
	case ssa.Value:
		bi, ok := b.(ssa.Instruction)
		return ok && bi == in
	case *memHavoc:
		return b.in == in
	}
	return false
}

// at is what the cell holds before instruction i of block b.
func (m *memory) at(c cellKey, b *ssa.BasicBlock, i int) mval {
	for i--; i >= 0; i-- {
		in := b.Instrs[i]
		if _, isPhi := in.(*ssa.Phi); isPhi {
			if m.baseDefinedBy(c, in) {
				return m.hav(in, c, true)
			}
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			if d, ok := m.cellOf(x.Addr); ok {
				if d == c {
					return m.canon(x.Val)
				}
				if m.mayAlias(c, d, x) {
					return m.hav(in, c, false)
				}
				continue
			}
			// a whole struct, or memory behind an index
			if t := derefType(x.Addr.Type()); t != nil && c.st != nil && isStruct(t) && types.Identical(t, c.st) {
				if m.canon(x.Addr) == c.base {
					if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
						return m.zero(c.typ())
					}
					if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
						if al, ok := u.X.(*ssa.Alloc); ok {
							return m.at(cellKey{al, c.st, c.field}, u.Block(), indexIn(u))
						}
					}
				}
				if m.distinctBase(c.base, m.canon(x.Addr), x) {
					continue
				}
				return m.hav(in, c, false)
			}
			continue
		case ssa.CallInstruction:
			if m.mayChange(x, c) {
				return m.hav(in, c, false)
			}
		}
		if al, ok := in.(*ssa.Alloc); ok && c.base == mval(al) {
			return m.zero(c.typ())
		}
		if m.baseDefinedBy(c, in) {
			if x, ok := in.(*ssa.Extract); ok {
				// one of several results: what the call leaves in it
				if call, ok := x.Tuple.(*ssa.Call); ok && rightAfter(x, call) {
					return m.hav(call, c, true)
				}
			}
			return m.hav(in, c, true)
		}
	}
	return m.top(c, b)
}

// rightAfter: nothing but other results is between the call and its result.
func rightAfter(x *ssa.Extract, call *ssa.Call) bool {
	if x.Block() != call.Block() {
		return false
	}
	for i := indexIn(call) + 1; i < indexIn(x); i++ {
		if y, ok := x.Block().Instrs[i].(*ssa.Extract); !ok || y.Tuple != x.Tuple {
			return false
		}
	}
	return true
}

func (m *memory) top(c cellKey, b *ssa.BasicBlock) mval {
	k := memKey{b, c}
	if v, ok := m.atTop[k]; ok {
		return m.find(v)
	}
	if ph, ok := c.base.(*memPhi); ok && ph.block == b {
		v := m.init(b.Parent(), c) // obtained here
		m.atTop[k] = v
		return v
	}
	if len(b.Preds) == 0 {
		v := m.init(b.Parent(), c)
		m.atTop[k] = v
		return v
	}
	if len(b.Preds) == 1 {
		v := m.at(c, b.Preds[0], len(b.Preds[0].Instrs))
		m.atTop[k] = v
		return v
	}
	ph := &memPhi{block: b, cell: c}
	m.atTop[k] = ph
	var uniq mval
	same := true
	for _, p := range b.Preds {
		v := m.find(m.at(c, p, len(p.Instrs)))
		ph.inc = append(ph.inc, v)
		if v == mval(ph) {
			continue
		}
		if uniq == nil {
			uniq = v
		} else if uniq != v {
			same = false
		}
	}
	if same && uniq != nil {
		// one value on every way: valid here only if it is available here
		if m.available(uniq, b) {
			ph.fwd = uniq
			return uniq
		}
	}
	return ph
}

func (m *memory) available(v mval, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *memInit, *memZero, *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case *memPhi:
		return x.block.Dominates(b)
	case *memHavoc:
		return x.in.Block() != b && x.in.Block().Dominates(b)
	case ssa.Value:
		in, ok := x.(ssa.Instruction)
		return ok && in.Block() != b && in.Block().Dominates(b)
	}
	return false
}

func (m *memory) mayAlias(c, d cellKey, at ssa.Instruction) bool {
	if (c.st == nil) != (d.st == nil) {
		// a pointer to a field could be a plain variable pointer; fields of this package are never pointed to
		return false
	}
	if c.st != nil {
		if !types.Identical(c.st, d.st) || c.field != d.field {
			return false
		}
	} else {
		tc, td := c.typ(), d.typ()
		if tc != nil && td != nil && !types.Identical(tc, td) {
			return false
		}
	}
	return !m.distinctBase(c.base, d.base, at)
}

// distinctBase: two pointers that cannot be equal where at is executed.
func (m *memory) distinctBase(x, y mval, at ssa.Instruction) bool {
	if x == y {
		return false
	}
	ax, okx := x.(*ssa.Alloc)
	ay, oky := y.(*ssa.Alloc)
	if okx && oky {
		return true
	}
	if okx && m.class(ax) == 1 || oky && m.class(ay) == 1 {
		return true
	}
	older := func(v mval, al *ssa.Alloc) bool {
		// v was known before the variable was made
		switch v := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *memInit:
			return true
		case *memPhi:
			return v.block.Dominates(al.Block())
		case *memHavoc:
			return before(v.in, al)
		case ssa.Value:
			in, ok := v.(ssa.Instruction)
			return ok && before(in, al)
		}
		return false
	}
	if okx && older(y, ax) || oky && older(x, ay) {
		return true
	}
	return false
}

// mayChange tells whether a call can change the cell.
func (m *memory) mayChange(ci ssa.CallInstruction, c cellKey) bool {
	k := memAtKey{ci, c}
	if r, ok := m.wmemo[k]; ok {
		return r
	}
	r := m.mayChange1(ci, c)
	m.wmemo[k] = r
	return r
}

func (m *memory) mayChange1(ci ssa.CallInstruction, c cellKey) bool {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if al, ok := c.base.(*ssa.Alloc); ok {
		switch m.class(al) {
		case 1, 4:
			return false
		case 2:
			return true
		}
	}
	if c.st == nil {
		switch b := c.base.(type) {
		case *ssa.FreeVar:
			return true
		case *ssa.Parameter, *ssa.Alloc:
			// written by a callee it is handed to
			for _, a := range cc.Args {
				if m.canon(a) == mval(b) {
					return true
				}
			}
			_, isP := b.(*ssa.Parameter)
			return isP && cc.StaticCallee() == nil
		case *ssa.Global:
			return true
		}
		return true
	}
	var fns []*ssa.Function
	if g := cc.StaticCallee(); g != nil {
		if g.Package() != m.p.SSA || len(g.Blocks) == 0 {
			return false
		}
		fns = append(fns, g)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fns = append(fns, mc.Fn.(*ssa.Function))
	}
	for _, a := range cc.Args {
		switch f := a.(type) {
		case *ssa.MakeClosure:
			fns = append(fns, f.Fn.(*ssa.Function))
		case *ssa.Function:
			fns = append(fns, f)
		}
	}
	key := fieldKey(c.st, c.field)
	for _, g := range fns {
		if m.writesField(g, key) {
			return true
		}
	}
	return false
}

// writesField: a call of g may change this field of an object that existed before.
func (m *memory) writesField(g *ssa.Function, key string) bool {
	a := m.p.rooted(g)
	for _, w := range a.writes {
		if w.fld != key && w.fld != key[:strings.IndexByte(key, '.')]+".*" {
			continue
		}
		for o := range w.dst.set {
			if o.kind != oAlloc {
				return true
			}
		}
	}
	return false
}
