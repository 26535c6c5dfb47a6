package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-package points-to and effect analysis.
//
// Inclusion based, insensitive to flow and context, fields merged per type and field name. An object is a
// backing array, a map, a variable or a struct; strings made without copying point to the bytes they show.
// Objects that exist when an exported function is entered are kept apart from those it allocates: the memory
// of its arguments (Param), what their fields hold (Held), and package variables (Global).

type objKind int

const (
	oAlloc objKind = iota
	oParam
	oHeld
	oGlobal
	oFunc
	oUnknown
)

type Obj struct {
	kind   objKind
	name   string
	typ    types.Type // type of what it holds
	fn     *ssa.Function
	param  int
	depth  int
	field  string // Type.field for oHeld
	site   ssa.Instruction
	id     int
	shared bool // reachable from a package variable
}

func (o *Obj) String() string { return o.name }

type ptSet map[*Obj]bool

type ptNode struct {
	name string
	set  ptSet
	out  map[*ptNode]bool
}

type ptWrite struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	dst  *ptNode
	in   ssa.Instruction
	fld  string
}

type PTS struct {
	p      *Program
	nm     names
	fns    map[*ssa.Function]bool
	nodes  map[string]*ptNode
	objs   map[string]*Obj
	vals   map[ssa.Value]*ptNode
	elems  map[*Obj]*ptNode
	writes []ptWrite
	// loads and stores through a pointer whose targets are still growing
	deferred []func() bool
	calls    map[ssa.CallInstruction]map[*ssa.Function]bool
	external map[string][]ssa.CallInstruction
	unknown  []ssa.CallInstruction
	retain   []ptWrite
	userCall map[ssa.CallInstruction]bool
	byField  map[string]map[*ptNode]bool
}

func isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Slice, *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRefType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRefType(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (a *PTS) node(name string) *ptNode {
	n := a.nodes[name]
	if n == nil {
		n = &ptNode{name: name, set: ptSet{}, out: map[*ptNode]bool{}}
		a.nodes[name] = n
	}
	return n
}

func (a *PTS) obj(kind objKind, name string, typ types.Type) *Obj {
	o := a.objs[name]
	if o == nil {
		o = &Obj{kind: kind, name: name, typ: typ, id: len(a.objs)}
		a.objs[name] = o
	}
	return o
}

// elem is what the cells of an object hold.
func (a *PTS) elem(o *Obj) *ptNode {
	n := a.elems[o]
	if n != nil {
		return n
	}
	n = a.node("cell of " + o.name)
	a.elems[o] = n
	if o.kind == oParam || o.kind == oHeld {
		// what the caller put there
		et := elemOf(o.typ)
		if et != nil && isRefType(et) && o.depth < 3 {
			c := a.obj(o.kind, o.name+"[]", et)
			c.fn, c.param, c.depth, c.field = o.fn, o.param, o.depth+1, o.field
			n.set[c] = true
		}
	}
	if o.kind == oGlobal {
		// what initialisation put there
	}
	return n
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

func fieldKey(structType types.Type, field int) string {
	t := structType
	st := t.Underlying().(*types.Struct)
	return typeName(t) + "." + st.Field(field).Name()
}

// fieldOf is what field f of the struct o holds.
func (a *PTS) fieldOf(o *Obj, structType types.Type, f int) *ptNode {
	k := fieldKey(structType, f)
	name := "field " + k + " of " + o.name
	if n, ok := a.nodes[name]; ok {
		return n
	}
	n := a.node(name)
	ft := structType.Underlying().(*types.Struct).Field(f).Type()
	if isRefType(ft) && (o.kind == oParam || o.kind == oHeld) {
		h := a.obj(oHeld, "memory held by "+k, ft)
		h.field = k
		n.set[h] = true
	}
	fk := a.byField[k]
	if fk == nil {
		fk = map[*ptNode]bool{}
		a.byField[k] = fk
	}
	fk[n] = true
	return n
}

// heldIn is what field k of any struct may hold.
func (a *PTS) heldIn(k string) ptSet {
	out := ptSet{}
	for n := range a.byField[k] {
		for o := range n.set {
			out[o] = true
		}
	}
	return out
}

func (a *PTS) loadField(x *ptNode, st types.Type, f int, to *ptNode) {
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(x.set) {
			if a.edge(a.fieldOf(o, st, f), to) {
				ch = true
			}
		}
		return ch
	})
}

func (a *PTS) storeField(x *ptNode, st types.Type, f int, from *ptNode) {
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(x.set) {
			if a.edge(from, a.fieldOf(o, st, f)) {
				ch = true
			}
		}
		return ch
	})
}

// copyStruct: the fields of what from stands for go to what to points to.
func (a *PTS) copyStruct(from, to *ptNode, t types.Type) {
	st := t.Underlying().(*types.Struct)
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(from.set) {
			for _, d := range sortedObjs(to.set) {
				for i := 0; i < st.NumFields(); i++ {
					if isRefType(st.Field(i).Type()) && a.edge(a.fieldOf(o, t, i), a.fieldOf(d, t, i)) {
						ch = true
					}
				}
			}
		}
		return ch
	})
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (a *PTS) val(v ssa.Value) *ptNode {
	if n, ok := a.vals[v]; ok {
		return n
	}
	var n *ptNode
	switch v := v.(type) {
	case *ssa.Global:
		n = a.node("value global " + v.Name())
		o := a.obj(oGlobal, "package variable "+v.Name(), v.Type())
		n.set[o] = true
	case *ssa.Function:
		n = a.node("func " + v.String())
		o := a.obj(oFunc, "func "+v.String(), v.Type())
		o.fn = v
		n.set[o] = true
	case *ssa.Const, *ssa.Builtin:
		n = a.node(fmt.Sprintf("const %p", v))
	default:
		n = a.node(fmt.Sprintf("%s.%s@%p", v.Parent(), v.Name(), v))
	}
	a.vals[v] = n
	return n
}

func (a *PTS) edge(from, to *ptNode) bool {
	if from == to || from.out[to] {
		return false
	}
	from.out[to] = true
	return true
}

func (a *PTS) ret(f *ssa.Function, i int) *ptNode {
	return a.node(fmt.Sprintf("result %d of %s@%p", i, f, f))
}

// newPTS builds and solves the constraints for what runs when the roots are called.
func newPTS(p *Program, roots []*ssa.Function) *PTS {
	a := &PTS{p: p, nm: p.names(), nodes: map[string]*ptNode{}, objs: map[string]*Obj{}, vals: map[ssa.Value]*ptNode{}, elems: map[*Obj]*ptNode{},
		calls: map[ssa.CallInstruction]map[*ssa.Function]bool{}, external: map[string][]ssa.CallInstruction{}, userCall: map[ssa.CallInstruction]bool{}, byField: map[string]map[*ptNode]bool{}}
	for _, f := range roots {
		for i, prm := range f.Params {
			if !isRefType(prm.Type()) {
				continue
			}
			o := a.obj(oParam, "argument "+prm.Name()+" of "+fnName(f), prm.Type())
			o.fn, o.param = f, i
			a.val(prm).set[o] = true
		}
	}
	a.fns = p.mayRun(roots)
	for _, f := range p.Funcs {
		if !a.fns[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.instr(f, in)
			}
		}
	}
	if init := p.SSA.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				a.instr(init, in)
			}
		}
	}
	a.solve()
	a.markShared()
	return a
}

// markShared finds the memory package variables hold, directly or through other memory.
func (a *PTS) markShared() {
	var work []*Obj
	for _, o := range a.objs {
		if o.kind == oGlobal {
			work = append(work, o)
		}
	}
	seen := map[*Obj]bool{}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[o] {
			continue
		}
		seen[o] = true
		if o.kind != oGlobal && o.kind != oFunc {
			o.shared = true
		}
		for h := range a.elem(o).set {
			work = append(work, h)
		}
		pre, post := "field ", " of "+o.name
		for name, n := range a.nodes {
			if strings.HasPrefix(name, pre) && strings.HasSuffix(name, post) {
				for h := range n.set {
					work = append(work, h)
				}
			}
		}
	}
}

// rooted is the analysis of one function called with any arguments.
func (p *Program) rooted(f *ssa.Function) *PTS {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.pts == nil {
		p.pts = map[*ssa.Function]*PTS{}
	}
	if p.pts[f] == nil {
		p.pts[f] = newPTS(p, []*ssa.Function{f})
	}
	return p.pts[f]
}

// mayRun: functions called from the roots or whose value they take, transitively, and what initialisation calls.
func (p *Program) mayRun(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Package() != p.SSA {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	visit(p.SSA.Func("init"))
	return seen
}

func (a *PTS) solve() {
	for {
		changed := false
		for {
			ch := false
			for _, n := range a.nodes {
				for m := range n.out {
					for o := range n.set {
						if !m.set[o] {
							m.set[o] = true
							ch = true
						}
					}
				}
			}
			if !ch {
				break
			}
			changed = true
		}
		for _, d := range a.deferred {
			if d() {
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

// through links n to the cells of everything addr points to.
func (a *PTS) loadFrom(addr, to *ptNode) {
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(addr.set) {
			if a.edge(a.elem(o), to) {
				ch = true
			}
		}
		return ch
	})
}

func (a *PTS) storeTo(addr, from *ptNode) {
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(addr.set) {
			if a.edge(from, a.elem(o)) {
				ch = true
			}
		}
		return ch
	})
}

func sortedObjs(s ptSet) []*Obj {
	out := make([]*Obj, 0, len(s))
	for o := range s {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (a *PTS) alloc(in ssa.Instruction, typ types.Type, what string) *Obj {
	o := a.obj(oAlloc, fmt.Sprintf("%s allocated in %s at %s#%p", what, fnName(in.Parent()), a.p.pos(in.Pos()), in), typ)
	o.site, o.fn = in, in.Parent()
	return o
}

func (a *PTS) write(f *ssa.Function, in ssa.Instruction, dst *ptNode, what, fld string) {
	a.writes = append(a.writes, ptWrite{fn: f, pos: in.Pos(), what: what, dst: dst, in: in, fld: fld})
}

func (a *PTS) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a.val(in).set[a.alloc(in, in.Type().Underlying().(*types.Pointer).Elem(), "variable")] = true
	case *ssa.MakeSlice:
		a.val(in).set[a.alloc(in, in.Type(), "slice")] = true
	case *ssa.MakeMap:
		a.val(in).set[a.alloc(in, in.Type(), "map")] = true
	case *ssa.MakeChan:
		a.val(in).set[a.alloc(in, in.Type(), "channel")] = true
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := a.obj(oFunc, "func "+fn.String(), fn.Type())
		o.fn = fn
		a.val(in).set[o] = true
		for i, b := range in.Bindings {
			a.edge(a.val(b), a.val(fn.FreeVars[i]))
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			a.edge(a.val(e), a.val(in))
		}
	case *ssa.ChangeType:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.ChangeInterface:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.MakeInterface:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.SliceToArrayPointer:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.TypeAssert:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Convert:
		from, to := in.X.Type(), in.Type()
		// string <-> []byte copies; conversions through unsafe.Pointer do not
		_, fs := from.Underlying().(*types.Slice)
		_, ts := to.Underlying().(*types.Slice)
		if (fs && isStringType(to)) || (ts && isStringType(from)) || isIntType(from) && isStringType(to) {
			if ts {
				a.val(in).set[a.alloc(in, to, "copy")] = true
			}
			return
		}
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Slice:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Extract:
		a.edge(a.node(fmt.Sprintf("tuple %d of %s@%p", in.Index, in.Tuple.Name(), in.Tuple)), a.val(in))
	case *ssa.FieldAddr:
		// the address stands for the field, see load and store; keep the struct for aliasing of &x.f
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Field:
		a.loadField(a.val(in.X), in.X.Type(), in.Field, a.val(in))
	case *ssa.IndexAddr:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Index:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			dst := a.val(in)
			if in.CommaOk {
				dst = a.node(fmt.Sprintf("tuple 0 of %s@%p", in.Name(), in))
			}
			a.loadFrom(a.val(in.X), dst)
		}
	case *ssa.Range:
		a.edge(a.val(in.X), a.val(in))
	case *ssa.Next:
		if !in.IsString {
			for i := 1; i <= 2; i++ {
				a.loadFrom(a.val(in.Iter), a.node(fmt.Sprintf("tuple %d of %s@%p", i, in.Name(), in)))
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if isRefType(in.Type()) {
					a.loadField(a.val(fa.X), st, fa.Field, a.val(in))
				}
				return
			}
			if isStruct(in.Type()) {
				a.edge(a.val(in.X), a.val(in)) // the value stands for the struct it was read from
				return
			}
			if isRefType(in.Type()) {
				a.loadFrom(a.val(in.X), a.val(in))
			}
			return
		}
		a.edge(a.val(in.X), a.val(in))
	case *ssa.BinOp:
		if in.Op == token.ADD && isStringType(in.Type()) {
			// concatenation may return one operand when the other is empty
			a.edge(a.val(in.X), a.val(in))
			a.edge(a.val(in.Y), a.val(in))
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			k := fieldKey(st, fa.Field)
			if isRefType(in.Val.Type()) {
				a.storeField(a.val(fa.X), st, fa.Field, a.val(in.Val))
				a.retain = append(a.retain, ptWrite{fn: f, pos: in.Pos(), what: k, dst: a.val(in.Val), in: in, fld: k})
			}
			a.write(f, in, a.val(fa.X), "field "+k, k)
			return
		}
		if isStruct(in.Val.Type()) {
			a.copyStruct(a.val(in.Val), a.val(in.Addr), in.Val.Type())
			a.write(f, in, a.val(in.Addr), "struct "+typeName(in.Val.Type()), typeName(in.Val.Type())+".*")
			return
		}
		if isRefType(in.Val.Type()) {
			a.storeTo(a.val(in.Addr), a.val(in.Val))
		}
		a.write(f, in, a.val(in.Addr), "store", "")
	case *ssa.MapUpdate:
		if isRefType(in.Value.Type()) {
			a.storeTo(a.val(in.Map), a.val(in.Value))
		}
		if isRefType(in.Key.Type()) {
			a.storeTo(a.val(in.Map), a.val(in.Key))
		}
		a.write(f, in, a.val(in.Map), "map update", "")
	case *ssa.Return:
		for i, r := range in.Results {
			a.edge(a.val(r), a.ret(f, i))
		}
	case *ssa.Call, *ssa.Defer, *ssa.Go:
		a.call(f, in.(ssa.CallInstruction))
	case *ssa.Send:
		a.storeTo(a.val(in.Chan), a.val(in.X))
	}
}

func (a *PTS) resultNode(ci ssa.CallInstruction, i, n int) *ptNode {
	v := ci.Value()
	if v == nil {
		return a.node(fmt.Sprintf("dropped result of %p", ci))
	}
	if n == 1 {
		return a.val(v)
	}
	return a.node(fmt.Sprintf("tuple %d of %s@%p", i, v.Name(), v))
}

func (a *PTS) link(ci ssa.CallInstruction, g *ssa.Function, args []ssa.Value) bool {
	m := a.calls[ci]
	if m == nil {
		m = map[*ssa.Function]bool{}
		a.calls[ci] = m
	}
	if m[g] {
		return false
	}
	m[g] = true
	for i, x := range args {
		if i < len(g.Params) && isRefType(g.Params[i].Type()) {
			a.edge(a.val(x), a.val(g.Params[i]))
		}
	}
	n := g.Signature.Results().Len()
	for i := 0; i < n; i++ {
		if isRefType(g.Signature.Results().At(i).Type()) {
			a.edge(a.ret(g, i), a.resultNode(ci, i, n))
		}
	}
	return true
}

func (a *PTS) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(f, ci, b.Name())
		return
	}
	if c.IsInvoke() {
		// error.Error, fmt.Stringer: results of types of other packages
		a.external["invoke "+c.Method.FullName()] = append(a.external["invoke "+c.Method.FullName()], ci)
		return
	}
	if g := c.StaticCallee(); g != nil {
		if g.Package() == a.p.SSA && len(g.Blocks) > 0 {
			a.link(ci, g, c.Args)
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				_ = mc
			}
			return
		}
		a.std(f, ci, g)
		return
	}
	// function value: whatever it may be
	fv := a.val(c.Value)
	a.deferred = append(a.deferred, func() bool {
		ch := false
		for _, o := range sortedObjs(fv.set) {
			switch o.kind {
			case oFunc:
				if o.fn.Package() == a.p.SSA {
					if a.link(ci, o.fn, c.Args) {
						ch = true
					}
				} else if !a.userCall[ci] {
					a.userCall[ci] = true
					ch = true
				}
			case oParam, oHeld, oGlobal:
				if !a.userCall[ci] {
					a.userCall[ci] = true
					ch = true
				}
			}
		}
		return ch
	})
}

func capped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.High != nil && s.Max == s.High {
		return true
	}
	hc, ok1 := s.High.(*ssa.Const)
	mc, ok2 := s.Max.(*ssa.Const)
	if ok1 && ok2 && hc.Value != nil && mc.Value != nil && hc.Int64() == mc.Int64() {
		return true
	}
	// x[:len(x):len(x)]
	hl, ok1 := s.High.(*ssa.Call)
	ml, ok2 := s.Max.(*ssa.Call)
	if ok1 && ok2 {
		hb, o1 := hl.Call.Value.(*ssa.Builtin)
		mb, o2 := ml.Call.Value.(*ssa.Builtin)
		if o1 && o2 && hb.Name() == "len" && mb.Name() == "len" && hl.Call.Args[0] == ml.Call.Args[0] {
			return true
		}
	}
	return false
}

// emptyConst: x[:0:0], nothing of it can be reached again.
func emptyConst(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	c, ok := s.Max.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 0
}

// grows: append with at least one element written out.
func grows(ci ssa.CallInstruction) bool {
	c := ci.Common()
	if len(c.Args) < 2 {
		return false
	}
	s, ok := c.Args[1].(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return ok && at.Len() > 0
}

func (a *PTS) appendLike(f *ssa.Function, ci ssa.CallInstruction, dst ssa.Value, elems ssa.Value, res *ptNode, typ types.Type) {
	full := capped(dst)
	if !full || !grows(ci) && !emptyConst(dst) {
		a.edge(a.val(dst), res)
	}
	o := a.alloc(ci, typ, "slice")
	res.set[o] = true
	if !full {
		a.write(f, ci, a.val(dst), "append", "")
	}
	// elements of the old array and the new ones are in the new array
	et := elemOf(typ)
	if et != nil && isRefType(et) {
		t := a.node(fmt.Sprintf("appended %p", ci))
		a.loadFrom(a.val(dst), t)
		if elems != nil {
			a.loadFrom(a.val(elems), t)
		}
		a.storeTo(res, t)
	}
}

func (a *PTS) builtin(f *ssa.Function, ci ssa.CallInstruction, name string) {
	c := ci.Common()
	switch name {
	case "append":
		var el ssa.Value
		if len(c.Args) > 1 {
			el = c.Args[1]
		}
		a.appendLike(f, ci, c.Args[0], el, a.val(ci.Value()), ci.Value().Type())
	case "copy":
		a.write(f, ci, a.val(c.Args[0]), "copy", "")
		if et := elemOf(c.Args[0].Type()); et != nil && isRefType(et) {
			t := a.node(fmt.Sprintf("copied %p", ci))
			a.loadFrom(a.val(c.Args[1]), t)
			a.storeTo(a.val(c.Args[0]), t)
		}
	case "delete", "clear":
		a.write(f, ci, a.val(c.Args[0]), name, "")
	case "String", "StringData", "SliceData", "Slice", "Add", "ssa:wrapnilchk":
		if ci.Value() != nil {
			a.edge(a.val(c.Args[0]), a.val(ci.Value()))
		}
	case "min", "max":
		for _, x := range c.Args {
			if isRefType(x.Type()) {
				a.edge(a.val(x), a.val(ci.Value()))
			}
		}
	}
}

// stdWrites: functions of the standard library that write to the memory of argument 0.
func stdModel(name string) (writes0, appends0, fresh, known bool) {
	pkg := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg = name[:i]
	}
	base := name[strings.LastIndex(name, ".")+1:]
	switch pkg {
	case "strconv", "unicode/utf8", "utf8":
		if strings.HasPrefix(base, "Append") {
			return false, true, false, true
		}
		if base == "EncodeRune" {
			return true, false, true, true
		}
		return false, false, base == "Quote" || strings.HasPrefix(base, "Format") || base == "Itoa", true
	case "strings":
		return false, false, base == "Clone", true
	case "unicode", "errors", "math", "math/bits", "cmp":
		return false, false, false, true
	case "bytes":
		switch base {
		case "Join", "Clone", "Repeat", "Replace", "ReplaceAll", "ToUpper", "ToLower", "Map", "Title":
			return false, false, true, true
		}
		return false, false, false, true
	case "maps":
		return false, false, false, base == "Keys" || base == "Values" || base == "Equal"
	case "fmt":
		if strings.HasPrefix(base, "Append") {
			return false, true, false, true
		}
		return false, false, true, strings.HasPrefix(base, "Sprint") || base == "Errorf"
	case "sort":
		switch base {
		case "Search", "SearchInts", "SearchStrings", "IsSorted", "SliceIsSorted", "StringsAreSorted", "IntsAreSorted":
			return false, false, true, true
		}
		return true, false, false, true
	case "slices":
		switch base {
		case "Contains", "Index", "IndexFunc", "ContainsFunc", "Equal", "Max", "Min", "BinarySearch", "Clip", "Compare":
			return false, false, false, true
		case "Clone", "Concat":
			return false, false, true, true
		case "Grow":
			return false, false, false, true
		}
		return true, false, false, true
	case "io/ioutil", "os":
		return false, false, true, base == "ReadFile"
	}
	return false, false, false, false
}

func stdName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		g = o
	}
	n := g.RelString(nil)
	return n
}

func (a *PTS) std(f *ssa.Function, ci ssa.CallInstruction, g *ssa.Function) {
	c := ci.Common()
	if g.Name() == "init" && g.Synthetic != "" {
		return // initialisation of an imported package
	}
	name := stdName(g)
	a.external[name] = append(a.external[name], ci)
	n := g.Signature.Results().Len()
	recv := g.Signature.Recv()
	if recv != nil {
		// methods of strings.Builder, bytes.Buffer and the like write to their receiver only
		if _, ok := recv.Type().(*types.Pointer); ok {
			a.write(f, ci, a.val(c.Args[0]), "call of "+name, "")
			rn := typeName(derefType(recv.Type()))
			for _, x := range c.Args[1:] {
				if rn == "Builder" || rn == "Buffer" {
					break // they copy what is written to them
				}
				if isRefType(x.Type()) {
					a.storeTo(a.val(c.Args[0]), a.val(x))
				}
			}
		}
	}
	w0, ap, fresh, known := stdModel(name)
	if recv != nil {
		rn := typeName(derefType(recv.Type()))
		known = rn == "Builder" || rn == "Buffer" || rn == "Reader"
	}
	if !known {
		a.unknown = append(a.unknown, ci)
	}
	if w0 && len(c.Args) > 0 {
		a.write(f, ci, a.val(c.Args[0]), "call of "+name, "")
	}
	if ap {
		a.appendLike(f, ci, c.Args[0], nil, a.resultNode(ci, 0, n), c.Args[0].Type())
		return
	}
	for i := 0; i < n; i++ {
		rt := g.Signature.Results().At(i).Type()
		if !isRefType(rt) {
			continue
		}
		res := a.resultNode(ci, i, n)
		if _, ok := rt.Underlying().(*types.Interface); ok {
			continue // errors made by the library copy the text they quote
		}
		if !isStringType(rt) {
			res.set[a.alloc(ci, rt, "result of "+name)] = true
		}
		if fresh {
			continue
		}
		for _, x := range c.Args {
			if isRefType(x.Type()) {
				a.edge(a.val(x), res)
				if et := elemOf(rt); et != nil && isRefType(et) {
					// strings.Split and the like: elements show parts of the argument
					a.storeTo(res, a.val(x))
				}
				if et := elemOf(x.Type()); et != nil && isRefType(et) {
					a.loadFrom(a.val(x), res)
				}
			}
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// reachableFrom gives the functions that may run when f is called.
func (a *PTS) reachableFrom(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for h := range a.calls[ci] {
						// a function value: only the closures this root can have passed
						if ci.Common().StaticCallee() == nil && h.Parent() != nil && !seen[h.Parent()] {
							continue
						}
						visit(h)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	// twice: closures found late
	visit(f)
	for {
		n := len(seen)
		old := seen
		seen = map[*ssa.Function]bool{}
		parents := old
		var v2 func(g *ssa.Function)
		v2 = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for h := range a.calls[ci] {
							if ci.Common().StaticCallee() == nil && h.Parent() != nil && !parents[h.Parent()] {
								continue
							}
							v2(h)
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						v2(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		v2(f)
		if len(seen) == n {
			return seen
		}
	}
}
