package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Demand-driven backward analysis. To show that a condition cannot hold at a point of the program, the
// condition is carried backwards along the SSA graph: through joins by substituting what the join's values are
// on each incoming edge, into called functions by substituting what they return, out of a function to each of
// its callers. At a join the condition is weakened to the constraints that matter, and assumed unreachable for
// the earlier visits of the same join: an inductive invariant. Branch conditions that dominate a point are
// facts there. Every way back has to end in a contradiction.

type bframe struct {
	fn    *ssa.Function
	up    *bframe
	call  *ssa.Call
	id    int
	depth int
}

type atomKey struct {
	kind atomKind
	fr   *bframe
	v    mval
	idx  string
}

type bhyp struct {
	fr   *bframe
	b    *ssa.BasicBlock // nil: entry of fr.fn
	cons []con
}

type back struct {
	p       *Program
	m       *memory
	api     map[*ssa.Function]bool        // functions called from outside with any arguments
	callers map[*ssa.Function][]*ssa.Call // static call sites in code that can run
	taken   map[*ssa.Function]bool        // used as a value
	live    map[*ssa.Function]bool

	atoms      map[atomKey]*atom
	nAtoms     int
	frames     map[atomKey]*bframe
	nFr        int
	facts      map[atomKey][]con
	hyps       []bhyp
	minHyp     int
	proven     map[atomKey][][]con
	failed     map[string]bool
	fuel       int
	depth      int
	wide       bool // also use what is known of the bytes at the positions in question
	wider      bool // also use what is known of values from the same joins
	useClauses bool // also use what was refuted at the joins on the way
	gaveUp     bool // the last proof ran out of budget
	noUp       bool // stay in the function of the obligation and what it calls
	trace      bool
	why        string // last reason for giving up

	ctr             *contracts
	contents        map[*ssa.Call]cbound
	cfacts          map[atomKey][]gcon
	roots           []*ssa.Function
	crew            []*back
	reach           map[*ssa.Function]map[*ssa.Function]bool
	invs            map[string][]inv // struct type name -> invariants of its fields
	elemNN          map[string]bool  // pointer types whose slices hold no nil
	rewrite         map[atomKey]bool
	mutBytes        map[*ssa.Function]bool
	unsatMemo       map[string]bool
	nUnsat, nRefute int
}

func newBack(p *Program, api []*ssa.Function) *back {
	e := &back{p: p, roots: api, cfacts: map[atomKey][]gcon{}, m: newMemory(p), api: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]*ssa.Call{}, taken: map[*ssa.Function]bool{},
		atoms: map[atomKey]*atom{}, frames: map[atomKey]*bframe{}, facts: map[atomKey][]con{}, proven: map[atomKey][][]con{}, failed: map[string]bool{},
		invs: map[string][]inv{}, elemNN: map[string]bool{}, mutBytes: map[*ssa.Function]bool{}, unsatMemo: map[string]bool{}}
	for _, f := range api {
		e.api[f] = true
	}
	e.live = p.mayRun(api)
	for _, f := range p.Funcs {
		if !e.live[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					e.callers[c.Call.StaticCallee()] = append(e.callers[c.Call.StaticCallee()], c)
				}
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, isC := in.(*ssa.Call); isC && i == 0 && ci.Call.Value == *op {
						continue
					}
					e.taken[g] = true
				}
			}
		}
	}
	return e
}

func (e *back) root(fn *ssa.Function) *bframe { return e.frame(fn, nil, nil) }

func (e *back) frame(fn *ssa.Function, up *bframe, c *ssa.Call) *bframe {
	var k atomKey
	if c != nil {
		k = atomKey{fr: up, v: c}
	} else {
		k = atomKey{v: fn}
	}
	if f := e.frames[k]; f != nil {
		return f
	}
	e.nFr++
	f := &bframe{fn: fn, up: up, call: c, id: e.nFr}
	if up != nil {
		f.depth = up.depth + 1
	}
	e.frames[k] = f
	return f
}

func (f *bframe) occurs(fn *ssa.Function) int {
	n := 0
	for x := f; x != nil; x = x.up {
		if x.fn == fn {
			n++
		}
	}
	return n
}

func (e *back) atom(kind atomKind, fr *bframe, v mval) *atom {
	v = e.m.find(v)
	if x, ok := v.(*ssa.Extract); ok {
		// one atom per result
		for _, r := range *x.Tuple.Referrers() {
			if y, ok := r.(*ssa.Extract); ok && y.Index == x.Index {
				v = y
				break
			}
		}
	}
	k := atomKey{kind: kind, fr: fr, v: v}
	if a := e.atoms[k]; a != nil {
		return a
	}
	e.nAtoms++
	a := &atom{id: e.nAtoms, kind: kind, fr: fr, v: v}
	a.name = fmt.Sprintf("%s%s_%d", map[atomKind]string{aVal: "", aLen: "len ", aNN: "nn ", aCap: "cap "}[kind], mname(v), fr.id)
	e.atoms[k] = a
	e.bound(a)
	return a
}

func (a *atom) in(lo, hi int64) { a.lo, a.hi, a.hasLo, a.hasHi = lo, hi, true, true }

func typeOfM(v mval) types.Type {
	switch v := v.(type) {
	case ssa.Value:
		return v.Type()
	case *memPhi:
		return v.cell.typ()
	case *memInit:
		return v.cell.typ()
	case *memHavoc:
		return v.cell.typ()
	case *memZero:
		return v.t
	}
	return nil
}

// bound sets what is known of an atom from its type and definition.
func (e *back) bound(a *atom) {
	switch a.kind {
	case aLen, aCap:
		a.lo, a.hasLo = 0, true
		if x, ok := a.v.(*ssa.Call); ok {
			if n, ok := minLen(x.Call.StaticCallee()); ok {
				a.lo = n
			}
		}
	case aRead:
		a.in(0, 255)
	case aNN:
		a.in(0, 1)
		switch x := a.v.(type) {
		case *ssa.Parameter:
			if a.fr.up == nil {
				f := x.Parent()
				if _, isF := x.Type().Underlying().(*types.Signature); isF {
					a.lo = 1
				} else if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x && e.api[f] {
					a.lo = 1
				}
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if pt, ok := derefType(ia.Type()).Underlying().(*types.Pointer); ok && e.elemNN[pt.String()] {
					a.lo = 1
				}
			}
		case *ssa.FreeVar, *ssa.Global:
			a.lo = 1
		}
	case aVal:
		t := typeOfM(a.v)
		if t == nil {
			return
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Bool, types.UntypedBool:
				a.in(0, 1)
			case types.Uint8:
				a.in(0, 255)
			case types.Int8:
				a.in(-128, 127)
			case types.Uint16:
				a.in(0, 1<<16-1)
			case types.Uint, types.Uint32, types.Uint64, types.Uintptr:
				a.lo, a.hasLo = 0, true
			}
		}
		switch x := a.v.(type) {
		case *ssa.BinOp:
			if c, ok := constInt(x.Y); ok {
				switch x.Op {
				case token.AND:
					if c >= 0 {
						a.in(0, c)
					}
				case token.REM:
					if c > 0 {
						a.in(-(c - 1), c-1)
					}
				}
			}
		case *ssa.Call:
			if lo, ok := minResult(x.Call.StaticCallee()); ok {
				a.lo, a.hasLo = lo, true
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
				a.lo, a.hasLo = 0, true
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
				a.lo, a.hasLo = 0, true
			}
		}
	}
}

// minLen is the least length of the string or slice a library function returns.
func minLen(f *ssa.Function) (int64, bool) {
	if f == nil {
		return 0, false
	}
	switch stdName(f) {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool":
		return 1, true
	case "strconv.Quote":
		return 2, true
	}
	return 0, false
}

func minResult(f *ssa.Function) (int64, bool) {
	if f == nil {
		return 0, false
	}
	n := stdName(f)
	if strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") {
		switch n[strings.IndexByte(n, '.')+1:] {
		case "Index", "IndexByte", "LastIndex", "LastIndexByte", "IndexAny", "IndexRune", "IndexFunc", "LastIndexAny", "LastIndexFunc":
			return -1, true
		case "Count":
			return 0, true
		}
	}
	return 0, false
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	switch c.Value.Kind() {
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		return n, ok
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

func affineInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

func integerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func boolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func argOf(fr *bframe, p *ssa.Parameter) (ssa.Value, bool) {
	if fr.up == nil || p.Parent() != fr.fn {
		return nil, false
	}
	for i, q := range fr.fn.Params {
		if q == p && i < len(fr.call.Call.Args) {
			return fr.call.Call.Args[i], true
		}
	}
	return nil, false
}

// where finds the frame and value a name stands for: a parameter is the caller's argument, a load what it reads.
func (e *back) where(fr *bframe, v mval) (*bframe, mval) {
	for i := 0; i < 50; i++ {
		v = e.m.find(v)
		switch x := v.(type) {
		case *ssa.Parameter:
			a, ok := argOf(fr, x)
			if !ok {
				return fr, v
			}
			fr, v = fr.up, a
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return fr, v
			}
			r := e.m.load(x)
			if r == nil {
				return fr, v
			}
			v = r
		case *memInit:
			// what the caller's cell held before the call
			if fr.up == nil || x.fn != fr.fn {
				return fr, v
			}
			nb, ok := e.upBase(fr, x.cell.base)
			if !ok {
				return fr, v
			}
			c := cellKey{nb, x.cell.st, x.cell.field}
			v = e.m.at(c, fr.call.Block(), indexIn(fr.call))
			fr = fr.up
		default:
			return fr, v
		}
	}
	return fr, v
}

// upBase translates the base of a cell that exists at entry of fr into a value of the caller.
func (e *back) upBase(fr *bframe, b mval) (mval, bool) {
	switch x := b.(type) {
	case *ssa.Parameter:
		a, ok := argOf(fr, x)
		if !ok {
			return nil, false
		}
		return e.m.canon(a), true
	case *memInit:
		f2, v := e.where(fr, x)
		if f2 == fr.up {
			return v, true
		}
	}
	return nil, false
}

// val is an integer or boolean as a linear expression.
func (e *back) val(fr *bframe, v mval) lin {
	fr, v = e.where(fr, v)
	switch x := v.(type) {
	case *memZero:
		return linC(0)
	case *ssa.Const:
		if n, ok := constInt(x); ok {
			return linC(n)
		}
	case *ssa.BinOp:
		if affineInt(x.Type()) {
			switch x.Op {
			case token.ADD:
				return e.val(fr, x.X).add(e.val(fr, x.Y), 1)
			case token.SUB:
				return e.val(fr, x.X).add(e.val(fr, x.Y), -1)
			case token.MUL:
				a, b := e.val(fr, x.X), e.val(fr, x.Y)
				if a.isConst() && a.c > -1000 && a.c < 1000 {
					return b.scale(a.c)
				}
				if b.isConst() && b.c > -1000 && b.c < 1000 {
					return a.scale(b.c)
				}
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return linC(1).add(e.val(fr, x.X), -1)
		case token.SUB:
			if affineInt(x.Type()) {
				return e.val(fr, x.X).scale(-1)
			}
		case token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if r, ok := e.read(fr, ia.X, ia.Index); ok {
					return r
				}
			}
		}
	case *ssa.Index:
		if r, ok := e.read(fr, x.X, x.Index); ok {
			return r
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			if r, ok := e.read(fr, x.X, x.Index); ok {
				return r
			}
		}
	case *ssa.Convert:
		from, ok1 := x.X.Type().Underlying().(*types.Basic)
		to, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 && keeps(from.Kind(), to.Kind()) {
			return e.val(fr, x.X)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				return e.length(fr, x.Call.Args[0])
			}
		}
	}
	return linA(e.atom(aVal, fr, v))
}

// keeps tells whether a conversion between integer types cannot change the value.
func keeps(from, to types.BasicKind) bool {
	size := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.UntypedInt: 64, types.UntypedRune: 32,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64}
	uns := func(k types.BasicKind) bool { return k >= types.Uint && k <= types.Uintptr }
	a, b := size[from], size[to]
	if a == 0 || b == 0 {
		return false
	}
	if uns(from) == uns(to) {
		return a <= b
	}
	return uns(from) && a < b
}

// read is the byte at idx of a string or of a byte slice that nothing writes to.
func (e *back) read(fr *bframe, base, idx ssa.Value) (lin, bool) {
	if !isStringType(base.Type()) && !isByteSlice(base.Type()) {
		return lin{}, false
	}
	return e.readAt(fr, base, e.val(fr, idx))
}

func (e *back) readAt(fr *bframe, base mval, i lin) (lin, bool) {
	for n := 0; n < 20; n++ {
		fr, base = e.where(fr, base)
		switch x := base.(type) {
		case *ssa.Convert:
			base = x.X
			continue
		case *ssa.Slice:
			if _, arr := derefPtr(x.X.Type()).Underlying().(*types.Array); arr {
				return lin{}, false
			}
			if x.Low != nil {
				i = i.add(e.val(fr, x.Low), 1)
			}
			base = x.X
			continue
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String && i.isConst() {
				s := constant.StringVal(x.Value)
				if i.c >= 0 && i.c < int64(len(s)) {
					return linC(int64(s[i.c])), true
				}
			}
			return lin{}, false
		}
		break
	}
	t := typeOfM(base)
	if t == nil {
		return lin{}, false
	}
	switch x := base.(type) {
	case *ssa.Parameter, *ssa.Phi, *memInit, *memPhi:
	case *memHavoc:
	case ssa.Value:
		if !isStringType(t) {
			_ = x
			return lin{}, false
		}
	default:
		return lin{}, false
	}
	if !isStringType(t) && !isByteSlice(t) {
		return lin{}, false
	}
	if !isStringType(t) && e.writesBytes(fr.fn) {
		return lin{}, false
	}
	k := atomKey{kind: aRead, fr: fr, v: base, idx: i.key()}
	if a := e.atoms[k]; a != nil {
		return linA(a), true
	}
	e.nAtoms++
	a := &atom{id: e.nAtoms, kind: aRead, fr: fr, v: base, idx: i, name: fmt.Sprintf("%s_%d[%s]", mname(base), fr.id, i)}
	e.bound(a)
	e.atoms[k] = a
	return linA(a), true
}

// writesBytes: the function stores to elements of byte slices.
func (e *back) writesBytes(f *ssa.Function) bool {
	if r, ok := e.mutBytes[f]; ok {
		return r
	}
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) {
					if _, fresh := ia.X.(*ssa.MakeSlice); !fresh {
						r = true
					}
				}
			case *ssa.Call:
				if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "copy" && isByteSlice(x.Call.Args[0].Type()) {
					d := x.Call.Args[0]
					if s, ok := d.(*ssa.Slice); ok {
						d = s.X
					}
					if _, fresh := d.(*ssa.MakeSlice); !fresh {
						r = true
					}
				}
			}
		}
	}
	e.mutBytes[f] = r
	return r
}

func derefPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// length is the length of a string, slice, array or map.
func (e *back) length(fr *bframe, v mval) lin {
	fr, v = e.where(fr, v)
	switch x := v.(type) {
	case *memZero:
		return linC(0)
	case *ssa.Const:
		if x.Value == nil {
			return linC(0)
		}
		if x.Value.Kind() == constant.String {
			return linC(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.MakeSlice:
		return e.val(fr, x.Len)
	case *ssa.Slice:
		lo := linC(0)
		if x.Low != nil {
			lo = e.val(fr, x.Low)
		}
		if x.High != nil {
			return e.val(fr, x.High).add(lo, -1)
		}
		return e.length(fr, x.X).add(lo, -1)
	case *ssa.Convert:
		ft, tt := x.X.Type(), x.Type()
		if (isStringType(ft) || isByteSlice(ft)) && (isStringType(tt) || isByteSlice(tt)) {
			return e.length(fr, x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			return e.length(fr, x.X).add(e.length(fr, x.Y), 1)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			l := e.length(fr, x.Call.Args[0])
			if len(x.Call.Args) > 1 {
				l = l.add(e.length(fr, x.Call.Args[1]), 1)
			}
			return l
		}
	}
	if t := typeOfM(v); t != nil {
		if at, ok := derefPtr(t).Underlying().(*types.Array); ok {
			return linC(at.Len())
		}
	}
	return linA(e.atom(aLen, fr, v))
}

// nonnil is 1 when v is not nil.
func (e *back) nonnil(fr *bframe, v mval) lin {
	fr, v = e.where(fr, v)
	switch x := v.(type) {
	case *memZero:
		return linC(0)
	case *ssa.Const:
		if x.Value == nil {
			return linC(0)
		}
		return linC(1)
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeInterface, *ssa.Function, *ssa.Global, *ssa.MakeChan:
		return linC(1)
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			return linC(1)
		}
		if _, arr := derefPtr(x.X.Type()).Underlying().(*types.Array); arr {
			return linC(1)
		}
		return e.nonnil(fr, x.X)
	case *ssa.Convert:
		if isByteSlice(x.Type()) {
			return linC(1)
		}
		if unsafePtr(x.Type()) || unsafePtr(x.X.Type()) {
			return e.nonnil(fr, x.X)
		}
	case *memInit:
		// a variable of the enclosing function that is set once
		if fv, ok := x.cell.base.(*ssa.FreeVar); ok && x.cell.st == nil {
			if al := captured(fv); al != nil && e.m.class(al) == 4 {
				switch e.m.canon(e.m.one[al].Val).(type) {
				case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Alloc, *ssa.Function, *ssa.MakeInterface:
					return linC(1)
				}
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			switch stdName(g) {
			case "fmt.Errorf", "errors.New":
				return linC(1)
			}
		}
	}
	return linA(e.atom(aNN, fr, v))
}

func unsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// cond is what a boolean tells when it is truth.
func (e *back) cond(fr *bframe, v ssa.Value, truth bool) []con {
	fr2, mv := e.where(fr, v)
	if w, ok := mv.(ssa.Value); ok {
		switch x := w.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				return e.cond(fr2, x.X, !truth)
			}
		case *ssa.BinOp:
			if cs, ok := e.compare(fr2, x, truth); ok {
				return cs
			}
		}
	}
	t := int64(0)
	if truth {
		t = 1
	}
	return []con{eq(e.val(fr2, mv), linC(t))}
}

func (e *back) compare(fr *bframe, x *ssa.BinOp, truth bool) ([]con, bool) {
	op := x.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, false
	}
	if !truth {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
	}
	t := x.X.Type()
	switch {
	case integerType(t) || boolType(t):
		a, b := e.val(fr, x.X), e.val(fr, x.Y)
		switch op {
		case token.EQL:
			return []con{eq(a, b)}, true
		case token.NEQ:
			return []con{ne(a, b)}, true
		case token.LSS:
			return []con{lt(a, b)}, true
		case token.LEQ:
			return []con{le(a, b)}, true
		case token.GTR:
			return []con{lt(b, a)}, true
		case token.GEQ:
			return []con{le(b, a)}, true
		}
	case isStringType(t):
		for i, c := range []ssa.Value{x.X, x.Y} {
			o := []ssa.Value{x.Y, x.X}[i]
			k, ok := c.(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			s := constant.StringVal(k.Value)
			switch op {
			case token.EQL:
				out := []con{eq(e.length(fr, o), linC(int64(len(s))))}
				for j := 0; j < len(s) && j < 4; j++ {
					if r, ok := e.readAt(fr, o, linC(int64(j))); ok {
						out = append(out, eq(r, linC(int64(s[j]))))
					}
				}
				return append(out, eq(linA(e.atom(aVal, fr, x)), linC(b2i(x.Op == token.EQL)))), true
			case token.NEQ:
				out := []con{eq(linA(e.atom(aVal, fr, x)), linC(b2i(x.Op == token.NEQ)))}
				if s == "" {
					out = append(out, le(linC(1), e.length(fr, o)))
				}
				return out, true
			}
		}
		if op == token.EQL {
			return []con{eq(e.length(fr, x.X), e.length(fr, x.Y)), eq(linA(e.atom(aVal, fr, x)), linC(b2i(x.Op == token.EQL)))}, true
		}
	default:
		for i, c := range []ssa.Value{x.X, x.Y} {
			o := []ssa.Value{x.Y, x.X}[i]
			k, ok := c.(*ssa.Const)
			if !ok || k.Value != nil {
				continue
			}
			switch op {
			case token.EQL:
				return []con{eq(e.nonnil(fr, o), linC(0))}, true
			case token.NEQ:
				return []con{eq(e.nonnil(fr, o), linC(1))}, true
			}
		}
	}
	return nil, false
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// rw applies f to the atoms of the constraints, also inside reads.
func (e *back) rw(cs []con, f func(a *atom) (lin, bool)) []con {
	memo := map[*atom]lin{}
	var ra func(a *atom) lin
	rl := func(l lin) lin {
		ch := false
		for _, t := range l.t {
			r := ra(t.a)
			if !(len(r.t) == 1 && r.c == 0 && r.t[0].a == t.a && r.t[0].k == 1) {
				ch = true
			}
		}
		if !ch {
			return l
		}
		out := linC(l.c)
		for _, t := range l.t {
			out = out.add(ra(t.a), t.k)
		}
		return out
	}
	ra = func(a *atom) lin {
		if r, ok := memo[a]; ok {
			return r
		}
		memo[a] = linA(a)
		r, ok := f(a)
		if !ok {
			r = linA(a)
			if a.kind == aRead {
				if ni := rl(a.idx); ni.key() != a.idx.key() {
					if x, ok := e.readAt(a.fr, a.v, ni); ok {
						r = x
					}
				}
			}
		} else if len(r.t) == 1 && r.c == 0 && r.t[0].k == 1 && r.t[0].a.kind == aRead && r.t[0].a != a {
			// the base was replaced: its index still has to be
			b := r.t[0].a
			if ni := rl(b.idx); ni.key() != b.idx.key() {
				if x, ok := e.readAt(b.fr, b.v, ni); ok {
					r = x
				}
			}
		}
		memo[a] = r
		return r
	}
	out := make([]con, 0, len(cs))
	for _, c := range cs {
		c.l = rl(c.l)
		out = append(out, c)
	}
	return out
}

// byValue replaces the atoms of values m knows by what to gives for them.
func (e *back) byValue(cs []con, is func(fr *bframe, v mval) (*bframe, mval, bool)) []con {
	return e.rw(cs, func(a *atom) (lin, bool) {
		fr, w, ok := is(a.fr, a.v)
		if !ok {
			return lin{}, false
		}
		switch a.kind {
		case aVal:
			return e.val(fr, w), true
		case aLen:
			return e.length(fr, w), true
		case aNN:
			return e.nonnil(fr, w), true
		case aCap:
			return linA(e.atom(aCap, fr, w)), true
		case aRead:
			if r, ok := e.readAt(fr, w, a.idx); ok {
				return r, true
			}
			// unknown content
			e.nAtoms++
			x := &atom{id: e.nAtoms, kind: aVal, fr: a.fr, v: &memZero{}, name: fmt.Sprintf("?%d", e.nAtoms)}
			x.in(0, 255)
			return linA(x), true
		}
		return lin{}, false
	})
}

// expand adds what pinned comparison results and type bounds tell.
func (e *back) expand(cs []con) []con {
	out := append([]con(nil), cs...)
	done := map[*atom]bool{}
	for i := 0; i < len(out) && len(out) < 80; i++ {
		c := out[i]
		if c.op != cEQ || len(c.l.t) != 1 {
			continue
		}
		a := c.l.t[0].a
		if a.kind != aVal || done[a] || c.l.t[0].k*c.l.t[0].k != 1 {
			continue
		}
		x, ok := a.v.(*ssa.BinOp)
		if !ok || !boolType(x.Type()) {
			continue
		}
		done[a] = true
		val := -c.l.c * c.l.t[0].k
		if val != 0 && val != 1 {
			continue
		}
		if cs, ok := e.compare(a.fr, x, val == 1); ok {
			for _, d := range cs {
				d.goal = c.goal
				out = append(out, d)
			}
		}
	}
	return out
}

// unsat tells whether the constraints contradict each other over the integers. false: not known to.
func (e *back) unsat(cs []con) bool {
	k := consKey(cs)
	if r, ok := e.unsatMemo[k]; ok {
		return r
	}
	e.nUnsat++
	r := e.unsat1(e.expand(cs), 4)
	e.unsatMemo[k] = r
	return r
}

func (e *back) unsat1(cs []con, splits int) bool {
	cs = pinned(cs)
	// bytes that are known to be at the same index
	if more := e.congruence(cs); len(more) > 0 {
		cs = append(cs[:len(cs):len(cs)], more...)
	}
	cs, ok := e.solveEqs(cs)
	if !ok {
		return true
	}
	// equal indices give equal bytes
	for round := 0; round < 3; round++ {
		more := e.congruence(cs)
		if len(more) == 0 {
			break
		}
		cs, ok = e.solveEqs(append(cs, more...))
		if !ok {
			return true
		}
	}
	if e.fm(cs) {
		return true
	}
	if splits <= 0 {
		return false
	}
	// disequalities: both sides have to contradict
	n := 0
	for i, c := range cs {
		if c.op != cNE {
			continue
		}
		if n++; n > 6 {
			break
		}
		rest := append(append([]con(nil), cs[:i]...), cs[i+1:]...)
		l := append(append([]con(nil), rest...), con{l: c.l.plus(1), op: cLE})
		h := append(append([]con(nil), rest...), con{l: c.l.scale(-1).plus(1), op: cLE})
		ul, uh := e.fmAll(l), e.fmAll(h)
		switch {
		case ul && uh:
			return true
		case ul:
			return e.unsat1(h, splits-1)
		case uh:
			return e.unsat1(l, splits-1)
		}
	}
	return false
}

// pinned adds the equalities that two opposite bounds amount to.
func pinned(cs []con) []con {
	var at map[string]bool
	for _, c := range cs {
		if c.op == cLE && len(c.l.t) == 2 {
			if at == nil {
				at = map[string]bool{}
			}
			at[c.l.key()] = true
		}
	}
	if len(at) < 2 {
		return cs
	}
	n := len(cs)
	for _, c := range cs[:n:n] {
		if c.op == cLE && len(c.l.t) == 2 && c.l.t[0].k > 0 && at[c.l.scale(-1).key()] {
			cs = append(cs[:len(cs):len(cs)], con{l: c.l, op: cEQ})
		}
	}
	return cs
}

func (e *back) fmAll(cs []con) bool {
	cs, ok := e.solveEqs(cs)
	if !ok {
		return true
	}
	return e.fm(cs)
}

// solveEqs uses the equations with a unit coefficient to eliminate atoms.
func (e *back) solveEqs(cs []con) ([]con, bool) {
	cs, ok := normAll(cs)
	if !ok {
		return nil, false
	}
	for n := 0; n < 200; n++ {
		found := -1
		var a *atom
		for i, c := range cs {
			if c.op == cEQ {
				if a = c.unitAtom(func(x *atom) bool {
					if x.kind == aRead {
						return true
					}
					// its value may not be inside a read it is replaced by
					for _, t := range c.l.t {
						if t.a.kind == aRead && mentions(t.a, x) {
							return false
						}
					}
					return true
				}); a != nil {
					found = i
					break
				}
			}
		}
		if found < 0 {
			return cs, true
		}
		by := cs[found].solveFor(a)
		goal := cs[found].goal
		rest := append(append([]con(nil), cs[:found]...), cs[found+1:]...)
		rest = append(rest, boundsOf(a, by, goal)...)
		cs, ok = normAll(e.substAtom(rest, a, by, goal))
		if !ok {
			return nil, false
		}
	}
	return cs, true
}

func mentions(r *atom, x *atom) bool {
	for _, t := range r.idx.t {
		if t.a == x || t.a.kind == aRead && mentions(t.a, x) {
			return true
		}
	}
	return false
}

func boundsOf(a *atom, by lin, goal bool) []con {
	var out []con
	if a.hasLo {
		out = append(out, con{l: linC(a.lo).add(by, -1), op: cLE, goal: goal})
	}
	if a.hasHi {
		out = append(out, con{l: by.plus(-a.hi), op: cLE, goal: goal})
	}
	return out
}

// substAtom replaces a, also inside reads.
func (e *back) substAtom(cs []con, a *atom, by lin, goal bool) []con {
	out := make([]con, 0, len(cs))
	for _, c := range cs {
		l := c.l
		ch := false
		if k := l.coef(a); k != 0 {
			l = l.subst(a, by)
			ch = true
		}
		for _, t := range l.t {
			if t.a.kind == aRead && mentions(t.a, a) {
				n := e.rw([]con{{l: l, op: c.op, goal: c.goal}}, func(x *atom) (lin, bool) {
					if x == a {
						return by, true
					}
					return lin{}, false
				})
				l = n[0].l
				ch = true
				break
			}
		}
		if ch {
			c.l = l
			c.goal = c.goal || goal
		}
		out = append(out, c)
	}
	return out
}

func (e *back) congruence(cs []con) []con {
	var reads []*atom
	for _, a := range atomsOf(cs, false) {
		if a.kind == aRead {
			reads = append(reads, a)
		}
	}
	var out, ctx []con
	for i := range reads {
		for j := i + 1; j < len(reads) && len(out) < 6; j++ {
			x, y := reads[i], reads[j]
			if x.fr != y.fr || x.v != y.v {
				continue
			}
			d := x.idx.add(y.idx, -1)
			same := d.isConst() && d.c == 0
			if !same && !d.isConst() {
				if ctx == nil {
					for _, c := range cs {
						if c.op == cNE {
							continue
						}
						ctx = append(ctx, con{l: c.l, op: cLE})
						if c.op == cEQ {
							ctx = append(ctx, con{l: c.l.scale(-1), op: cLE})
						}
					}
				}
				same = e.fm(append(append([]con(nil), ctx...), con{l: d.plus(1), op: cLE})) && e.fm(append(append([]con(nil), ctx...), con{l: d.scale(-1).plus(1), op: cLE}))
			}
			if same {
				out = append(out, eq(linA(x), linA(y)))
			}
		}
	}
	return out
}

// fm: Fourier-Motzkin over the inequalities, with the bounds of the atoms.
func (e *back) fm(cs []con) bool {
	work := make([]con, 0, len(cs)+8)
	for _, c := range cs {
		if c.op != cNE {
			work = append(work, c)
		}
	}
	for _, a := range atomsOf(work, false) {
		work = append(work, boundsOf(a, linA(a), false)...)
	}
	work, ok := normAll(work)
	if !ok {
		return true
	}
	for {
		as := atomsOf(work, false)
		if len(as) == 0 {
			return false
		}
		var best *atom
		cost := 1 << 30
		for _, a := range as {
			lo, hi := 0, 0
			for _, c := range work {
				k := c.l.coef(a)
				if k == 0 {
					continue
				}
				if c.op == cEQ {
					lo++
					hi++
				} else if k > 0 {
					hi++
				} else {
					lo++
				}
			}
			if x := lo*hi - lo - hi; x < cost {
				cost, best = x, a
			}
		}
		work, ok = fmStep(work, best)
		if !ok {
			return true
		}
	}
}

// project keeps what the constraints say about the atoms that are available.
func (e *back) project(cs []con, keep func(a *atom) bool) ([]con, bool) {
	ok1 := func(a *atom) bool {
		if !keep(a) {
			return false
		}
		if a.kind == aRead {
			for _, t := range a.idx.t {
				if !keep(t.a) {
					return false
				}
			}
		}
		return true
	}
	cs, ok := normAll(e.expand(cs))
	if !ok {
		return nil, false
	}
	// equations first: their values also replace indices of reads
	for n := 0; n < 100; n++ {
		found := -1
		var a *atom
		for i, c := range cs {
			if c.op != cEQ {
				continue
			}
			a = c.unitAtom(func(x *atom) bool {
				if x.kind == aRead && ok1(x) || x.kind != aRead && keep(x) {
					return false
				}
				for _, t := range c.l.t {
					if t.a != x && t.a.kind == aRead && mentions(t.a, x) {
						return false
					}
				}
				return true
			})
			if a != nil {
				found = i
				break
			}
		}
		if found < 0 {
			break
		}
		by := cs[found].solveFor(a)
		goal := cs[found].goal
		rest := append(append([]con(nil), cs[:found]...), cs[found+1:]...)
		rest = append(rest, boundsOf(a, by, goal)...)
		if cs, ok = normAll(e.substAtom(rest, a, by, goal)); !ok {
			return nil, false
		}
	}
	for n := 0; n < 60; n++ {
		var best *atom
		cost := 1 << 30
		for _, a := range atomsOf(cs, false) {
			if ok1(a) {
				continue
			}
			lo, hi := 0, 0
			for _, c := range cs {
				if k := c.l.coef(a); k > 0 && c.op == cLE {
					hi++
				} else if k < 0 && c.op == cLE {
					lo++
				} else if k != 0 && c.op == cEQ {
					lo++
					hi++
				}
			}
			if x := lo*hi - lo - hi; x < cost {
				cost, best = x, a
			}
		}
		if best == nil {
			break
		}
		// what its type says counts
		withB := append(append([]con(nil), cs...), boundsOf(best, linA(best), false)...)
		// a disequality next to an inequality sharpens it
		withB = sharpen(withB, best)
		if cs, ok = fmStep(withB, best); !ok {
			return nil, false
		}
	}
	out := cs[:0:0]
	for _, c := range cs {
		good := true
		for _, t := range c.l.t {
			if !ok1(t.a) {
				good = false
			}
		}
		if good {
			out = append(out, c)
		}
	}
	return out, true
}

// sharpen: l <= 0 and l != 0 give l+1 <= 0.
func sharpen(cs []con, a *atom) []con {
	out := append([]con(nil), cs...)
	for _, n := range cs {
		if n.op != cNE || n.l.coef(a) == 0 {
			continue
		}
		for i, c := range out {
			if c.op != cLE {
				continue
			}
			if d := c.l.add(n.l, -1); d.isConst() && d.c == 0 {
				out[i].l = c.l.plus(1)
				out[i].goal = c.goal || n.goal
			} else if d := c.l.add(n.l, 1); d.isConst() && d.c == 0 {
				out[i].l = c.l.plus(1)
				out[i].goal = c.goal || n.goal
			}
		}
	}
	return out
}
