package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace-partitioned value-flow analysis of loop-free code.
//
// Every path of a function is followed over SSA and the value it returns, and leaves in the memory of its
// receiver, is kept as a term over the parameters and over calls to functions that are not expanded
// (functions with loops, recursive functions, functions of other packages). Two functions are the same
// value-flow when every two paths that can be taken together end in the same terms.

// Term is a hash-consed value term: two terms with the same key are the same value.
type Term struct {
	op   string
	aux  string
	args []*Term
	key  string
	typ  types.Type
	// addr: base of the cell
	fn *ssa.Function
}

func mk(op, aux string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	if aux != "" {
		b.WriteString("<" + aux + ">")
	}
	if len(args) > 0 {
		b.WriteString("(")
		for i, a := range args {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.key)
		}
		b.WriteString(")")
	}
	return &Term{op: op, aux: aux, args: args, key: b.String()}
}

var (
	tTrue  = mk("true", "")
	tFalse = mk("false", "")
	tNil   = mk("nil", "")
)

func tInt(n int64) *Term { return mk("int", strconv.FormatInt(n, 10)) }
func tStr(s string) *Term {
	return mk("str", strconv.Quote(s))
}
func (t *Term) str() (string, bool) {
	if t.op == "str" {
		s, err := strconv.Unquote(t.aux)
		return s, err == nil
	}
	return "", false
}
func (t *Term) num() (int64, bool) {
	if t.op == "int" {
		n, err := strconv.ParseInt(t.aux, 10, 64)
		return n, err == nil
	}
	return 0, false
}
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// cat is the concatenation of byte sequences (strings and byte slices are both their contents).
func tCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "cat" {
			for _, q := range p.args {
				out = appendCat(out, q)
			}
		} else {
			out = appendCat(out, p)
		}
	}
	if len(out) == 0 {
		return tStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", out...)
}

func appendCat(out []*Term, p *Term) []*Term {
	s, ok := p.str()
	if ok && s == "" {
		return out
	}
	if p.op == "nil" {
		return out
	}
	if ok && len(out) > 0 {
		if l, ok2 := out[len(out)-1].str(); ok2 {
			out[len(out)-1] = tStr(l + s)
			return out
		}
	}
	return append(out, p)
}

type literal struct {
	t *Term
	v bool
}

// tPath is one path through a function: what was assumed, and what came out.
type tPath struct {
	lits    []literal
	results []*Term
	mem     map[string]*Term // cells reachable from parameters, by address key
	panics  bool
	trace   string
}

type tCell struct {
	addr *Term
	val  *Term
}

type tState struct {
	lits  []literal
	known map[string]bool
	mem   map[string]tCell
	alloc int
}

func (s *tState) clone() *tState {
	n := &tState{lits: append([]literal(nil), s.lits...), known: map[string]bool{}, mem: map[string]tCell{}, alloc: s.alloc}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

func (s *tState) assume(t *Term, v bool) bool {
	if t.op == "true" {
		return v
	}
	if t.op == "false" {
		return !v
	}
	if t.op == "not" {
		return s.assume(t.args[0], !v)
	}
	if k, ok := s.known[t.key]; ok {
		return k == v
	}
	s.known[t.key] = v
	s.lits = append(s.lits, literal{t, v})
	return true
}

// tUndecided stops the analysis of one function: it cannot be brought to terms.
type tUndecided struct{ why string }

type termEval struct {
	p        *Program
	codes    map[string]bool
	opaque   map[*ssa.Function]bool
	paths    int
	maxPaths int
	cur      *ssa.Function // whose instruction is followed
}

func newTermEval(p *Program) *termEval {
	e := &termEval{p: p, opaque: map[*ssa.Function]bool{}, maxPaths: 4000}
	for _, f := range p.Funcs {
		if hasLoop(f) {
			e.opaque[f] = true
		}
	}
	// recursion
	for _, f := range p.Funcs {
		if reaches(f, f, map[*ssa.Function]bool{}) {
			e.opaque[f] = true
		}
	}
	return e
}

func hasLoop(f *ssa.Function) bool {
	state := make([]int, len(f.Blocks))
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 {
				return true
			}
			if state[s.Index] == 0 && dfs(s) {
				return true
			}
		}
		state[b.Index] = 2
		return false
	}
	return len(f.Blocks) > 0 && dfs(f.Blocks[0])
}

func reaches(from, to *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[from] {
		return false
	}
	seen[from] = true
	for _, b := range from.Blocks {
		for _, in := range b.Instrs {
			var ops [10]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if g, ok := (*op).(*ssa.Function); ok && g.Package() == from.Package() {
					if g == to || reaches(g, to, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// closeShared makes calls of the functions that both of the two compared call uninterpreted, and returns them.
func (e *termEval) closeShared(f, g *ssa.Function) (closed []*ssa.Function) {
	for _, h := range e.p.Funcs {
		if h != f && h != g && !e.opaque[h] && h.Parent() == nil && callsFn(f, h) && callsFn(g, h) {
			e.opaque[h] = true
			closed = append(closed, h)
		}
	}
	return closed
}

// closeLarge makes calls of the functions with many paths uninterpreted, apart from the two compared, and returns them.
func (e *termEval) closeLarge(f, g *ssa.Function) (closed []*ssa.Function) {
	for _, h := range e.p.Funcs {
		if h == f || h == g || e.opaque[h] || h.Parent() != nil || len(h.Blocks) < 6 {
			continue
		}
		n := make([]int, len(h.Blocks))
		var count func(b *ssa.BasicBlock) int
		count = func(b *ssa.BasicBlock) int {
			if n[b.Index] == 0 {
				k := 0
				for _, s := range b.Succs {
					if k += count(s); k > 1<<20 {
						k = 1 << 20
					}
				}
				if len(b.Succs) == 0 {
					k = 1
				}
				n[b.Index] = k
			}
			return n[b.Index]
		}
		if count(h.Blocks[0]) > 40 {
			e.opaque[h] = true
			closed = append(closed, h)
		}
	}
	// what such a function is reached through has as many paths
	for ch := true; ch; {
		ch = false
		for _, h := range e.p.Funcs {
			if h == f || h == g || e.opaque[h] || h.Parent() != nil {
				continue
			}
			for _, c := range closed {
				if h.Signature.Recv() == nil && isPureText(h) && callsFn(h, c) {
					e.opaque[h] = true
					closed = append(closed, h)
					ch = true
					break
				}
			}
		}
	}
	return closed
}

// isPureText: from texts to a text, or to yes or no.
func isPureText(h *ssa.Function) bool {
	s := h.Signature
	for i := 0; i < s.Params().Len(); i++ {
		if !isTextT(s.Params().At(i).Type()) {
			return false
		}
	}
	if s.Params().Len() == 0 || s.Results().Len() != 1 {
		return false
	}
	t := s.Results().At(0).Type()
	b, ok := t.Underlying().(*types.Basic)
	return isTextT(t) || ok && b.Info()&types.IsBoolean != 0
}

func callsFn(h, c *ssa.Function) bool {
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok && x.Common().StaticCallee() == c {
				return true
			}
		}
	}
	return false
}

// EvalBoth follows f and g; a function below them that cannot be followed is a call in both.
func (e *termEval) EvalBoth(f, g *ssa.Function, args []*Term) (a, b []*tPath, err, err2 error) {
	var closed []*ssa.Function
	defer func() {
		for _, h := range closed {
			delete(e.opaque, h)
		}
	}()
	for {
		a, err = e.Eval(f, args)
		if err == nil {
			b, err2 = e.Eval(g, args)
		}
		if err == nil && err2 == nil || len(closed) > 20 {
			return
		}
		h := e.cur
		if h == nil || h == f || h == g || e.opaque[h] {
			return
		}
		e.opaque[h] = true
		closed = append(closed, h)
		a, b, err, err2 = nil, nil, nil, nil
	}
}

// Eval follows every path of fn from symbolic parameters.
func (e *termEval) Eval(fn *ssa.Function, args []*Term) (paths []*tPath, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(tUndecided); ok {
				err = fmt.Errorf("%s: %s", fn.Name(), u.why)
				return
			}
			panic(r)
		}
	}()
	e.cur = nil
	if hasLoop(fn) {
		return nil, fmt.Errorf("%s: has a loop", fn.Name())
	}
	e.paths = 0
	st := &tState{known: map[string]bool{}, mem: map[string]tCell{}}
	e.run(fn, args, nil, st, []*ssa.Function{fn}, func(s *tState, res []*Term, panics bool) {
		p := &tPath{lits: s.lits, panics: panics, mem: map[string]*Term{}}
		for _, r := range res {
			p.results = append(p.results, s.simplify(r))
		}
		for k, c := range s.mem {
			if !strings.Contains(c.addr.key, "alloc<") {
				p.mem[k] = s.simplify(c.val)
			}
		}
		// results that point to new memory are described by what they hold
		for i, r := range p.results {
			p.results[i] = s.simplify(e.describe(s, r, 0))
		}
		paths = append(paths, p)
		if len(paths) > e.maxPaths {
			panic(tUndecided{"too many paths"})
		}
	})
	return paths, nil
}

// describe replaces a pointer to a local allocation by its fields.
func (e *termEval) describe(s *tState, t *Term, depth int) *Term {
	if t.op != "alloc" || depth > 3 {
		return t
	}
	var fields []string
	vals := map[string]*Term{}
	for _, c := range s.mem {
		if c.addr.op == "fieldaddr" && c.addr.args[0].key == t.key {
			fields = append(fields, c.addr.aux)
			vals[c.addr.aux] = e.describe(s, s.simplify(c.val), depth+1)
		}
	}
	sort.Strings(fields)
	out := []*Term{}
	for _, f := range fields {
		out = append(out, mk("field", f, vals[f]))
	}
	return mk("new", typeName(t.typ), out...)
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// simplify uses what the path assumed: a value known to be nil is nil, a known condition is a constant.
func (s *tState) simplify(t *Term) *Term {
	if v, ok := s.known[t.key]; ok {
		return tBool(v)
	}
	if t.op == "not" {
		if v, ok := s.known[t.args[0].key]; ok {
			return tBool(!v)
		}
	}
	if v, ok := s.known[mk("isnil", "", t).key]; ok && v {
		return tNil
	}
	return t
}

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]*Term
	free []*Term
}

func (e *termEval) run(fn *ssa.Function, args, free []*Term, st *tState, stack []*ssa.Function, ret func(*tState, []*Term, bool)) {
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	e.block(fn, fn.Blocks[0], nil, 0, env, st, stack, ret)
}

func copyEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *termEval) block(fn *ssa.Function, b, prev *ssa.BasicBlock, from int, env map[ssa.Value]*Term, st *tState, stack []*ssa.Function, ret func(*tState, []*Term, bool)) {
	if from == 0 && prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		vals := map[ssa.Value]*Term{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = e.val(phi.Edges[pi], env)
		}
		for k, v := range vals {
			env[k] = v
		}
	}
	for i := from; i < len(b.Instrs); i++ {
		e.cur = fn
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := st.simplify(e.val(in.Cond, env))
			for k, v := range []bool{true, false} {
				s2 := st.clone()
				if !s2.assume(c, v) {
					continue
				}
				e.block(fn, b.Succs[k], b, 0, copyEnv(env), s2, stack, ret)
			}
			return
		case *ssa.Jump:
			e.block(fn, b.Succs[0], b, 0, env, st, stack, ret)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range in.Results {
				res = append(res, st.simplify(e.val(r, env)))
			}
			e.paths++
			if e.paths > 200000 {
				panic(tUndecided{"too many paths"})
			}
			ret(st, res, false)
			return
		case *ssa.Panic:
			ret(st, nil, true)
			return
		case *ssa.Call:
			idx := i
			e.call(in, env, st, stack, func(s *tState, r *Term) {
				env2 := copyEnv(env)
				env2[in] = r
				e.block(fn, b, prev, idx+1, env2, s, stack, ret)
			})
			return
		case *ssa.Store:
			a := e.val(in.Addr, env)
			st.mem[a.key] = tCell{a, e.val(in.Val, env)}
		case *ssa.RunDefers:
		case ssa.Value:
			env[in] = e.instr(in, env, st)
		default:
			panic(tUndecided{fmt.Sprintf("%T at %s", in, e.p.pos(in.Pos()))})
		}
	}
}

func (e *termEval) val(v ssa.Value, env map[ssa.Value]*Term) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		t := mk("func", v.String())
		t.fn = v
		return t
	case *ssa.Global:
		return mk("global", v.String())
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	}
	if t, ok := env[v]; ok {
		return t
	}
	panic(tUndecided{fmt.Sprintf("value %s", v)})
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch u := c.Type().Underlying().(type) {
		case *types.Struct:
			_ = u
			return mk("zero", typeName(c.Type()))
		}
		return tNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			if isFloatType(c.Type()) {
				return mk("float", c.Value.ExactString())
			}
			return tInt(n)
		}
	}
	return mk("const", c.Value.ExactString())
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *termEval) load(st *tState, a *Term, typ types.Type) *Term {
	if c, ok := st.mem[a.key]; ok {
		return st.simplify(c.val)
	}
	if a.op == "alloc" || (a.op == "fieldaddr" && a.args[0].op == "alloc") || (a.op == "indexaddr" && a.args[0].op == "alloc") {
		return zeroTerm(typ)
	}
	t := mk("load", "", a)
	t.typ = typ
	return st.simplify(t)
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return tStr("")
		}
		if u.Info()&types.IsInteger != 0 {
			return tInt(0)
		}
		return mk("zero", typeName(t))
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return tNil
	}
	return mk("zero", typeName(t))
}

func (e *termEval) instr(in ssa.Value, env map[ssa.Value]*Term, st *tState) *Term {
	switch in := in.(type) {
	case *ssa.Alloc:
		st.alloc++
		t := mk("alloc", strconv.Itoa(st.alloc))
		t.typ = in.Type().Underlying().(*types.Pointer).Elem()
		return t
	case *ssa.FieldAddr:
		x := e.val(in.X, env)
		name := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field).Name()
		return mk("fieldaddr", name, x)
	case *ssa.Field:
		x := e.val(in.X, env)
		name := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
		return st.simplify(mk("field", name, x))
	case *ssa.IndexAddr:
		return mk("indexaddr", "", e.val(in.X, env), e.val(in.Index, env))
	case *ssa.Index:
		return st.simplify(mk("index", "", e.val(in.X, env), e.val(in.Index, env)))
	case *ssa.Lookup:
		return st.simplify(mk("lookup", "", e.val(in.X, env), e.val(in.Index, env)))
	case *ssa.UnOp:
		x := e.val(in.X, env)
		switch in.Op {
		case token.MUL:
			if x.op == "indexaddr" && x.args[0].op != "alloc" {
				// contents of an argument: the same element whichever way it is read
				if _, ok := st.mem[x.key]; !ok {
					return st.simplify(mk("index", "", x.args...))
				}
			}
			return e.load(st, x, in.Type())
		case token.NOT:
			return st.simplify(tNot(x))
		case token.SUB:
			if n, ok := x.num(); ok {
				return tInt(-n)
			}
			return mk("neg", "", x)
		}
		return mk("unop", in.Op.String(), x)
	case *ssa.BinOp:
		return st.simplify(e.binop(in.Op, e.val(in.X, env), e.val(in.Y, env), in.X.Type()))
	case *ssa.Convert:
		return e.convert(e.val(in.X, env), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return e.val(in.X, env)
	case *ssa.ChangeInterface:
		return e.val(in.X, env)
	case *ssa.MakeInterface:
		t := mk("iface", typeName(in.X.Type()), e.val(in.X, env))
		return t
	case *ssa.Extract:
		x := e.val(in.Tuple, env)
		if x.op == "tuple" {
			return st.simplify(x.args[in.Index])
		}
		t := mk("ext", strconv.Itoa(in.Index), x)
		return st.simplify(t)
	case *ssa.Slice:
		return e.slice(in, env, st)
	case *ssa.MakeSlice:
		n := e.val(in.Len, env)
		if k, ok := n.num(); ok && k == 0 {
			return tStr("")
		}
		st.alloc++
		return mk("makeslice", strconv.Itoa(st.alloc), n)
	case *ssa.MakeMap:
		st.alloc++
		return mk("makemap", strconv.Itoa(st.alloc))
	case *ssa.MakeClosure:
		var fv []*Term
		for _, b := range in.Bindings {
			fv = append(fv, e.val(b, env))
		}
		t := mk("closure", in.Fn.String(), fv...)
		t.fn = in.Fn.(*ssa.Function)
		return t
	}
	panic(tUndecided{fmt.Sprintf("%T at %s", in, e.p.pos(in.Pos()))})
}

func (e *termEval) slice(in *ssa.Slice, env map[ssa.Value]*Term, st *tState) *Term {
	x := e.val(in.X, env)
	var lo, hi *Term
	if in.Low != nil {
		lo = e.val(in.Low, env)
	}
	if in.High != nil {
		hi = e.val(in.High, env)
	}
	if x.op == "alloc" && x.typ != nil {
		if arr, ok := x.typ.Underlying().(*types.Array); ok {
			// slice literal: its elements as they are now
			var els []*Term
			for i := int64(0); i < arr.Len(); i++ {
				a := mk("indexaddr", "", x, tInt(i))
				els = append(els, e.load(st, a, arr.Elem()))
			}
			l, h := int64(0), arr.Len()
			ok1, ok2 := true, true
			if lo != nil {
				l, ok1 = lo.num()
			}
			if hi != nil {
				h, ok2 = hi.num()
			}
			if !ok1 || !ok2 || l < 0 || h > arr.Len() || l > h {
				panic(tUndecided{"slice of a local array"})
			}
			els = els[l:h]
			if b, ok := arr.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return bytesOf(els)
			}
			return mk("list", "", els...)
		}
	}
	zero := tInt(0)
	if lo == nil {
		lo = zero
	}
	if hi == nil {
		if lo.key == zero.key {
			return x
		}
		hi = e.lenOf(x)
	}
	if lo.key == zero.key && hi.key == e.lenOf(x).key {
		return x
	}
	if lo.key == hi.key {
		return tStr("")
	}
	return mk("sub", "", x, lo, hi)
}

func bytesOf(els []*Term) *Term {
	var parts []*Term
	for _, b := range els {
		if n, ok := b.num(); ok {
			parts = append(parts, tStr(string([]byte{byte(n)})))
		} else {
			parts = append(parts, mk("byte", "", b))
		}
	}
	return tCat(parts...)
}

func (e *termEval) lenOf(x *Term) *Term {
	if s, ok := x.str(); ok {
		return tInt(int64(len(s)))
	}
	if x.op == "nil" {
		return tInt(0)
	}
	if x.op == "list" {
		return tInt(int64(len(x.args)))
	}
	if x.op == "makeslice" {
		return x.args[0]
	}
	return mk("len", "", x)
}

func tNot(x *Term) *Term {
	switch x.op {
	case "not":
		return x.args[0]
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	return mk("not", "", x)
}

func nonNil(t *Term) bool {
	switch t.op {
	case "err", "alloc", "iface", "func", "closure", "makemap", "cat", "str", "list", "makeslice", "new":
		return true
	}
	return false
}

func (e *termEval) binop(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.NEQ:
		return tNot(e.binop(token.EQL, x, y, typ))
	case token.GTR:
		return e.binop(token.LSS, y, x, typ)
	case token.GEQ:
		return tNot(e.binop(token.LSS, x, y, typ))
	case token.LEQ:
		return tNot(e.binop(token.LSS, y, x, typ))
	case token.EQL:
		if x.key == y.key {
			return tTrue
		}
		a, ok1 := x.num()
		b, ok2 := y.num()
		if ok1 && ok2 {
			return tBool(a == b)
		}
		s, ok3 := x.str()
		u, ok4 := y.str()
		if ok3 && ok4 {
			return tBool(s == u)
		}
		if isStringType(typ) {
			if ok3 && s == "" {
				return e.binop(token.EQL, e.lenOf(y), tInt(0), types.Typ[types.Int])
			}
			if ok4 && u == "" {
				return e.binop(token.EQL, e.lenOf(x), tInt(0), types.Typ[types.Int])
			}
		}
		if x.op == "nil" || y.op == "nil" {
			if x.op == "nil" {
				x = y
			}
			if nonNil(x) {
				return tFalse
			}
			return mk("isnil", "", x)
		}
		if isBoolType(typ) {
			if x.op == "true" {
				return y
			}
			if y.op == "true" {
				return x
			}
			if x.op == "false" {
				return tNot(y)
			}
			if y.op == "false" {
				return tNot(x)
			}
		}
		if x.key > y.key {
			x, y = y, x
		}
		return mk("eq", "", x, y)
	case token.LSS:
		a, ok1 := x.num()
		b, ok2 := y.num()
		if ok1 && ok2 {
			return tBool(a < b)
		}
		// len(x) < 1 is len(x) == 0, 0 < len(x) is not(len(x) == 0)
		if ok2 && b == 1 && x.op == "len" {
			return e.binop(token.EQL, x, tInt(0), typ)
		}
		if ok1 && a == 0 && y.op == "len" {
			return tNot(e.binop(token.EQL, y, tInt(0), typ))
		}
		if ok2 && b <= 0 && x.op == "len" {
			return tFalse
		}
		// x < y+1 is not(y < x)
		if ok1 && isIntType(typ) && a > -1<<40 {
			// a < y  is  not(y < a+1)
			return tNot(mk("lt", "", y, tInt(a+1)))
		}
		return mk("lt", "", x, y)
	case token.ADD:
		if isStringType(typ) {
			return tCat(x, y)
		}
		return linAdd(x, y, 1)
	case token.SUB:
		return linAdd(x, y, -1)
	}
	return mk("bin", op.String(), x, y)
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// linAdd keeps integer sums as a sorted list of terms with coefficients.
func linAdd(x, y *Term, sign int64) *Term {
	coef := map[string]int64{}
	ts := map[string]*Term{}
	var c int64
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if n, ok := t.num(); ok {
			c += n * k
			return
		}
		if t.op == "lin" {
			n, _ := strconv.ParseInt(t.aux[:strings.IndexByte(t.aux, ';')], 10, 64)
			c += n * k
			cs := strings.Split(t.aux[strings.IndexByte(t.aux, ';')+1:], ",")
			for i, a := range t.args {
				q, _ := strconv.ParseInt(cs[i], 10, 64)
				add(a, k*q)
			}
			return
		}
		coef[t.key] += k
		ts[t.key] = t
	}
	add(x, 1)
	add(y, sign)
	var keys []string
	for k, v := range coef {
		if v != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return tInt(c)
	}
	if len(keys) == 1 && c == 0 && coef[keys[0]] == 1 {
		return ts[keys[0]]
	}
	var args []*Term
	var cs []string
	for _, k := range keys {
		args = append(args, ts[k])
		cs = append(cs, strconv.FormatInt(coef[k], 10))
	}
	return mk("lin", strconv.FormatInt(c, 10)+";"+strings.Join(cs, ","), args...)
}

func intBits(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func (e *termEval) convert(x *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		if (fs == ts && tb >= fb) || (!fs && ts && tb > fb) {
			return x // keeps the value
		}
		if _, ok := x.num(); ok {
			return mk("conv", typeName(to), x)
		}
		return mk("conv", typeName(to), x)
	}
	if (isStringType(from) || isByteSlice(from)) && (isStringType(to) || isByteSlice(to)) {
		if x.op == "nil" {
			return tStr("")
		}
		return x // contents
	}
	if isFloatType(from) && isFloatType(to) && types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return mk("conv", typeName(to), x)
}

// call expands calls to loop-free functions of the package; other calls become terms.
func (e *termEval) call(in *ssa.Call, env map[ssa.Value]*Term, st *tState, stack []*ssa.Function, k func(*tState, *Term)) {
	c := in.Call
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(a, env))
	}
	if c.IsInvoke() {
		k(st, mk("invoke", c.Method.Name(), append([]*Term{e.val(c.Value, env)}, args...)...))
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, e.builtin(b.Name(), args, in, st))
		return
	}
	var callee *ssa.Function
	var free []*Term
	callee = c.StaticCallee()
	fv := e.val(c.Value, env)
	if callee == nil && fv.fn != nil {
		callee = fv.fn
	}
	if callee == nil {
		panic(tUndecided{"call of a function value at " + e.p.pos(in.Pos())})
	}
	if fv.op == "closure" {
		free = fv.args
	}
	if callee.Package() == e.p.SSA && len(callee.Blocks) > 0 && !e.opaque[callee] {
		for _, s := range stack {
			if s == callee {
				panic(tUndecided{"recursion"})
			}
		}
		e.run(callee, args, free, st, append(append([]*ssa.Function(nil), stack...), callee), func(s *tState, res []*Term, panics bool) {
			if panics {
				panic(tUndecided{"explicit panic in " + callee.Name()})
			}
			switch len(res) {
			case 0:
				k(s, tNil)
			case 1:
				k(s, res[0])
			default:
				k(s, mk("tuple", "", res...))
			}
		})
		return
	}
	name := callee.String()
	if callee.Package() == nil || callee.Package() != e.p.SSA {
		e.std(callee, name, args, in, st, k)
		return
	}
	if free != nil {
		args = append(args, free...)
	}
	t := mk("call", callee.RelString(e.p.Pkg.Types), args...)
	if e.mayWrite(callee, map[*ssa.Function]bool{}) {
		// what the call does to the memory of its receiver is part of the outcome
		old := st.mem["!effects"].val
		if old == nil {
			old = mk("list", "")
		}
		st.mem["!effects"] = tCell{mk("effects", ""), mk("list", "", append(append([]*Term(nil), old.args...), t)...)}
	}
	k(st, t)
}

// mayWrite tells whether fn can store through a pointer it did not allocate itself.
func (e *termEval) mayWrite(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, local := fa.X.(*ssa.Alloc); !local {
						return true
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Package() == e.p.SSA && e.mayWrite(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (e *termEval) builtin(name string, args []*Term, in *ssa.Call, st *tState) *Term {
	switch name {
	case "len":
		return st.simplify(e.lenOf(args[0]))
	case "append":
		if isByteSlice(in.Type()) {
			return tCat(args...)
		}
		// lists
		l := args[0]
		m := mk("list", "")
		if len(args) > 1 {
			m = args[1]
		}
		if l.op == "nil" || l.op == "str" {
			l = mk("list", "")
		}
		if l.op == "list" && m.op == "list" {
			return mk("list", "", append(append([]*Term(nil), l.args...), m.args...)...)
		}
		if l.op == "list" && len(l.args) == 0 {
			return m
		}
		if m.op == "list" && len(m.args) == 0 {
			return l
		}
		return mk("app", "", l, m)
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(tUndecided{"builtin " + name + " at " + e.p.pos(in.Pos())})
}

// std gives the terms of calls to other packages.
func (e *termEval) std(callee *ssa.Function, name string, args []*Term, in *ssa.Call, st *tState, k func(*tState, *Term)) {
	num := func(i int) (int64, bool) { return args[i].num() }
	switch name {
	case "strconv.Itoa":
		k(st, mk("dec", "", args[0]))
		return
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := num(1); ok && b == 10 {
			k(st, mk("dec", "", args[0]))
			return
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := num(2); ok && b == 10 {
			k(st, tCat(args[0], mk("dec", "", args[1])))
			return
		}
	case "strconv.FormatFloat":
		if args[1].key == tInt('f').key && args[2].key == tInt(-1).key && args[3].key == tInt(64).key {
			k(st, mk("ffloat", "", args[0]))
			return
		}
	case "strconv.AppendFloat":
		if args[2].key == tInt('f').key && args[3].key == tInt(-1).key && args[4].key == tInt(64).key {
			k(st, tCat(args[0], mk("ffloat", "", args[1])))
			return
		}
	case "strconv.FormatBool", "strconv.AppendBool":
		b := args[len(args)-1]
		for _, v := range []bool{true, false} {
			s := st.clone()
			if s.assume(b, v) {
				r := tStr(strconv.FormatBool(v))
				if name == "strconv.AppendBool" {
					r = tCat(args[0], r)
				}
				k(s, r)
			}
		}
		return
	case "strconv.ParseInt":
		if b, ok := num(1); ok && b == 10 {
			if w, ok := num(2); ok && (w == 64 || w == 0) {
				k(st, mk("call", "strconv.Atoi", args[0]))
				return
			}
		}
	case "strconv.Atoi":
		k(st, mk("call", "strconv.Atoi", args[0]))
		return
	case "fmt.Sprint", "fmt.Sprintf":
		l := args[len(args)-1]
		f := "%v"
		if name == "fmt.Sprintf" {
			f, _ = args[0].str()
		}
		if l.op == "list" && len(l.args) == 1 && l.args[0].op == "iface" {
			x := l.args[0].args[0]
			switch l.args[0].aux {
			case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
				if f == "%d" || f == "%v" {
					k(st, mk("dec", "", x))
					return
				}
			case "string":
				if f == "%s" || f == "%v" {
					k(st, x)
					return
				}
			case "bool":
				if f == "%t" || f == "%v" {
					for _, v := range []bool{true, false} {
						s := st.clone()
						if s.assume(x, v) {
							k(s, tStr(strconv.FormatBool(v)))
						}
					}
					return
				}
			}
		}
	case "fmt.Errorf", "errors.New":
		k(st, e.errTerm(args))
		return
	}
	k(st, mk("call", name, args...))
}

// errTerm is an error by its code: the two digits its text ends with.
func (e *termEval) errTerm(args []*Term) *Term {
	ft := args[0]
	if ft.op == "cat" {
		ft = ft.args[len(ft.args)-1] // only the end of the text matters
	}
	f, ok := ft.str()
	if !ok {
		return mk("err", "?", args...)
	}
	if len(args) > 1 && args[1].op == "list" && strings.HasSuffix(f, "%02d") && len(args[1].args) > 0 {
		last := args[1].args[len(args[1].args)-1]
		if last.op == "iface" {
			if n, ok := last.args[0].num(); ok {
				return mk("err", fmt.Sprintf("%02d", n))
			}
		}
		return mk("err", "?", args...)
	}
	if len(args) > 1 && args[1].op == "app" && strings.HasSuffix(f, "%02d") && args[1].args[1].op == "list" {
		l := args[1].args[1].args
		if len(l) > 0 && l[len(l)-1].op == "iface" {
			if n, ok := l[len(l)-1].args[0].num(); ok {
				return mk("err", fmt.Sprintf("%02d", n))
			}
		}
		return mk("err", "?", args...)
	}
	if len(f) >= 2 && f[len(f)-2] >= '0' && f[len(f)-2] <= '9' && f[len(f)-1] >= '0' && f[len(f)-1] <= '9' {
		return mk("err", f[len(f)-2:])
	}
	return mk("err", "?", args...)
}

// tDiff is a pair of paths that can be taken together and end differently.
type tDiff struct {
	when      string
	got, want string
	pos       string
}

func compatible(a, b *tPath) (*tState, bool) {
	s := &tState{known: map[string]bool{}, mem: map[string]tCell{}}
	for _, l := range a.lits {
		if !s.assume(l.t, l.v) {
			return nil, false
		}
	}
	for _, l := range b.lits {
		if !s.assume(l.t, l.v) {
			return nil, false
		}
	}
	if !feasible(s) {
		return nil, false
	}
	return s, true
}

// feasible rules out assumptions that contradict each other: two constants for one term,
// bounds that cross.
func feasible(s *tState) bool {
	eq := map[string]string{}
	lo := map[string]int64{}
	hi := map[string]int64{}
	ne := map[string]map[int64]bool{}
	isc := func(t *Term) bool { return t.op == "int" || t.op == "str" }
	for _, l := range s.lits {
		if l.t.op == "eq" {
			a, b := l.t.args[0], l.t.args[1]
			if isc(b) && !isc(a) {
				a, b = b, a
			}
			if isc(a) && !isc(b) && l.v {
				if o, ok := eq[b.key]; ok && o != a.key {
					return false
				}
				eq[b.key] = a.key
				if n, ok := a.num(); ok {
					if v, ok := lo[b.key]; !ok || n > v {
						lo[b.key] = n
					}
					if v, ok := hi[b.key]; !ok || n < v {
						hi[b.key] = n
					}
				}
			}
			if isc(a) && !isc(b) && !l.v {
				if n, ok := a.num(); ok {
					if ne[b.key] == nil {
						ne[b.key] = map[int64]bool{}
					}
					ne[b.key][n] = true
				}
				if o, ok := eq[b.key]; ok && o == a.key {
					return false
				}
			}
		}
		if l.t.op == "lt" {
			if n, ok := l.t.args[1].num(); ok {
				x := l.t.args[0].key
				if l.v {
					if v, ok := hi[x]; !ok || n-1 < v {
						hi[x] = n - 1
					}
				} else {
					if v, ok := lo[x]; !ok || n > v {
						lo[x] = n
					}
				}
			}
		}
	}
	for k, l := range lo {
		h, ok := hi[k]
		if ok && l > h {
			return false
		}
		if ok && l == h && ne[k][l] {
			return false
		}
	}
	return true
}

func litString(s *tState) string {
	var b []string
	for _, l := range s.lits {
		k := l.t.key
		if len(k) > 90 {
			k = k[:90] + "..."
		}
		if l.v {
			b = append(b, k)
		} else {
			b = append(b, "not "+k)
		}
	}
	if len(b) == 0 {
		return "always"
	}
	return strings.Join(b, " and ")
}

// Same compares two functions given the same arguments.
func samePaths(a, b []*tPath) (pairs int, diffs []tDiff) {
	for _, p := range a {
		for _, q := range b {
			s, ok := compatible(p, q)
			if !ok {
				continue
			}
			pairs++
			if p.panics != q.panics {
				diffs = append(diffs, tDiff{when: litString(s), got: fmt.Sprint("panics: ", p.panics), want: fmt.Sprint("panics: ", q.panics)})
				continue
			}
			bad := len(p.results) != len(q.results)
			got, want := "", ""
			if !bad {
				for i := range p.results {
					x, y := s.resolve(p.results[i]), s.resolve(q.results[i])
					if x.key != y.key {
						bad = true
						got, want = fmt.Sprintf("result %d: %s", i, x.key), fmt.Sprintf("result %d: %s", i, y.key)
						break
					}
				}
			}
			if !bad {
				keys := map[string]bool{}
				for k := range p.mem {
					keys[k] = true
				}
				for k := range q.mem {
					keys[k] = true
				}
				for k := range keys {
					x, y := memAt(p, k, s), memAt(q, k, s)
					if x != y {
						bad = true
						got, want = k+" = "+x, k+" = "+y
						break
					}
				}
			}
			if bad {
				diffs = append(diffs, tDiff{when: litString(s), got: got, want: want})
			}
		}
	}
	return
}

func memAt(p *tPath, k string, s *tState) string {
	if v, ok := p.mem[k]; ok {
		return s.resolve(v).key
	}
	return "load(" + k + ")"
}

// resolve simplifies under the assumptions of both paths, inside the term too.
func (s *tState) resolve(t *Term) *Term {
	u := s.simplify(t)
	if u != t {
		return u
	}
	for _, l := range s.lits {
		if l.v && l.t.op == "eq" {
			a, b := l.t.args[0], l.t.args[1]
			if a.op == "int" || a.op == "str" {
				a, b = b, a
			}
			if (b.op == "int" || b.op == "str") && a.key == t.key {
				return b
			}
		}
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	var args []*Term
	for _, a := range t.args {
		r := s.resolve(a)
		if r != a {
			ch = true
		}
		args = append(args, r)
	}
	if !ch {
		return t
	}
	switch t.op {
	case "cat":
		return tCat(args...)
	case "not":
		return tNot(args[0])
	}
	n := mk(t.op, t.aux, args...)
	n.typ, n.fn = t.typ, t.fn
	return n
}
