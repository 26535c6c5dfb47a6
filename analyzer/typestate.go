package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typestate over the paths of an edit method: what was written to the receiver, and what is known of each error.
//
// Helpers that may write are expanded, everything else is a call that leaves its error unknown until a branch
// tells. A path is a sequence of these events; values are followed through parameters, results and phis.

type tsFrame struct {
	fn    *ssa.Function
	args  []rval
	up    *tsFrame
	call  *ssa.Call
	depth int
	id    int
}

type rval struct {
	fr *tsFrame
	v  ssa.Value
}

type tsState struct {
	nil_   map[rval]errState // known nilness
	env    map[rval]rval     // phis, results of expanded calls
	tuples map[rval][]rval
	wrote  map[string]bool // fields of the receiver's state written for certain on this path
	cond   map[rval]bool   // calls whose document was stored: a write only when they succeed
	errs   map[rval]string // error results of calls made on this path
	stored map[string]rval // last value stored in a field
}

func (s *tsState) clone() *tsState {
	n := &tsState{map[rval]errState{}, map[rval]rval{}, map[rval][]rval{}, map[string]bool{}, map[rval]bool{}, map[rval]string{}, map[string]rval{}}
	for k, v := range s.nil_ {
		n.nil_[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.tuples {
		n.tuples[k] = v
	}
	for k, v := range s.wrote {
		n.wrote[k] = v
	}
	for k, v := range s.cond {
		n.cond[k] = v
	}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	for k, v := range s.stored {
		n.stored[k] = v
	}
	return n
}

func (s *tsState) key() string {
	var l []string
	for k, v := range s.nil_ {
		l = append(l, fmt.Sprintf("n%d.%p=%d", k.fr.id, k.v, v))
	}
	for k, v := range s.env {
		l = append(l, fmt.Sprintf("e%d.%p=%d.%p", k.fr.id, k.v, v.fr.id, v.v))
	}
	for k := range s.wrote {
		l = append(l, "w"+k)
	}
	for k := range s.cond {
		l = append(l, fmt.Sprintf("c%d.%p", k.fr.id, k.v))
	}
	for k := range s.errs {
		l = append(l, fmt.Sprintf("x%d.%p", k.fr.id, k.v))
	}
	for k, v := range s.stored {
		l = append(l, fmt.Sprintf("s%s=%d.%p", k, v.fr.id, v.v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type tsReturn struct {
	st   *tsState
	vals []rval
	pos  token.Pos
	fn   *ssa.Function
}

type typestate struct {
	p     *Program
	steps int
	fail  string
	wr    map[ssa.Instruction]*ptWrite
	eff   map[*ssa.Function]bool
}

func newTypestate(p *Program) *typestate {
	return &typestate{p: p, wr: map[ssa.Instruction]*ptWrite{}, eff: map[*ssa.Function]bool{}}
}

func outside(o *Obj) bool {
	return o.kind == oParam || o.kind == oHeld || o.kind == oGlobal || sharedSite(o)
}

// effect: g, called with any arguments, may write to memory it did not allocate.
func (ts *typestate) effect(g *ssa.Function) bool {
	if e, ok := ts.eff[g]; ok {
		return e
	}
	a := ts.p.rooted(g)
	live := a.reachableFrom(g)
	e := false
	for _, w := range a.writes {
		if live[w.fn] {
			for o := range w.dst.set {
				e = e || outside(o)
			}
		}
	}
	ts.eff[g] = e
	return e
}

// writeOf: the write in, if it may reach memory that existed when the method was called.
func (ts *typestate) writeOf(s *tsState, fr *tsFrame, in ssa.Instruction) *ptWrite {
	w, ok := ts.wr[in]
	if !ok {
		a := ts.p.rooted(fr.fn)
		for i := range a.writes {
			if a.writes[i].in == in {
				w = &a.writes[i]
			}
		}
		ts.wr[in] = w
	}
	if w == nil {
		return nil
	}
	hit := false
	for o := range w.dst.set {
		hit = hit || outside(o)
	}
	if !hit {
		return nil
	}
	var addr ssa.Value
	switch in := in.(type) {
	case *ssa.Store:
		addr = in.Addr
	case *ssa.MapUpdate:
		addr = in.Map
	case *ssa.Call:
		if len(in.Call.Args) > 0 {
			addr = in.Call.Args[0]
		}
	}
	if addr != nil && ts.fresh(s, rval{fr, addr}) {
		return nil
	}
	return w
}

// fresh: the address lies in memory made since the method was called.
func (ts *typestate) fresh(s *tsState, r rval) bool {
	for i := 0; i < 50; i++ {
		r = ts.resolve(s, r)
		switch v := r.v.(type) {
		case *ssa.FieldAddr:
			r = rval{r.fr, v.X}
		case *ssa.IndexAddr:
			r = rval{r.fr, v.X}
		case *ssa.Slice:
			r = rval{r.fr, v.X}
		case *ssa.ChangeType:
			r = rval{r.fr, v.X}
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.Extract:
			c, ok := v.Tuple.(*ssa.Call)
			return ok && ts.freshResult(c, v.Index)
		case *ssa.Call:
			return ts.freshResult(v, 0)
		default:
			return false
		}
	}
	return false
}

// freshResult: the callee, whatever it is given, returns memory it made.
func (ts *typestate) freshResult(c *ssa.Call, i int) bool {
	g := c.Call.StaticCallee()
	if g == nil || g.Package() != ts.p.SSA || len(g.Blocks) == 0 {
		return false
	}
	n := ts.p.rooted(g).ret(g, i)
	for o := range n.set {
		if outside(o) {
			return false
		}
	}
	return true
}

func (ts *typestate) resolve(s *tsState, r rval) rval {
	for i := 0; i < 100; i++ {
		if e, ok := s.env[r]; ok {
			r = e
			continue
		}
		switch v := r.v.(type) {
		case *ssa.Parameter:
			if r.fr.up == nil {
				return r
			}
			for i, q := range r.fr.fn.Params {
				if q == v {
					r = r.fr.args[i]
				}
			}
			continue
		case *ssa.Extract:
			if t, ok := s.tuples[rval{r.fr, v.Tuple}]; ok {
				r = t[v.Index]
				continue
			}
		case *ssa.Call:
			if t, ok := s.tuples[r]; ok && len(t) == 1 {
				r = t[0]
				continue
			}
		case *ssa.ChangeInterface:
			r = rval{r.fr, v.X}
			continue
		}
		return r
	}
	return r
}

func (ts *typestate) nilness(s *tsState, r rval) errState {
	r = ts.resolve(s, r)
	if k, ok := s.nil_[r]; ok {
		return k
	}
	return (&PTS{p: ts.p}).errValue(r.v, 0)
}

// assume refines s with cond == truth; false when that cannot be.
func (ts *typestate) assume(s *tsState, fr *tsFrame, c ssa.Value, truth bool) bool {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return ts.assume(s, fr, c.X, !truth)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return true
		}
		x, y := c.X, c.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); !ok || !k.IsNil() || !isErrorType(x.Type()) {
			return true
		}
		want := errSet
		if (c.Op == token.EQL) == truth {
			want = errNil
		}
		r := ts.resolve(s, rval{fr, x})
		switch ts.nilness(s, r) {
		case errUnknown:
			s.nil_[r] = want
		default:
			return ts.nilness(s, r) == want
		}
	case *ssa.Call:
		if g := c.Call.StaticCallee(); g != nil && g.Name() == "ErrEqual" && truth {
			r := ts.resolve(s, rval{fr, c.Call.Args[0]})
			switch ts.nilness(s, r) {
			case errNil:
				return false
			case errUnknown:
				s.nil_[r] = errSet
			}
		}
	case *ssa.Const:
		return c.Value == nil || (c.Value.String() == "true") == truth
	}
	return true
}

func (ts *typestate) run(f *ssa.Function) []tsReturn {
	fr := &tsFrame{fn: f}
	ts.steps, ts.fail = 0, ""
	s := (&tsState{}).clone()
	return ts.explore(fr, s)
}

func (ts *typestate) explore(fr *tsFrame, s0 *tsState) []tsReturn {
	type item struct {
		b    *ssa.BasicBlock
		from int
		s    *tsState
	}
	var out []tsReturn
	seen := map[string]bool{}
	work := []item{{fr.fn.Blocks[0], -1, s0}}
	push := func(b *ssa.BasicBlock, from *ssa.BasicBlock, s *tsState) {
		for i, p := range b.Preds {
			if p == from {
				n := s.clone()
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if isErrorType(ph.Type()) || isRefType(ph.Type()) && !isStringType(ph.Type()) {
						n.env[rval{fr, ph}] = ts.resolve(s, rval{fr, ph.Edges[i]})
					}
				}
				work = append(work, item{b, i, n})
				return
			}
		}
	}
	for len(work) > 0 && ts.fail == "" {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.s.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		ts.steps++
		if ts.steps > 20000 {
			ts.fail = "too many paths"
			return out
		}
		states := []*tsState{it.s}
		for _, in := range it.b.Instrs {
			var next []*tsState
			for _, s := range states {
				next = append(next, ts.step(fr, s, in)...)
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
		for _, s := range states {
			switch last := it.b.Instrs[len(it.b.Instrs)-1].(type) {
			case *ssa.Return:
				r := tsReturn{st: s, pos: last.Pos(), fn: fr.fn}
				for _, v := range last.Results {
					r.vals = append(r.vals, ts.resolve(s, rval{fr, v}))
				}
				out = append(out, r)
			case *ssa.Jump:
				push(it.b.Succs[0], it.b, s)
			case *ssa.If:
				for i, truth := range []bool{true, false} {
					n := s.clone()
					if ts.assume(n, fr, last.Cond, truth) {
						push(it.b.Succs[i], it.b, n)
					}
				}
			}
		}
	}
	return out
}

func (ts *typestate) step(fr *tsFrame, s *tsState, in ssa.Instruction) []*tsState {
	if w := ts.writeOf(s, fr, in); w != nil {
		what := w.fld
		if what == "" {
			what = w.what
			for _, o := range sortedObjs(w.dst.set) {
				if o.field != "" {
					what = "elements of " + o.field
				}
			}
		}
		n := s.clone()
		if st, ok := in.(*ssa.Store); ok {
			r := ts.resolve(s, rval{fr, st.Val})
			n.stored[what] = r
			if ex, ok := r.v.(*ssa.Extract); ok && ex.Index == 0 && isBytes(ex.Type()) {
				if c, ok := ex.Tuple.(*ssa.Call); ok && ts.editCallOn(s, rval{r.fr, c}, what) {
					n.cond[rval{r.fr, c}] = true
					return []*tsState{n}
				}
			}
		}
		n.wrote[what] = true
		return []*tsState{n}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return []*tsState{s}
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Package() != ts.p.SSA || len(g.Blocks) == 0 {
		return []*tsState{s}
	}
	if ts.effect(g) && fr.depth < 8 {
		sub := &tsFrame{fn: g, up: fr, call: c, depth: fr.depth + 1}
		sub.id = frameID(fr, c)
		for _, x := range c.Call.Args {
			sub.args = append(sub.args, ts.resolve(s, rval{fr, x}))
		}
		var out []*tsState
		for _, r := range ts.explore(sub, s) {
			n := r.st.clone()
			n.tuples[rval{fr, c}] = r.vals
			// what the tsFrame knew is not needed any more, except for values it returned
			out = append(out, n)
		}
		return out
	}
	// an opaque call
	res := g.Signature.Results()
	s = ts.again(fr, s, c)
	if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) && res.Len() > 1 {
		n := s.clone()
		n.errs[rval{fr, c}] = fnName(g)
		return []*tsState{n}
	}
	return []*tsState{s}
}

// the frames of values that a call made the last time it was executed, by what was known of them
var earlier = map[errState]*tsFrame{errNil: {id: -1}, errSet: {id: -2}, errUnknown: {id: -3}}

// again: the call is executed (in a loop, once more): what was known of its error is known of the earlier one only.
func (ts *typestate) again(fr *tsFrame, s *tsState, c *ssa.Call) *tsState {
	vals := []ssa.Value{}
	if isErrorType(c.Type()) {
		vals = append(vals, c)
	}
	for _, ref := range *c.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && isErrorType(ex.Type()) {
			vals = append(vals, ex)
		}
	}
	_, seen := s.errs[rval{fr, c}]
	for _, v := range vals {
		_, known := s.nil_[rval{fr, v}]
		seen = seen || known
	}
	if !seen {
		return s
	}
	n := s.clone()
	for _, v := range vals {
		now := rval{fr, v}
		st := ts.nilness(s, now)
		was := rval{earlier[st], v}
		if st != errUnknown {
			n.nil_[was] = st
		}
		for k, e := range n.env {
			if e == now {
				n.env[k] = was
			}
		}
		delete(n.nil_, now)
		if name, ok := n.errs[rval{fr, c}]; ok && st != errNil {
			n.errs[rval{earlier[st], c}] = name
		}
	}
	return n
}

var frameIDs = map[string]int{}

func frameID(up *tsFrame, c *ssa.Call) int {
	k := fmt.Sprintf("%d|%p", up.id, c)
	if id, ok := frameIDs[k]; ok {
		return id
	}
	frameIDs[k] = len(frameIDs) + 1
	return frameIDs[k]
}

// editCallOn: the call is an edit of the document held in field what.
func (ts *typestate) editCallOn(s *tsState, c rval, what string) bool {
	call := c.v.(*ssa.Call)
	g := call.Call.StaticCallee()
	if g == nil || g.Package() != ts.p.SSA {
		return false
	}
	res := g.Signature.Results()
	if res.Len() != 2 || !isBytes(res.At(0).Type()) || !isErrorType(res.At(1).Type()) {
		return false
	}
	di := docParam(g)
	if di < 0 {
		return false
	}
	d := ts.resolve(s, rval{c.fr, call.Call.Args[di]})
	u, ok := d.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == what
}

// errOfCall is the nilness of the error of an opaque call.
func (ts *typestate) errOfCall(s *tsState, c rval) errState {
	call := c.v.(*ssa.Call)
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && isErrorType(ex.Type()) {
			return ts.nilness(s, rval{c.fr, ex})
		}
	}
	return errUnknown
}

func (ts *typestate) errValueOfCall(c rval) (rval, bool) {
	call := c.v.(*ssa.Call)
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && isErrorType(ex.Type()) {
			return rval{c.fr, ex}, true
		}
	}
	return rval{}, false
}

func keysOf(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// checkObjectEdits: C10 for the object that holds its document.
func checkObjectEdits(p *Program, r *Report) {
	ts := newTypestate(p)
	// the functions whose document is stored have to keep the contract themselves
	seen := map[*ssa.Function]bool{}
	for _, f := range p.exported() {
		if recvName(f) != "JO" || !mutator(f) {
			continue
		}
		where := p.pos(f.Pos()) + " " + fnName(f)
		rets := ts.run(f)
		if ts.fail != "" {
			r.add("failed-object-edit-changes-nothing", fnName(f), where, false, "undecided: "+ts.fail)
			continue
		}
		bad := ""
		for _, ret := range rets {
			e := ret.vals[len(ret.vals)-1]
			st := ts.nilness(ret.st, e)
			if st != errNil && len(ret.st.wrote) > 0 {
				bad = "returns with an error after writing " + keysOf(ret.st.wrote) + " (" + p.pos(ret.pos) + ")"
			}
			for c := range ret.st.cond {
				g := c.v.(*ssa.Call).Call.StaticCallee()
				ev, ok := ts.errValueOfCall(c)
				if st != errNil && !(ok && ts.resolve(ret.st, ev) == e) && ts.errOfCall(ret.st, c) != errSet {
					bad = "returns another error than the edit whose document it stored, " + fnName(g)
				}
				if st == errNil && ts.errOfCall(ret.st, c) != errNil {
					bad = "drops the error of " + fnName(g)
				}
				p.rooted(f).editReturns(g, seen, func(h *ssa.Function, o outcome, st errState, deleg *ssa.Function, ok bool) {
					if deleg != nil && !ok {
						bad = fnName(h) + " hands another document to " + fnName(deleg)
					}
					if deleg == nil && st != errNil && o.doc != h.Params[docParam(h)] {
						bad = fnName(h) + " does not return the document with its error"
					}
				})
			}
		}
		r.add("failed-object-edit-changes-nothing", fnName(f), where, bad == "", bad+noteIf(bad == "", fmt.Sprintf("%d paths", len(rets))))
	}
	r.floor("failed-object-edit-changes-nothing", 20)
}

func init() { checks["C11"] = checkParserEdits }

func checkParserEdits(p *Program, r *Report) {
	r.Expl = "Typestate over every path of every Parser edit method, helpers that write expanded. A write to the Parser, its text or a node of its tree is followed by no return with an error. A return without error is preceded by: no call whose error was not looked at or was set; the text replaced by the result of the interpreter edit of the same kind applied to the text; a change of the tree."
	nm := p.names()
	ts := newTypestate(p)
	npaths := 0
	for _, f := range p.exported() {
		if recvName(f) != "Parser" || !mutator(f) {
			continue
		}
		where := p.pos(f.Pos()) + " " + fnName(f)
		rets := ts.run(f)
		npaths += len(rets)
		if ts.fail != "" || len(rets) == 0 {
			r.add("failed-edit-writes-nothing", fnName(f), where, false, "undecided: "+ts.fail)
			continue
		}
		bad, drop, step, notEdit := "", "", "", ""
		succ := 0
		for _, ret := range rets {
			e := ret.vals[len(ret.vals)-1]
			st := ts.nilness(ret.st, e)
			if st != errNil {
				if len(ret.st.wrote)+len(ret.st.cond) > 0 {
					bad = "returns with an error after writing " + keysOf(ret.st.wrote)
				}
				continue
			}
			succ++
			for c, n := range ret.st.errs {
				if ts.errOfCall(ret.st, c) != errNil {
					drop = "returns without error although that of " + n + " was not nil or not looked at"
				}
			}
			if !ret.st.wrote[nm.json] && len(ret.st.cond) == 0 {
				step = "returns without error and the text was not replaced"
			}
			if !ret.st.wrote[nm.dn] && !ret.st.wrote[nm.label] && !ret.st.wrote["elements of "+nm.dn] {
				step = "returns without error and no node was added, removed or renamed"
			}
			if v, ok := ret.st.stored[nm.json]; ok {
				if !interpreterEdit(ts, ret.st, v, f, nm) {
					notEdit = "the text stored is not the result of the interpreter edit of the same kind on the Parser's text"
				}
			}
		}
		if succ == 0 {
			step = "no path returns without error"
		}
		r.add("failed-edit-writes-nothing", fnName(f), where, bad == "", bad+noteIf(bad == "", fmt.Sprintf("%d paths", len(rets))))
		r.add("no-error-is-dropped", fnName(f), where, drop == "", drop)
		r.add("success-updates-text-and-tree", fnName(f), where, step == "", step)
		r.add("text-is-edited-like-the-interpreter", fnName(f), where, notEdit == "", notEdit)
	}
	r.Stats["paths_followed"] = npaths
	for _, k := range []string{"failed-edit-writes-nothing", "no-error-is-dropped", "success-updates-text-and-tree"} {
		r.floor(k, 20)
	}
}

// interpreterEdit: v is the document returned by the package function that the method's name begins with.
func interpreterEdit(ts *typestate, s *tsState, v rval, f *ssa.Function, nm names) bool {
	ex, ok := v.v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || !ts.editCallOn(s, rval{v.fr, c}, nm.json) {
		return false
	}
	g := c.Call.StaticCallee()
	if recvName(g) != "" || !strings.HasPrefix(f.Name(), g.Name()) {
		return false
	}
	if f.Name() == "SetKey" || strings.HasPrefix(f.Name(), "AddKeyValue") {
		return g.Name() == "SetKey" || strings.HasPrefix(g.Name(), "AddKeyValue")
	}
	return true
}
