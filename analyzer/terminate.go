package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkTermination }

// loopOf is a natural loop that has to end.
type loopOf struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	ok   bool
	skip bool
	why  string
}

func checkTermination(p *Program, r *Report) {
	roots := p.exported()
	e := newBack(p, roots)
	e.learn(1500)
	e.learnContents(1500)
	e.reset()
	var loops []*loopOf
	for _, f := range p.Funcs {
		if !e.live[f] {
			continue
		}
		for _, b := range f.Blocks {
			if loopHead(b) {
				loops = append(loops, &loopOf{fn: f, head: b})
			}
		}
	}
	var mu sync.Mutex
	calls := e.recursion()
	e.workers(len(loops)+len(calls), func(w *back, i int) {
		defer func() {
			if x := recover(); x != nil {
				mu.Lock()
				defer mu.Unlock()
				if i < len(loops) {
					loops[i].skip = true
				} else {
					calls[i-len(loops)].skip = true
				}
			}
		}()
		if i < len(loops) {
			loops[i].ok, loops[i].skip, loops[i].why = w.ranked(loops[i].fn, loops[i].head)
			return
		}
		c := calls[i-len(loops)]
		c.measures = w.recursionMeasures(c)
	})
	skipped := 0
	for _, l := range loops {
		if l.skip {
			skipped++
			continue
		}
		r.add("loop-ends", fnName(l.fn)+" loop "+loopName(l.head), p.pos(blockPos(l.head)), l.ok, l.why)
	}
	// recursion: one measure for all calls of a cycle
	groups := map[int][]*recCall{}
	for _, c := range calls {
		groups[c.group] = append(groups[c.group], c)
	}
	var ids []int
	for g := range groups {
		ids = append(ids, g)
	}
	sort.Ints(ids)
	for _, g := range ids {
		cs := groups[g]
		common := map[string]int{}
		for _, c := range cs {
			for _, m := range c.measures {
				common[m]++
			}
		}
		best := ""
		for m, n := range common {
			if n == len(cs) && (best == "" || m < best) {
				best = m
			}
		}
		for _, c := range cs {
			if c.skip {
				skipped++
				continue
			}
			why := "measure: " + best
			if best == "" {
				why = "the call is part of a cycle, and nothing was found that gets smaller with it (found for this call: " + strings.Join(c.measures, ", ") + ")"
			}
			r.add("recursion-ends", fnName(c.call.Parent())+" calls "+fnName(c.to), p.pos(c.call.Pos()), best != "", why)
		}
	}
	r.floor("loop-ends", 40)
	r.Stats["loops"] = len(loops)
	r.Stats["recursive_calls"] = len(calls)
	r.Stats["undecided"] = skipped
	r.Expl = "Every natural loop in every function the API may run needs a loop variable that moves strictly one way in every round, on every path back to the head, and a value fixed before the loop that it stays below (or above) whenever the loop goes on; both are proved by the engine of the panic checks, over all paths. " +
		"Every call that closes a cycle of the call graph needs a measure that gets strictly closer to its end: a nil argument replaced by one that is not, a shorter slice, a bounded integer, an element of the argument's own list (trees are finite), or a longer path (a path longer than the document is deep does not resolve)."
	r.Assume = append(r.Assume, "callbacks return", "library functions return", "integers do not overflow", "the tree of a Parser is finite: nodes are attached when they are new")
}

func loopName(b *ssa.BasicBlock) string {
	n := b.Comment
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && ph.Comment != "" {
			n += " " + ph.Comment
		}
	}
	return n
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := posOf(in); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := posOf(in); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

// ranked shows that the loop ends.
func (e *back) ranked(f *ssa.Function, h *ssa.BasicBlock) (ok, skip bool, why string) {
	body := loopBody(h)
	fr := e.root(f)
	var latches []int
	for i, pr := range h.Preds {
		if h.Dominates(pr) {
			latches = append(latches, i)
		}
	}
	// a range over a map or a string
	for b := range body {
		for _, in := range b.Instrs {
			nx, isN := in.(*ssa.Next)
			if !isN {
				continue
			}
			every := true
			for _, i := range latches {
				every = every && (b == h.Preds[i] || b.Dominates(h.Preds[i]))
			}
			rg, isR := nx.Iter.(*ssa.Range)
			if !every || !isR || body[rg.Block()] {
				continue
			}
			if nx.IsString {
				return true, false, "range over a string"
			}
			grows := false
			for x := range body {
				for _, y := range x.Instrs {
					if mu, ok := y.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), rg.X.Type()) {
						grows = true
					}
				}
			}
			if !grows {
				return true, false, "range over a map that does not grow"
			}
		}
	}
	// bounds: what the loop compares with, and lengths
	before := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.Const:
			return true
		case ssa.Instruction:
			return x.Block() != nil && x.Block() != h && !body[x.Block()] && x.Block().Dominates(h)
		}
		return false
	}
	var bounds []lin
	seen := map[string]bool{}
	put := func(l lin) {
		if k := l.key(); !seen[k] {
			seen[k] = true
			bounds = append(bounds, l)
		}
	}
	fixed := func(l lin) bool {
		for _, t := range l.t {
			if t.a.fr != fr {
				return false
			}
			if t.a.kind == aRead {
				return false
			}
			switch v := t.a.v.(type) {
			case ssa.Value:
				if !before(v) {
					return false
				}
			case *memInit:
			case *memPhi:
				if v.block == h || body[v.block] || !v.block.Dominates(h) {
					return false
				}
			case *memHavoc:
				if b := v.in.Block(); b == h || body[b] || !b.Dominates(h) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	var order []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if body[b] {
			order = append(order, b)
		}
	}
	for _, b := range order {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, v := range []ssa.Value{x.X, x.Y} {
						if affineInt(v.Type()) {
							if l := e.val(fr, v); fixed(l) {
								put(l)
							}
						}
					}
				}
			case *ssa.IndexAddr:
				if l := e.length(fr, x.X); fixed(l) {
					put(l)
				}
			case *ssa.Index:
				if l := e.length(fr, x.X); fixed(l) {
					put(l)
				}
			case *ssa.Lookup:
				if isStringType(x.X.Type()) {
					if l := e.length(fr, x.X); fixed(l) {
						put(l)
					}
				}
			}
		}
	}
	for _, q := range f.Params {
		if hasLen(q.Type()) {
			put(e.length(fr, q))
		}
	}
	put(linC(0))
	ints := 0
	var tried []string
	for try := 0; try < 2; try++ {
		// a cheap search first
		prove := func(in ssa.Instruction, c con, n int) bool {
			if try == 0 {
				return e.quick(bpos{fr, in.Block(), indexIn(in)}, []con{c}, 150)
			}
			ok, _ := e.prove(in, []con{c}, n)
			return ok
		}
		ints, tried = 0, nil
		for _, in := range h.Instrs {
			ph, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			var cur lin
			name := ph.Comment
			switch {
			case affineInt(ph.Type()):
				ints++
				cur = e.val(fr, ph)
			case hasLen(ph.Type()):
				// a slice that gets shorter
				cur = e.length(fr, ph)
				name = "len(" + name + ")"
			default:
				continue
			}
			of := func(v ssa.Value) lin {
				if affineInt(ph.Type()) {
					return e.val(fr, v)
				}
				return e.length(fr, v)
			}
			for _, dir := range []int64{1, -1} {
				good := true
				for _, i := range latches {
					pr := h.Preds[i]
					next := of(ph.Edges[i])
					last := pr.Instrs[len(pr.Instrs)-1]
					// dir*(next-cur) >= 1
					step := next.add(cur, -1).scale(dir)
					if !prove(last, lt(step, linC(1)), 3000) {
						good = false
						break
					}
					bounded := false
					for _, b := range bounds {
						// dir*cur <= dir*b + 1: one more round at most beyond the bound
						if prove(last, lt(b.scale(dir).plus(1), cur.scale(dir)), 1500) {
							bounded = true
							break
						}
					}
					if !bounded {
						good = false
						tried = append(tried, fmt.Sprintf("%s moves, but no bound was found", name))
						break
					}
				}
				if good {
					return true, false, fmt.Sprintf("%s moves by at least one in every round, up to a fixed bound", name)
				}
			}
		}
	}
	if ints == 0 {
		exits := false
		for b := range body {
			for _, s := range b.Succs {
				exits = exits || !body[s]
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				exits = true
			}
		}
		if exits {
			return false, true, "no loop variable to measure"
		}
	}
	if len(tried) > 0 {
		return false, false, strings.Join(tried, "; ")
	}
	return false, false, "no variable was found that moves one way in every round"
}

// recCall is a call that closes a cycle.
type recCall struct {
	call     ssa.CallInstruction
	to       *ssa.Function
	group    int
	measures []string
	skip     bool
}

// recursion finds the static calls inside cycles of the call graph whose removal leaves no cycle.
func (e *back) recursion() []*recCall {
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range e.p.Funcs {
		if e.live[f] {
			fns = append(fns, f)
			succ[f] = map[*ssa.Function]bool{}
		}
	}
	var calls []*recCall
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil {
					if succ[g] != nil {
						succ[f][g] = true
						calls = append(calls, &recCall{call: ci, to: g})
					}
					continue
				}
				if ci.Common().IsInvoke() {
					continue
				}
				for _, g := range fns {
					if e.taken[g] && types.Identical(ci.Common().Signature(), sigOf(g)) {
						succ[f][g] = true
					}
				}
			}
		}
	}
	// strongly connected components
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for s := range succ[g] {
				if !m[s] {
					m[s] = true
					visit(s)
				}
			}
		}
		visit(f)
		return m
	}
	rs := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		rs[f] = reach(f)
	}
	group := map[*ssa.Function]int{}
	n := 0
	for _, f := range fns {
		if !rs[f][f] || group[f] != 0 {
			continue
		}
		n++
		for _, g := range fns {
			if rs[f][g] && rs[g][f] {
				group[g] = n
			}
		}
	}
	var out []*recCall
	for _, c := range calls {
		f := c.call.Parent()
		if group[f] == 0 || group[f] != group[c.to] {
			continue
		}
		// back to the function itself, or from a closure to the function around it
		back := f == c.to
		for x := f.Parent(); x != nil; x = x.Parent() {
			back = back || x == c.to
		}
		c.group = group[f]
		if back {
			out = append(out, c)
		}
	}
	// cycles without any such call
	cut := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, c := range out {
		if cut[c.call.Parent()] == nil {
			cut[c.call.Parent()] = map[*ssa.Function]bool{}
		}
		cut[c.call.Parent()][c.to] = true
	}
	for _, c := range calls {
		f := c.call.Parent()
		if group[f] == 0 || group[f] != group[c.to] || cut[f][c.to] {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function) bool
		visit = func(g *ssa.Function) bool {
			if g == f {
				return true
			}
			if seen[g] {
				return false
			}
			seen[g] = true
			for s := range succ[g] {
				if !cut[g][s] && visit(s) {
					return true
				}
			}
			return false
		}
		if visit(c.to) {
			c.group = group[f]
			out = append(out, c)
		}
	}
	return out
}

func sigOf(f *ssa.Function) *types.Signature {
	s := f.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// recursionMeasures lists what gets closer to its end with the call.
func (e *back) recursionMeasures(c *recCall) []string {
	var out []string
	in := c.call.(ssa.Instruction)
	f := c.call.Parent()
	fr := e.root(f)
	args := c.call.Common().Args
	var selfCall = f == c.to
	for i, q := range c.to.Params {
		if i >= len(args) {
			break
		}
		// the value the parameter has in the calling activation
		var own ssa.Value
		if selfCall {
			own = q
		} else if fv := e.capturedParam(f, q); fv != nil {
			own = fv
		} else if o := e.sameKind(f, c.to, i); o != nil {
			own = o
		}
		if own == nil {
			continue
		}
		name := fmt.Sprintf("%s of %s", q.Name(), fnName(c.to))
		t := q.Type()
		if nilable(t) {
			a, b := e.nonnil(fr, args[i]), e.nonnil(fr, own)
			if ok, _ := e.prove(in, []con{lt(a, b.plus(1))}, 3000); ok {
				out = append(out, "nil replaced in "+name)
			}
		}
		if hasLen(t) {
			a, b := e.length(fr, args[i]), e.length(fr, own)
			if ok, _ := e.prove(in, []con{le(b, a)}, 3000); ok {
				out = append(out, "shorter "+name)
			}
			if st, ok := t.Underlying().(*types.Slice); ok && isStringType(st.Elem()) {
				if ok, _ := e.prove(in, []con{le(a, b)}, 3000); ok {
					out = append(out, "longer path "+name)
				}
			}
		}
		if affineInt(t) {
			a, b := e.val(fr, args[i]), e.val(fr, own)
			if ok, _ := e.prove(in, []con{le(b, a)}, 3000); ok {
				if ok, _ := e.prove(in, []con{lt(b, linC(0))}, 3000); ok {
					out = append(out, "smaller "+name)
				}
			}
			if ok, _ := e.prove(in, []con{le(a, b)}, 3000); ok {
				for _, z := range c.to.Params {
					if hasLen(z.Type()) && selfCall {
						if ok, _ := e.prove(in, []con{lt(e.length(fr, z), b)}, 3000); ok {
							out = append(out, "larger "+name)
							break
						}
					}
				}
			}
		}
		if isPtrToStruct(t) && descends(args[i], own, 0) {
			out = append(out, "element under "+name)
		}
	}
	return out
}

func isPtrToStruct(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isStruct(p.Elem())
}

// descends: v is an element of a list in the struct own points to.
func descends(v, own ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			u, ok := a.X.(*ssa.UnOp)
			if !ok {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && (fa.X == own || descends(fa.X, own, depth+1))
		}
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !descends(y, own, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// capturedParam is what closure f reads as parameter q of the function around it.
func (e *back) capturedParam(f *ssa.Function, q *ssa.Parameter) ssa.Value {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			fv, ok := u.X.(*ssa.FreeVar)
			if !ok {
				continue
			}
			al := captured(fv)
			if al == nil {
				continue
			}
			// set once, to the parameter
			stores := 0
			isQ := false
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					stores++
					isQ = isQ || st.Val == ssa.Value(q)
				}
			}
			if stores == 1 && isQ && e.m.class(al) == 4 {
				return u
			}
		}
	}
	return nil
}

// sameKind: for calls between two functions, the parameter in the same role.
func (e *back) sameKind(f, to *ssa.Function, i int) ssa.Value {
	var found ssa.Value
	for _, q := range f.Params {
		if types.Identical(q.Type(), to.Params[i].Type()) {
			if found != nil {
				return nil
			}
			found = q
		}
	}
	return found
}
