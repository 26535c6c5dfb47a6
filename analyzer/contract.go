package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Contracts of functions and invariants of loops. They are guessed from the types: linear relations between the
// integers and the lengths in reach. All are assumed, every one that is not shown to be preserved under that
// assumption is dropped, until none is. What is left holds by induction over the execution.

type cterm struct {
	kind atomKind
	v    ssa.Value // parameter, or value at a loop head
	res  int       // result, when v is nil
	k    int64
}

// contract: the sum of the terms is <= c.
type contract struct {
	what  byte // 'p' on entry, 'r' on return, 'l' at a loop head
	fn    *ssa.Function
	block *ssa.BasicBlock
	terms []cterm
	c     int64
	guard int // the result that has to be nil, or have the value gval, or -1
	gval  int64
	ne    bool // differs from c instead
	dead  bool
	over  []*contract // says the same and more
}

func (ct *contract) String() string {
	var s []string
	for _, t := range ct.terms {
		n := fmt.Sprintf("result%d", t.res)
		if t.v != nil {
			n = t.v.Name()
			if ph, ok := t.v.(*ssa.Phi); ok && ph.Comment != "" {
				n += "(" + ph.Comment + ")"
			}
		}
		switch t.kind {
		case aLen:
			n = "len(" + n + ")"
		case aNN:
			n = "[" + n + "!=nil]"
		}
		s = append(s, fmt.Sprintf("%+d*%s", t.k, n))
	}
	w := map[byte]string{'p': "entry", 'r': "return", 'l': "loop"}[ct.what]
	if ct.block != nil {
		w += fmt.Sprintf(" b%d", ct.block.Index)
	}
	if ct.guard >= 0 {
		w += " without error"
		if isBoolType(ct.fn.Signature.Results().At(ct.guard).Type()) {
			w = strings.Replace(w, "without error", fmt.Sprintf("with result%d=%d", ct.guard, ct.gval), 1)
		}
	}
	op := "<="
	if ct.ne {
		op = "!="
	}
	return fmt.Sprintf("%s %s: %s %s %d", fnName(ct.fn), w, strings.Join(s, " "), op, ct.c)
}

type contracts struct {
	pre, post map[*ssa.Function][]*contract
	loop      map[*ssa.BasicBlock][]*contract
	all       []*contract
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Slice:
		return true
	}
	return false
}

func hasLen(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return isStringType(t)
}

func (e *back) guessContracts() *contracts {
	cs := &contracts{pre: map[*ssa.Function][]*contract{}, post: map[*ssa.Function][]*contract{}, loop: map[*ssa.BasicBlock][]*contract{}}
	for _, f := range e.p.Funcs {
		if !e.live[f] || len(f.Blocks) == 0 {
			continue
		}
		var ints, lens []cterm
		for _, q := range f.Params {
			if affineInt(q.Type()) {
				ints = append(ints, cterm{kind: aVal, v: q})
			}
			if hasLen(q.Type()) {
				lens = append(lens, cterm{kind: aLen, v: q})
			}
		}
		if !e.api[f] && !e.taken[f] && f.Parent() == nil && len(e.callers[f]) > 0 {
			put := func(c int64, ts ...cterm) {
				cs.pre[f] = append(cs.pre[f], &contract{what: 'p', fn: f, terms: ts, c: c, guard: -1})
			}
			for i, x := range ints {
				put(0, x.times(-1))
				put(-1, x.times(-1))
				for _, q := range lens {
					put(0, x.times(1), q.times(-1))
					put(-1, x.times(1), q.times(-1))
				}
				for j, y := range ints {
					if i != j {
						put(0, x.times(1), y.times(-1))
					}
				}
			}
			for _, q := range lens {
				put(-1, q.times(-1))
				put(-2, q.times(-1))
			}
			for _, q := range f.Params {
				if nilable(q.Type()) {
					put(-1, cterm{kind: aNN, v: q, k: -1})
				}
			}
		}
		if res := f.Signature.Results(); res.Len() > 0 {
			guards := []int{-1}
			if isErr(res.At(res.Len() - 1).Type()) {
				guards = append(guards, res.Len()-1)
			}
			for _, g := range guards {
				put := func(c int64, ts ...cterm) {
					cs.post[f] = append(cs.post[f], &contract{what: 'r', fn: f, terms: ts, c: c, guard: g})
				}
				var rs []cterm
				for i := 0; i < res.Len(); i++ {
					if affineInt(res.At(i).Type()) {
						rs = append(rs, cterm{kind: aVal, res: i})
					}
					if nilable(res.At(i).Type()) {
						put(-1, cterm{kind: aNN, res: i, k: -1})
					}
				}
				for i, x := range rs {
					put(1, x.times(-1))
					put(0, x.times(-1))
					if g < 0 {
						cs.post[f] = append(cs.post[f], &contract{what: 'r', fn: f, terms: []cterm{x.times(1)}, guard: g, ne: true})
					}
					for _, q := range lens {
						put(0, x.times(1), q.times(-1))
						put(-1, x.times(1), q.times(-1))
					}
					for _, y := range ints {
						put(0, x.times(1), y.times(-1))
						put(0, y.times(1), x.times(-1))
					}
					for j, y := range rs {
						if i != j {
							put(0, x.times(1), y.times(-1))
							put(-1, x.times(1), y.times(-1))
						}
					}
				}
				for i := 0; i < res.Len(); i++ {
					if hasLen(res.At(i).Type()) {
						for _, q := range lens {
							r := cterm{kind: aLen, res: i}
							put(0, r.times(1), q.times(-1))
							put(0, q.times(1), r.times(-1))
							put(-1, q.times(1), r.times(-1))
						}
					}
				}
			}
		}
		e.guessTests(cs, f, ints, lens)
		for _, b := range f.Blocks {
			if loopHead(b) {
				e.guessLoop(cs, f, b, lens)
			}
		}
	}
	for _, m := range []map[*ssa.Function][]*contract{cs.pre, cs.post} {
		for _, f := range e.p.Funcs {
			cs.all = append(cs.all, m[f]...)
		}
	}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			cs.all = append(cs.all, cs.loop[b]...)
		}
	}
	// the stronger ones
	type key struct {
		what  byte
		fn    *ssa.Function
		block *ssa.BasicBlock
		terms string
	}
	same := map[key][]*contract{}
	for _, ct := range cs.all {
		k := key{ct.what, ct.fn, ct.block, fmt.Sprint(ct.ne, ct.gval, ct.terms)}
		for _, o := range same[k] {
			if o.c <= ct.c && (o.guard < 0 || o.guard == ct.guard) && (ct.c != o.c || ct.guard != o.guard) {
				ct.over = append(ct.over, o)
			}
			if ct.c <= o.c && (ct.guard < 0 || o.guard == ct.guard) && (ct.c != o.c || ct.guard != o.guard) {
				o.over = append(o.over, ct)
			}
		}
		same[k] = append(same[k], ct)
	}
	return cs
}

// guessTests: what a true or false result tells of the arguments.
func (e *back) guessTests(cs *contracts, f *ssa.Function, ints, lens []cterm) {
	res := f.Signature.Results()
	var flags []int
	for i := 0; i < res.Len(); i++ {
		if isBoolType(res.At(i).Type()) {
			flags = append(flags, i)
		}
	}
	if len(flags) == 0 || len(ints)+len(lens) == 0 {
		return
	}
	seen := map[string]bool{}
	put := func(op cop, c int64, ts ...cterm) {
		for _, g := range flags {
			for v := int64(0); v < 2; v++ {
				ct := &contract{what: 'r', fn: f, terms: ts, c: c, guard: g, gval: v, ne: op == cNE}
				if k := ct.String(); !seen[k] {
					seen[k] = true
					cs.post[f] = append(cs.post[f], ct)
				}
			}
		}
	}
	for _, x := range ints {
		put(cLE, 0, x.times(-1))
		put(cLE, -1, x.times(-1))
		for _, q := range lens {
			put(cLE, 0, x.times(1), q.times(-1))
			put(cLE, -1, x.times(1), q.times(-1))
		}
	}
	for _, q := range lens {
		put(cLE, -1, q.times(-1))
	}
	fr := e.root(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, truth := range []bool{true, false} {
				cons, ok := e.compare(fr, x, truth)
				if !ok {
					continue
				}
				for _, c := range cons {
					var ts []cterm
					for _, t := range c.l.t {
						q, isP := t.a.v.(*ssa.Parameter)
						if !isP || q.Parent() != f || t.a.kind == aRead {
							ts = nil
							break
						}
						ts = append(ts, cterm{kind: t.a.kind, v: q, k: t.k})
					}
					if len(ts) == 0 {
						continue
					}
					if c.op == cEQ {
						put(cLE, -c.l.c, ts...)
						var neg []cterm
						for _, t := range ts {
							neg = append(neg, t.times(-t.k))
						}
						put(cLE, c.l.c, neg...)
					} else {
						put(c.op, -c.l.c, ts...)
					}
				}
			}
		}
	}
}

// says: the contract holds and no stronger one does.
func (ct *contract) says() bool {
	if ct.dead {
		return false
	}
	for _, o := range ct.over {
		if !o.dead {
			return false
		}
	}
	return true
}

func (t cterm) times(k int64) cterm { t.k = k; return t }

func (e *back) guessLoop(cs *contracts, f *ssa.Function, b *ssa.BasicBlock, params []cterm) {
	put := func(c int64, ts ...cterm) {
		cs.loop[b] = append(cs.loop[b], &contract{what: 'l', fn: f, block: b, terms: ts, c: c, guard: -1})
	}
	before := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.Const:
			return false
		case ssa.Instruction:
			return x.Block() != b && x.Block().Dominates(b)
		}
		return false
	}
	body := loopBody(b)
	lens := append([]cterm(nil), params...)
	var bounds []ssa.Value
	seen := map[ssa.Value]bool{}
	for _, q := range params {
		seen[q.v] = true
	}
	addLen := func(v ssa.Value) {
		if before(v) && hasLen(v.Type()) && !seen[v] {
			seen[v] = true
			lens = append(lens, cterm{kind: aLen, v: v})
		}
	}
	for _, x := range f.Blocks {
		if !body[x] {
			continue
		}
		for _, in := range x.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				addLen(in.X)
			case *ssa.Slice:
				addLen(in.X)
			case *ssa.Lookup:
				addLen(in.X)
			case *ssa.BinOp:
				for _, v := range []ssa.Value{in.X, in.Y} {
					if before(v) && affineInt(v.Type()) && !seen[v] {
						seen[v] = true
						bounds = append(bounds, v)
					}
				}
			}
		}
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if affineInt(ph.Type()) {
				phis = append(phis, ph)
			} else if nilable(ph.Type()) {
				put(-1, cterm{kind: aNN, v: ph, k: -1})
				if hasLen(ph.Type()) {
					put(-1, cterm{kind: aLen, v: ph, k: -1})
				}
			}
		}
	}
	// lists that grow with a counter
	for _, in := range b.Instrs {
		y, ok := in.(*ssa.Phi)
		if !ok || !hasLen(y.Type()) || isStringType(y.Type()) {
			continue
		}
		from, grows := int64(-1), false
		for k, pr := range b.Preds {
			if !b.Dominates(pr) {
				from = lenOfNew(y.Edges[k])
			} else if c, ok := y.Edges[k].(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Call.Args[0] == ssa.Value(y) {
					grows = true
				}
			}
		}
		if from < 0 || !grows {
			continue
		}
		for _, x := range phis {
			for k, pr := range b.Preds {
				if c, ok := constInt(x.Edges[k]); ok && !b.Dominates(pr) {
					put(c-from, cterm{kind: aVal, v: x, k: 1}, cterm{kind: aLen, v: y, k: -1})
					put(from-c, cterm{kind: aLen, v: y, k: 1}, cterm{kind: aVal, v: x, k: -1})
				}
			}
		}
	}
	for i, x := range phis {
		X := cterm{kind: aVal, v: x}
		consts := map[int64]bool{0: true, -1: true}
		inits := map[ssa.Value]bool{}
		for k, pr := range b.Preds {
			if b.Dominates(pr) {
				continue
			}
			if c, ok := constInt(x.Edges[k]); ok {
				consts[c] = true
			} else {
				inits[x.Edges[k]] = true
				if s, ok := x.Edges[k].(*ssa.BinOp); ok {
					if c, isC := constInt(s.Y); isC && (s.Op == token.ADD || s.Op == token.SUB) {
						if s.Op == token.SUB {
							c = -c
						}
						if before(s.X) {
							put(c, X.times(1), cterm{kind: aVal, v: s.X, k: -1})
							put(-c, cterm{kind: aVal, v: s.X, k: 1}, X.times(-1))
						}
					}
				}
			}
		}
		if consts[-1] {
			cs.loop[b] = append(cs.loop[b], &contract{what: 'l', fn: f, block: b, terms: []cterm{X.times(1)}, guard: -1, ne: true})
		}
		for c := int64(-2); c < 64; c++ {
			if consts[c] {
				put(-c, X.times(-1))
				put(c, X.times(1))
			}
		}
		done := map[ssa.Value]bool{}
		cmp := func(v ssa.Value) {
			if before(v) && !done[v] {
				done[v] = true
				put(0, X.times(1), cterm{kind: aVal, v: v, k: -1})
				put(0, cterm{kind: aVal, v: v, k: 1}, X.times(-1))
				put(-1, X.times(1), cterm{kind: aVal, v: v, k: -1})
			}
		}
		for k := range b.Preds {
			if inits[x.Edges[k]] {
				cmp(x.Edges[k])
			}
		}
		for _, v := range bounds {
			cmp(v)
		}
		for _, q := range lens {
			put(0, X.times(1), q.times(-1))
			put(-1, X.times(1), q.times(-1))
		}
		for j, y := range phis {
			if i != j {
				put(0, X.times(1), cterm{kind: aVal, v: y, k: -1})
			}
		}
	}
}

// lenOfNew is the length of a list that was just made, -1 when it is not known to be one.
func lenOfNew(v ssa.Value) int64 {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0
		}
	case *ssa.MakeSlice:
		if c, ok := constInt(x.Len); ok {
			return c
		}
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok && x.High != nil {
			lo := int64(0)
			if x.Low != nil {
				c, ok := constInt(x.Low)
				if !ok {
					return -1
				}
				lo = c
			}
			if c, ok := constInt(x.High); ok {
				return c - lo
			}
		}
	}
	return -1
}

// loopBody: the blocks on a cycle through head b that b dominates.
func loopBody(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{b: true}
	var work []*ssa.BasicBlock
	for _, p := range b.Preds {
		if b.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if body[x] {
			continue
		}
		body[x] = true
		work = append(work, x.Preds...)
	}
	return body
}

// inst is the contract with its terms replaced by values.
func (e *back) inst(fr *bframe, ct *contract, of func(t cterm) (ssa.Value, bool)) (con, bool) {
	l := linC(-ct.c)
	for _, t := range ct.terms {
		v, ok := of(t)
		if !ok {
			return con{}, false
		}
		switch t.kind {
		case aLen:
			l = l.add(e.length(fr, v), t.k)
		case aNN:
			l = l.add(e.nonnil(fr, v), t.k)
		default:
			l = l.add(e.val(fr, v), t.k)
		}
	}
	if ct.ne {
		return con{l: l, op: cNE}, true
	}
	return con{l: l, op: cLE}, true
}

func ownTerm(t cterm) (ssa.Value, bool) { return t.v, t.v != nil }

func actualTerm(c *ssa.Call, t cterm) (ssa.Value, bool) {
	if t.v == nil {
		return resultValue(c, t.res)
	}
	for i, q := range c.Call.StaticCallee().Params {
		if ssa.Value(q) == t.v && i < len(c.Call.Args) {
			return c.Call.Args[i], true
		}
	}
	return nil, false
}

func resultValue(c *ssa.Call, i int) (ssa.Value, bool) {
	if c.Call.Signature().Results().Len() == 1 {
		return c, true
	}
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			return x, true
		}
	}
	return nil, false
}

// gcon is a constraint that holds when the guard has the value gval.
type gcon struct {
	con
	guard *atom
	gval  int64
}

// contractFacts: what the contracts say at a point.
func (e *back) contractFacts(fr *bframe, b *ssa.BasicBlock, at int) []gcon {
	if e.ctr == nil {
		return nil
	}
	k := atomKey{fr: fr, v: b, idx: fmt.Sprintf("ctr%d", at)}
	if g, ok := e.cfacts[k]; ok {
		return g
	}
	var out []gcon
	for _, ct := range e.ctr.pre[fr.fn] {
		if ct.says() {
			if c, ok := e.inst(fr, ct, ownTerm); ok {
				out = append(out, gcon{con: c})
			}
		}
	}
	for x, lim := b, at; x != nil; x, lim = x.Idom(), 1<<30 {
		for _, ct := range e.ctr.loop[x] {
			if ct.says() {
				if c, ok := e.inst(fr, ct, ownTerm); ok {
					out = append(out, gcon{con: c})
				}
			}
		}
		for i, in := range x.Instrs {
			if i >= lim {
				break
			}
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			for _, ct := range e.ctr.post[c.Call.StaticCallee()] {
				if !ct.says() {
					continue
				}
				g := gcon{}
				var ok bool
				if g.con, ok = e.inst(fr, ct, func(t cterm) (ssa.Value, bool) { return actualTerm(c, t) }); !ok {
					continue
				}
				if ct.guard >= 0 {
					v, ok := resultValue(c, ct.guard)
					if !ok {
						continue
					}
					var l lin
					if isErr(v.Type()) {
						l = e.nonnil(fr, v)
					} else {
						l = e.val(fr, v)
					}
					if l.isConst() {
						if l.c != ct.gval {
							continue
						}
					} else if len(l.t) != 1 || l.c != 0 || l.t[0].k != 1 {
						continue
					} else {
						g.guard, g.gval = l.t[0].a, ct.gval
					}
				}
				out = append(out, g)
			}
		}
	}
	e.cfacts[k] = out
	return out
}

// hasVal: the constraints say that the guard, 0 or 1, is v.
func hasVal(cs []con, a *atom, v int64) bool {
	for _, c := range cs {
		if len(c.l.t) != 1 || c.l.t[0].a != a {
			continue
		}
		k := c.l.t[0].k
		// k*a + c.l.c op 0
		switch c.op {
		case cEQ:
			if k*v+c.l.c == 0 {
				return true
			}
		case cLE:
			if k*(1-v)+c.l.c > 0 {
				return true
			}
		case cNE:
			if k*(1-v)+c.l.c == 0 {
				return true
			}
		}
	}
	return false
}

// holds decides one contract under the assumption of all the others.
func (e *back) holds(ct *contract, budget int) bool {
	fr := e.root(ct.fn)
	switch ct.what {
	case 'p':
		for _, c := range e.callers[ct.fn] {
			c := c
			n, ok := e.inst(e.root(c.Parent()), ct, func(t cterm) (ssa.Value, bool) { return actualTerm(c, t) })
			if !ok || !e.quick(bpos{e.root(c.Parent()), c.Block(), indexIn(c)}, n.neg(), budget) {
				e.note("no %s at %s", ct, e.p.pos(c.Pos()))
				return false
			}
		}
	case 'r':
		for _, b := range ct.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n, ok := e.inst(fr, ct, func(t cterm) (ssa.Value, bool) {
				if t.v != nil {
					return t.v, true
				}
				return ret.Results[t.res], true
			})
			if !ok {
				return false
			}
			bad := n.neg()
			if ct.guard >= 0 {
				if isErr(ret.Results[ct.guard].Type()) {
					bad = append(bad, con{l: e.nonnil(fr, ret.Results[ct.guard]), op: cEQ})
				} else {
					bad = append(bad, e.cond(fr, ret.Results[ct.guard], ct.gval == 1)...)
				}
			}
			if !e.quick(bpos{fr, b, len(b.Instrs)}, bad, budget) {
				e.note("no %s at %s", ct, e.p.pos(posOf(ret)))
				return false
			}
		}
	case 'l':
		n, ok := e.inst(fr, ct, ownTerm)
		if !ok {
			return false
		}
		bad := n.neg()
		for i := range bad {
			bad[i].goal = true
		}
		for i, pr := range ct.block.Preds {
			if !e.quick(endOf(fr, pr), e.overEdge(fr, ct.block, i, bad), budget) {
				e.note("no %s from b%d", ct, pr.Index)
				return false
			}
		}
	}
	return true
}

func (e *back) quick(p bpos, bad []con, budget int) bool {
	bad = append([]con(nil), bad...)
	bad[0].goal = true
	for k := 0; k < 2; k++ {
		e.noUp, e.wide, e.useClauses = true, k == 1, k == 1
		e.fuel = budget
		e.failed = map[string]bool{}
		e.hyps = nil
		e.minHyp = 1 << 30
		e.why = ""
		if e.refute(p, bad) {
			return true
		}
	}
	return false
}

// workers runs f on every index, with an engine each.
func (e *back) workers(n int, f func(w *back, i int)) {
	var next int32 = -1
	var wg sync.WaitGroup
	for len(e.crew) < 8 {
		w := newBack(e.p, e.roots)
		e.crew = append(e.crew, w)
	}
	for _, w := range e.crew {
		w := w
		w.invs, w.elemNN, w.ctr, w.contents = e.invs, e.elemNN, e.ctr, e.contents
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= n {
					return
				}
				w.reset()
				f(w, i)
			}
		}()
	}
	wg.Wait()
}

// reached lists the functions f calls, with f.
func (e *back) reached(f *ssa.Function) map[*ssa.Function]bool {
	if m := e.reach[f]; m != nil {
		return m
	}
	m := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if m[f] {
			return
		}
		m[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(f)
	if e.reach == nil {
		e.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	e.reach[f] = m
	return m
}

// settle drops the contracts that do not hold until all do.
func (e *back) settle(budget int) bool {
	any := false
	changed := map[*ssa.Function]bool{}
	for _, f := range e.p.Funcs {
		changed[f] = true
	}
	for {
		var live []*contract
		for _, ct := range e.ctr.all {
			if ct.dead {
				continue
			}
			var at []*ssa.Function
			if ct.what == 'p' {
				for _, c := range e.callers[ct.fn] {
					at = append(at, c.Parent())
				}
			} else {
				at = append(at, ct.fn)
			}
			hit := false
			for _, f := range at {
				for g := range e.reached(f) {
					hit = hit || changed[g]
				}
			}
			if hit {
				live = append(live, ct)
			}
		}
		ok := make([]bool, len(live))
		e.workers(len(live), func(w *back, i int) { ok[i] = w.holds(live[i], budget) })
		drop := 0
		changed = map[*ssa.Function]bool{}
		for i, ct := range live {
			if !ok[i] {
				ct.dead = true
				changed[ct.fn] = true
				drop++
			}
		}
		e.note("contracts: %d of %d dropped", drop, len(live))
		if drop == 0 {
			return any
		}
		any = true
	}
}

func (g gcon) flag() bool { return g.guard.kind == aVal }
