package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bpos is a point of the program: before instruction at of block b.
type bpos struct {
	fr *bframe
	b  *ssa.BasicBlock
	at int
}

func endOf(fr *bframe, b *ssa.BasicBlock) bpos { return bpos{fr, b, len(b.Instrs)} }

func (p bpos) String() string { return fmt.Sprintf("%s#%d/b%d", fnName(p.fr.fn), p.fr.id, p.b.Index) }

// inv is an invariant of the fields of a struct type: sum of k*field <= c.
type inv struct {
	st    types.Type
	terms []invTerm
	c     int64
}
type invTerm struct {
	field int
	kind  atomKind
	k     int64
}

func (v inv) String() string {
	s := v.st.Underlying().(*types.Struct)
	var out []string
	for _, t := range v.terms {
		n := s.Field(t.field).Name()
		switch t.kind {
		case aLen:
			n = "len(" + n + ")"
		case aNN:
			n = n + " != nil"
		}
		out = append(out, fmt.Sprintf("%+d*%s", t.k, n))
	}
	return typeName(v.st) + ": " + strings.Join(out, " ") + fmt.Sprintf(" <= %d", v.c)
}

// blockFacts are the branch conditions on the way to b, and the accesses that did not fail before position at.
func (e *back) blockFacts(fr *bframe, b *ssa.BasicBlock, at int) []con {
	k := atomKey{fr: fr, v: b, idx: fmt.Sprint(at)}
	if f, ok := e.facts[k]; ok {
		return f
	}
	var out []con
	seen := map[string]bool{}
	put := func(cs []con) {
		for _, c := range cs {
			if kk := c.key(); !seen[kk] {
				seen[kk] = true
				out = append(out, c)
			}
		}
	}
	for x, lim := b, at; x != nil; x, lim = x.Idom(), 1<<30 {
		for i, in := range x.Instrs {
			if i >= lim {
				break
			}
			put(e.accessFacts(fr, in))
		}
		if len(x.Preds) == 1 {
			put(e.edgeFacts(fr, x.Preds[0], x))
		}
	}
	e.facts[k] = out
	return out
}

func (e *back) edgeFacts(fr *bframe, p, s *ssa.BasicBlock) []con {
	i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return nil
	}
	return e.cond(fr, i.Cond, p.Succs[0] == s)
}

// accessFacts: what holds after an instruction that would have failed otherwise.
func (e *back) accessFacts(fr *bframe, in ssa.Instruction) []con {
	var out []con
	for _, o := range e.obligations(in) {
		for _, c := range o.bad(e, fr) {
			out = append(out, c.neg()...)
		}
	}
	if nx, ok := in.(*ssa.Extract); ok {
		if n, isN := nx.Tuple.(*ssa.Next); isN && n.IsString && nx.Index == 1 {
			_ = n
		}
	}
	if c, ok := in.(*ssa.Call); ok {
		if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "copy" {
			r := linA(e.atom(aVal, fr, c))
			out = append(out, le(r, e.length(fr, c.Call.Args[0])), le(r, e.length(fr, c.Call.Args[1])))
		}
		if g := c.Call.StaticCallee(); g != nil {
			out = append(out, e.stdFacts(fr, c, stdName(g))...)
			out = append(out, e.contentFacts(fr, c)...)
		}
	}
	return out
}

// stdFacts is what library functions promise of their results.
func (e *back) stdFacts(fr *bframe, c *ssa.Call, name string) []con {
	i := strings.IndexByte(name, '.')
	if i < 0 || name[:i] != "strings" && name[:i] != "bytes" || len(c.Call.Args) == 0 {
		return nil
	}
	a := c.Call.Args
	switch name[i+1:] {
	case "Index", "LastIndex":
		// with an empty separator the index may be the length
		return []con{le(linA(e.atom(aVal, fr, c)), e.length(fr, a[0]))}
	case "IndexByte", "LastIndexByte", "IndexAny", "IndexRune", "IndexFunc", "LastIndexAny", "LastIndexFunc":
		return []con{lt(linA(e.atom(aVal, fr, c)), e.length(fr, a[0])), le(linC(-1), linA(e.atom(aVal, fr, c)))}
	case "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc":
		return []con{le(linA(e.atom(aLen, fr, c)), e.length(fr, a[0]))}
	}
	return nil
}

// obl is a condition that must not hold before an instruction.
type bobl struct {
	kind string
	bad  func(e *back, fr *bframe) []con // each one alone is a failure
	desc string
}

// obligations: what makes an instruction panic.
func (e *back) obligations(in ssa.Instruction) []bobl {
	var out []bobl
	index := func(x, i ssa.Value) {
		out = append(out, bobl{"index", func(e *back, fr *bframe) []con {
			iv := e.val(fr, i)
			r := []con{le(e.length(fr, x), iv)}
			if !unsigned(i.Type()) {
				r = append(r, lt(iv, linC(0)))
			}
			return r
		}, "index out of range"})
	}
	nonnil := func(x ssa.Value, what string) {
		switch x.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure, *ssa.Function:
			return
		}
		out = append(out, bobl{"nil", func(e *back, fr *bframe) []con { return []con{lt(e.nonnil(fr, x), linC(1))} }, what})
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		index(x.X, x.Index)
	case *ssa.Index:
		index(x.X, x.Index)
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			index(x.X, x.Index)
		}
	case *ssa.Slice:
		out = append(out, bobl{"slice", func(e *back, fr *bframe) []con {
			lo := linC(0)
			n := e.length(fr, x.X)
			hi := n
			var r []con
			if x.Low != nil {
				lo = e.val(fr, x.Low)
				r = append(r, lt(lo, linC(0)))
			}
			if x.High != nil {
				hi = e.val(fr, x.High)
				if x.Max == nil {
					r = append(r, lt(n, hi))
				}
			}
			if x.Max != nil {
				mx := e.val(fr, x.Max)
				r = append(r, lt(n, mx), lt(mx, hi))
			}
			return append(r, lt(hi, lo))
		}, "slice bounds out of range"})
	case *ssa.MakeSlice:
		out = append(out, bobl{"make", func(e *back, fr *bframe) []con {
			r := []con{lt(e.val(fr, x.Len), linC(0))}
			if x.Cap != x.Len {
				r = append(r, lt(e.val(fr, x.Cap), e.val(fr, x.Len)))
			}
			return r
		}, "make with a negative length or a capacity below it"})
	case *ssa.FieldAddr:
		nonnil(x.X, "nil pointer dereference")
	case *ssa.UnOp:
		if x.Op == token.MUL {
			nonnil(x.X, "nil pointer dereference")
		}
	case *ssa.Store:
		nonnil(x.Addr, "nil pointer dereference")
	case *ssa.MapUpdate:
		nonnil(x.Map, "write to a nil map")
	case *ssa.TypeAssert:
		if !x.CommaOk {
			out = append(out, bobl{"assert", func(e *back, fr *bframe) []con { return []con{le(linC(0), linC(0))} }, "type assertion that can fail"})
		}
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && integerType(x.Type()) {
			if c, ok := constInt(x.Y); !ok || c == 0 {
				out = append(out, bobl{"div", func(e *back, fr *bframe) []con { return []con{eq(e.val(fr, x.Y), linC(0))} }, "division by zero"})
			}
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && !unsigned(x.Y.Type()) {
			if c, ok := constInt(x.Y); !ok || c < 0 {
				out = append(out, bobl{"shift", func(e *back, fr *bframe) []con { return []con{lt(e.val(fr, x.Y), linC(0))} }, "negative shift"})
			}
		}
	case *ssa.Panic:
		out = append(out, bobl{"panic", func(e *back, fr *bframe) []con { return []con{le(linC(0), linC(0))} }, "panic"})
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			nonnil(cc.Value, "method call on a nil interface")
		} else if cc.StaticCallee() == nil {
			if _, b := cc.Value.(*ssa.Builtin); !b {
				nonnil(cc.Value, "call of a nil function")
			}
		} else if stdName(cc.StaticCallee()) == "strings.Repeat" && len(cc.Args) == 2 {
			out = append(out, bobl{"repeat", func(e *back, fr *bframe) []con { return []con{lt(e.val(fr, cc.Args[1]), linC(0))} }, "negative repeat count"})
		}
	}
	return out
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func inFrame(a *bframe, fr *bframe) bool {
	for f := fr; f != nil; f = f.up {
		if f == a {
			return true
		}
	}
	return false
}

// availAt tells whether an atom has its value when p is reached.
func (e *back) availAt(a *atom, p bpos) bool {
	if a.fr == nil {
		return false
	}
	if a.fr != p.fr {
		return inFrame(a.fr, p.fr)
	}
	return e.definedBefore(a.v, p.b, p.at)
}

func (e *back) definedBefore(v mval, b *ssa.BasicBlock, at int) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin, *memInit:
		return true
	case *memPhi:
		return x.block == b || x.block.Dominates(b)
	case *memHavoc:
		if x.in.Block() == b {
			return indexIn(x.in) < at
		}
		return x.in.Block().Dominates(b)
	case ssa.Value:
		in, ok := x.(ssa.Instruction)
		if !ok {
			return false
		}
		if in.Block() == b {
			if _, phi := x.(*ssa.Phi); phi {
				return true
			}
			return indexIn(in) < at
		}
		return in.Block().Dominates(b)
	}
	return false
}

// invFacts: the invariants of the objects whose fields the constraints speak of.
func (e *back) invFacts(cs []con) []con {
	var out []con
	seen := map[string]bool{}
	for _, a := range atomsOf(cs, true) {
		var c cellKey
		var get func(f int) mval
		switch x := a.v.(type) {
		case *memInit:
			c = x.cell
			fn := x.fn
			get = func(f int) mval { return e.m.init(fn, cellKey{c.base, c.st, f}) }
		case *memHavoc:
			c = x.cell
			_, isCall := x.in.(ssa.CallInstruction)
			if !isCall && !x.atDef {
				continue
			}
			if x.atDef && e.breaksInv(x.in.Parent(), c.st) {
				continue
			}
			in := x.in
			get = func(f int) mval { return e.m.at(cellKey{c.base, c.st, f}, in.Block(), indexIn(in)+1) }
		default:
			continue
		}
		if c.st == nil {
			continue
		}
		for i, v := range e.invs[typeName(c.st)] {
			k := fmt.Sprintf("%d %s %d", a.fr.id, mname(a.v), i)
			if seen[k] {
				continue
			}
			seen[k] = true
			l := linC(-v.c)
			for _, t := range v.terms {
				m := get(t.field)
				switch t.kind {
				case aLen:
					l = l.add(e.length(a.fr, m), t.k)
				case aNN:
					l = l.add(e.nonnil(a.fr, m), t.k)
				default:
					l = l.add(e.val(a.fr, m), t.k)
				}
			}
			out = append(out, con{l: l, op: cLE})
		}
	}
	return out
}

// breaksInv: the function stores to the fields of the type.
func (e *back) breaksInv(f *ssa.Function, st types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), st) {
					return true
				}
			}
		}
	}
	return false
}

// with adds to the constraints the facts at the point that are connected with them.
func (e *back) with(cs []con, p bpos) []con {
	out := append([]con(nil), cs...)
	have := map[string]bool{}
	for _, c := range cs {
		have[c.key()] = true
	}
	in := map[*atom]bool{}
	from := map[atomKey]bool{} // calls and joins the atoms come from
	grow := func(c con) {
		for _, t := range c.l.t {
			in[t.a] = true
			if o := originOf(t.a.v); o != nil {
				from[atomKey{fr: t.a.fr, v: o}] = true
			}
			if t.a.kind == aRead {
				for _, u := range t.a.idx.t {
					in[u.a] = true
				}
			}
		}
	}
	for _, c := range cs {
		grow(c)
	}
	var pool []con
	var guarded []gcon
	for f, b, at := p.fr, p.b, p.at; f != nil; {
		pool = append(pool, e.blockFacts(f, b, at)...)
		for _, g := range e.contractFacts(f, b, at) {
			if g.guard == nil {
				pool = append(pool, g.con)
			} else {
				guarded = append(guarded, g)
			}
		}
		if f.up == nil {
			break
		}
		b, at = f.call.Block(), indexIn(f.call)
		f = f.up
	}
	var flags map[*atom][]con // what the branches tell of single values
	for _, g := range guarded {
		if g.flag() && flags == nil {
			flags = map[*atom][]con{}
			for _, c := range pool {
				if len(c.l.t) == 1 {
					flags[c.l.t[0].a] = append(flags[c.l.t[0].a], c)
				}
			}
		}
	}
	for round := 0; round < 4 && len(out) < 70; round++ {
		for _, c := range e.invFacts(out) {
			if k := c.key(); !have[k] {
				have[k] = true
				out = append(out, c)
			}
		}
		var add []con
		rest := guarded[:0]
		for _, g := range guarded {
			if hasVal(out, g.guard, g.gval) || (g.flag() && hasVal(flags[g.guard], g.guard, g.gval)) {
				pool = append(pool, g.con)
			} else {
				rest = append(rest, g)
			}
		}
		guarded = rest
		for _, c := range pool {
			if have[c.key()] {
				continue
			}
			_, possible, _ := c.norm()
			hit := !possible
			for _, t := range c.l.t {
				if in[t.a] {
					hit = true
				}
				if len(c.l.t) == 1 && t.a.hasLo && t.a.hasHi && t.a.hi == 1 && t.a.lo == 0 {
					// a flag decided together with a value
					if o := originOf(t.a.v); o != nil && from[atomKey{fr: t.a.fr, v: o}] {
						hit = true
					}
					if _, ok := t.a.v.(*ssa.Phi); ok && e.wide && t.a.fr == p.fr {
						hit = true
					}
				}
				if e.wide && t.a.kind == aRead && len(t.a.idx.t) > 0 && in[t.a.idx.t[0].a] && (len(t.a.idx.t) == 1 || in[t.a.idx.t[1].a]) {
					hit = true
				}
				if cl, ok := t.a.v.(*ssa.Call); ok && e.wide && len(c.l.t) == 1 && t.a.hasHi && t.a.hi == 1 {
					// a test of a byte that matters
					for _, arg := range cl.Call.Args {
						if !integerType(arg.Type()) {
							continue
						}
						for _, u := range e.val(t.a.fr, arg).t {
							hit = hit || in[u.a]
							for _, w := range u.a.idx.t {
								hit = hit || in[w.a]
							}
						}
					}
				}
				if e.wider && t.a.fr == p.fr {
					// what joins bring together
					for _, u := range append([]term1{t}, t.a.idx.t...) {
						if o := originOf(u.a.v); o != nil && u.a.fr == p.fr && from[atomKey{fr: u.a.fr, v: o}] {
							hit = true
						}
					}
				}
				if t.a.kind == aRead {
					// a byte matters when another byte of the same text does
					for a := range in {
						if a.kind == aRead && a.v == t.a.v && a.fr == t.a.fr {
							hit = true
						}
					}
				}
			}
			if hit {
				have[c.key()] = true
				add = append(add, c)
			}
		}
		if len(add) == 0 {
			break
		}
		for _, c := range add {
			out = append(out, c)
			grow(c)
		}
	}
	return out
}

// originOf is the call or join that gives a value together with others.
func originOf(v mval) mval {
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple
	case *ssa.Phi:
		return x.Block()
	case *memPhi:
		return x.block
	case *memHavoc:
		if c, ok := x.in.(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

// clauses uses what was refuted at the joins the point lies behind: when all but one of the constraints hold,
// the last one does not.
func (e *back) clauses(full []con, p bpos) []con {
	in := map[*atom]bool{}
	for _, a := range atomsOf(full, false) {
		in[a] = true
	}
	try := func(h []con, i int) {
		var open []con
		for _, c := range h {
			for _, t := range c.l.t {
				if !in[t.a] {
					return
				}
			}
		}
		for _, c := range h {
			if !e.implied(full, []con{c}) {
				if open = append(open, c); len(open) > 1 {
					return
				}
			}
		}
		if len(open) == 1 {
			n := open[0].neg()
			if len(n) != 1 {
				return
			}
			for _, c := range full {
				if c.key() == n[0].key() {
					return
				}
			}
			n[0].goal = true
			full = append(full, n[0])
			if i >= 0 && i < e.minHyp {
				e.minHyp = i
			}
		}
	}
	for f, b := p.fr, p.b; f != nil; {
		for i := len(e.hyps) - 1; i >= 0; i-- {
			if h := e.hyps[i]; h.fr == f && h.b != nil && h.b.Dominates(b) {
				try(h.cons, i)
			}
		}
		if f.up == nil {
			break
		}
		b = f.call.Block()
		f = f.up
	}
	return full
}

func hasGoal(cs []con) bool {
	for _, c := range cs {
		if c.goal {
			return true
		}
	}
	return false
}

func (e *back) log(f string, a ...interface{}) {
	if e.trace {
		fmt.Printf("%s"+f+"\n", append([]interface{}{strings.Repeat(" ", e.depth)}, a...)...)
	}
}

const maxDepth = 60

// refute shows that the constraints cannot all hold at p.
func (e *back) refute(p bpos, cs []con) bool {
	e.nRefute++
	e.fuel--
	if e.fuel < 0 {
		e.why = "the analysis gave up (budget)"
		return false
	}
	e.depth++
	defer func() { e.depth-- }()
	if n, ok := normAll(cs); !ok {
		return true
	} else {
		cs = n
	}
	if !hasGoal(cs) {
		// what was chased holds here: the way itself has to be impossible
		cs = append([]con(nil), cs...)
		for i := range cs {
			cs[i].goal = true
		}
	}
	full := e.with(cs, p)
	if e.useClauses {
		full = e.clauses(full, p)
	}
	if e.unsat(full) {
		if e.trace {
			e.log("%s contradiction: %s", p, consString(cs))
		}
		return true
	}
	full = differ(full)
	if e.depth > maxDepth {
		return false
	}
	key := fmt.Sprintf("%d|%d|%d|%s", p.fr.id, p.b.Index, p.at, consKey(cs))
	if e.failed[key] {
		return false
	}
	if e.trace {
		e.log("%s %s", p, consString(cs))
	}
	for _, c := range e.candidates(p, cs, full) {
		if c.try() {
			return true
		}
		if e.fuel < 0 {
			return false
		}
	}
	e.failed[key] = true
	if e.trace {
		e.log("%s STUCK %s", p, consString(cs))
	}
	return false
}

// differ: places of one text with different bytes are not the same place.
func differ(cs []con) []con {
	type known struct {
		a *atom
		c int64
	}
	var reads []known
	for _, c := range cs {
		if c.op == cEQ && len(c.l.t) == 1 && c.l.t[0].a.kind == aRead && (c.l.t[0].k == 1 || c.l.t[0].k == -1) {
			reads = append(reads, known{c.l.t[0].a, -c.l.c * c.l.t[0].k})
		}
	}
	for i, x := range reads {
		for _, y := range reads[i+1:] {
			if x.a.v != y.a.v || x.a.fr != y.a.fr || x.c == y.c {
				continue
			}
			d := x.a.idx.add(y.a.idx, -1)
			if d.isConst() {
				continue
			}
			for j, c := range cs {
				if c.op != cLE {
					continue
				}
				e1, e2 := c.l.add(d, -1), c.l.add(d, 1)
				if e1.isConst() && e1.c == 0 || e2.isConst() && e2.c == 0 {
					out := append([]con(nil), cs...)
					out[j].l = c.l.plus(1)
					cs = out
				}
			}
		}
	}
	return cs
}

type bcand struct {
	rank  int
	pos   bpos
	call  *ssa.Call
	havoc bool
	join  *ssa.BasicBlock
	try   func() bool
	name  string
}

// candidates lists the places the constraints can be carried back to.
func (e *back) candidates(p bpos, cs, full []con) []bcand {
	var out []bcand
	seen := map[string]bool{}
	addJoin := func(b *ssa.BasicBlock, rank int) {
		k := fmt.Sprintf("j%d", b.Index)
		if seen[k] || len(b.Preds) < 2 {
			return
		}
		seen[k] = true
		jp := bpos{p.fr, b, 0}
		out = append(out, bcand{rank: rank, join: b, pos: jp, name: k, try: func() bool { return e.tryJoin(jp, full) }})
	}
	addCall := func(c *ssa.Call, rank int) {
		k := fmt.Sprintf("c%p", c)
		if seen[k] {
			return
		}
		seen[k] = true
		g := c.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || g.Package() != e.p.SSA || p.fr.occurs(g) >= 2 || p.fr.depth > 7 {
			return
		}
		cp := bpos{p.fr, c.Block(), indexIn(c) + 1}
		out = append(out, bcand{rank: rank, call: c, pos: cp, name: k, try: func() bool { return e.tryCall(cp, c, full) || e.tryStores(cp, c, full) }})
	}
	origin := func(a *atom, rank int) {
		if a.fr != p.fr {
			return
		}
		switch x := a.v.(type) {
		case *ssa.Phi:
			if x.Block() == p.b || x.Block().Dominates(p.b) {
				addJoin(x.Block(), rank)
			}
		case *memPhi:
			if x.block == p.b || x.block.Dominates(p.b) {
				addJoin(x.block, rank)
			}
		case *ssa.Call:
			addCall(x, rank)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				addCall(c, rank)
			}
		case *memHavoc:
			if c, ok := x.in.(*ssa.Call); ok {
				addCall(c, rank)
			}
		}
	}
	var goal, side []con
	for _, c := range full {
		if c.goal {
			goal = append(goal, c)
		} else {
			side = append(side, c)
		}
	}
	gatoms := atomsOf(goal, true)
	gset := map[*atom]bool{}
	for _, a := range gatoms {
		gset[a] = true
		origin(a, 0)
	}
	// atoms the facts tie to the goal
	near := map[*atom]bool{}
	for _, c := range side {
		hit := false
		for _, t := range c.l.t {
			if gset[t.a] {
				hit = true
			}
		}
		if hit {
			for _, a := range atomsOf([]con{c}, true) {
				near[a] = true
			}
		}
	}
	for _, a := range sortedAtoms(near) {
		origin(a, 1)
	}
	// what the constraints we carry speak of
	for _, a := range atomsOf(cs, true) {
		origin(a, 2)
	}
	// flags that are known here
	for _, c := range side {
		if c.op == cEQ && len(c.l.t) == 1 {
			a := c.l.t[0].a
			if a.kind == aVal && a.hasHi && a.hi == 1 || a.kind == aNN {
				r := 3
				if _, ok := a.v.(*ssa.Call); ok && e.wider {
					r = -1
				}
				origin(a, r)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].rank != out[j].rank {
			return out[i].rank < out[j].rank
		}
		// the latest first
		a, b := out[i].pos, out[j].pos
		if a.b == b.b {
			return a.at > b.at
		}
		if a.b.Dominates(b.b) {
			return false
		}
		if b.b.Dominates(a.b) {
			return true
		}
		return a.b.Index > b.b.Index
	})
	for _, c := range full {
		if c.op == cNE && len(c.l.t) > 1 {
			hit := c.goal
			for _, t := range c.l.t {
				hit = hit || gset[t.a]
			}
			if c := c; hit {
				out = append(out, bcand{name: "split", try: func() bool { return e.trySplit(p, cs, c) }})
			}
		}
	}
	out = append(out, bcand{name: "entry", try: func() bool { return e.tryEntry(p, full) }})
	// other joins on the way, for conditions that only a case distinction decides
	var rest []bcand
	keep := out
	out = nil
	for x := p.b; x != nil; x = x.Idom() {
		if !loopHead(x) {
			addJoin(x, 5)
		}
	}
	rest = out
	if len(rest) > 2 {
		rest = rest[:2]
	}
	return append(keep, rest...)
}

func loopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func sortedAtoms(m map[*atom]bool) []*atom {
	var out []*atom
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// weaken proposes sets of constraints, each implied by what is known, to carry on with: few first.
func (e *back) weaken(at bpos, proj []con, own func(a *atom) bool) [][]con {
	var goal, side []con
	facts := map[string]bool{}
	for _, c := range e.blockFacts(at.fr, at.b, at.at) {
		facts[c.key()] = true
	}
	for _, c := range proj {
		if c.goal {
			goal = append(goal, c)
		} else if !facts[c.key()] {
			side = append(side, c)
		}
	}
	if len(goal) == 0 {
		if len(side) > 8 {
			return nil
		}
		goal, side = side, nil
		for i := range goal {
			goal[i].goal = true
		}
	}
	if len(goal) == 0 {
		return nil
	}
	sort.SliceStable(goal, func(i, j int) bool { return len(goal[i].l.t) < len(goal[j].l.t) })
	var flags []con
	for _, c := range side {
		if c.op == cEQ && len(c.l.t) == 1 && c.l.t[0].a.hasHi && c.l.t[0].a.hi == 1 {
			flags = append(flags, c)
		}
	}
	var out [][]con
	seen := map[string]bool{}
	put := func(cs ...con) {
		// side conditions may be dropped, they are not what is chased; in the new set all are
		set := append([]con(nil), cs...)
		k := consKey(set)
		if !seen[k] && len(set) > 0 {
			seen[k] = true
			out = append(out, set)
		}
	}
	for _, g := range goal {
		put(g)
	}
	if len(goal) > 1 {
		put(goal...)
	}
	var connected []con
	in := map[*atom]bool{}
	for _, a := range atomsOf(goal, true) {
		in[a] = true
	}
	for _, c := range side {
		for _, t := range c.l.t {
			if in[t.a] {
				connected = append(connected, c)
				break
			}
		}
	}
	for _, g := range goal {
		for _, f := range flags {
			put(g, f)
		}
	}
	for _, g := range goal {
		if len(flags) > 1 {
			put(append([]con{g}, flags...)...)
		}
		for _, c := range connected {
			put(g, c)
		}
	}
	if len(connected)+len(flags) > 0 {
		put(append(append(append([]con(nil), goal...), flags...), connected...)...)
	}
	if e.wide {
		// what is known of the bytes there
		set, some := append([]con(nil), goal...), false
		for _, c := range side {
			for _, t := range c.l.t {
				if t.a.kind == aRead && c.op == cEQ {
					for _, u := range t.a.idx.t {
						if in[u.a] && !(loopHead(at.b) && at.at == 0 && own(u.a)) {
							set, some = append(set, c), true
						}
					}
				}
			}
		}
		if some {
			for _, c := range connected {
				if c.op == cLE && len(c.l.t) == 1 {
					set = append(set, c)
				}
			}
			// first
			put(set...)
			out = append(out[len(out)-1:], out[:len(out)-1]...)
		}
	}
	put(append(append([]con(nil), goal...), side...)...)
	if loopHead(at.b) && at.at == 0 {
		// measured against another bound that stays the same in the loop
		for _, g := range goal {
			if g.op != cLE || len(g.l.t) != 1 || !isPhiOf(g.l.t[0].a.v, at.b) {
				continue
			}
			for _, f := range proj {
				if f.op != cLE || len(f.l.t) != 1 || f.l.t[0].a == g.l.t[0].a || isPhiOf(f.l.t[0].a.v, at.b) || f.l.t[0].k*g.l.t[0].k > 0 || f.l.t[0].a.kind != aVal {
					continue
				}
				sum := con{l: g.l.add(f.l, 1), op: cLE, goal: true}
				set := []con{sum}
				for _, c := range proj {
					for _, t := range c.l.t {
						if t.a == f.l.t[0].a || t.a.kind == aRead && mentions(t.a, f.l.t[0].a) {
							set = append(set, c)
							break
						}
					}
				}
				put(set...)
			}
		}
	}
	if e.wider {
		// much first
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// markGoal: at most the first constraints are chased; when there is none left, all are.
func (e *back) implied(have []con, want []con) bool {
	for _, c := range want {
		for _, n := range c.neg() {
			if !e.unsat(append(append([]con(nil), have...), n)) {
				return false
			}
		}
	}
	return true
}

// known: the constraints are refuted at b by an open or closed induction.
func (e *back) known(fr *bframe, b *ssa.BasicBlock, cs []con) bool {
	full := cs
	if b != nil {
		full = e.with(cs, bpos{fr, b, 0})
	}
	for _, pr := range e.proven[atomKey{fr: fr, v: b}] {
		if e.implied(full, pr) {
			return true
		}
	}
	for i := len(e.hyps) - 1; i >= 0; i-- {
		h := e.hyps[i]
		if h.fr == fr && h.b == b && e.implied(full, h.cons) {
			if i < e.minHyp {
				e.minHyp = i
			}
			return true
		}
	}
	return false
}

func (e *back) tryJoin(jp bpos, full []con) bool {
	proj, ok := e.project(full, func(a *atom) bool { return e.availAt(a, jp) })
	if !ok {
		return true
	}
	own := func(a *atom) bool { return isPhiOf(a.v, jp.b) }
	if e.trace {
		e.log("J b%d full: %s", jp.b.Index, consString(full))
	}
	if e.trace {
		e.log("J b%d proj: %s", jp.b.Index, consString(proj))
	}
	for _, g := range e.weaken(jp, proj, own) {
		if e.atJoin(jp, g) {
			return true
		}
		if e.fuel < 0 {
			return false
		}
	}
	return false
}

// trySplit tells the two ways apart in which two numbers differ.
func (e *back) trySplit(p bpos, cs []con, ne con) bool {
	var rest []con
	for _, c := range cs {
		if c.key() != ne.key() {
			rest = append(rest, c)
		}
	}
	for _, k := range []int64{1, -1} {
		side := con{l: ne.l.scale(k).plus(1), op: cLE, goal: true}
		for _, c := range cs {
			if c.op == cLE {
				if d := c.l.add(side.l, -1); d.isConst() {
					return false // known already
				}
			}
		}
		if !e.refute(p, append(append([]con(nil), rest...), side)) {
			return false
		}
	}
	return true
}

func isPhiOf(v mval, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == b
	case *memPhi:
		return x.block == b
	}
	return false
}

func (e *back) atJoin(jp bpos, cs []con) bool {
	if e.known(jp.fr, jp.b, cs) {
		if e.trace {
			e.log("%s known: %s", jp, consString(cs))
		}
		return true
	}
	fk := fmt.Sprintf("J%d|%d|%s", jp.fr.id, jp.b.Index, consKey(cs))
	if e.failed[fk] {
		return false
	}
	// the same join may not be under way with ever new constraints
	n, like := 0, 0
	sk := shapeKey(cs)
	for _, h := range e.hyps {
		if h.fr == jp.fr && h.b == jp.b {
			n++
			if shapeKey(h.cons) == sk {
				like++
			}
		}
	}
	if n >= 5 || like >= 2 {
		return false
	}
	return e.induct(bhyp{jp.fr, jp.b, cs}, fk, func() bool {
		for i, pr := range jp.b.Preds {
			sub := e.overEdge(jp.fr, jp.b, i, cs)
			if !e.refute(endOf(jp.fr, pr), sub) {
				return false
			}
		}
		return true
	})
}

// shapeKey is the same for constraints that differ in constants only.
func shapeKey(cs []con) string {
	out := append([]con(nil), cs...)
	for i := range out {
		out[i].l.c = 0
	}
	return consKey(out)
}

// overEdge: the constraints at the end of predecessor i.
func (e *back) overEdge(fr *bframe, b *ssa.BasicBlock, i int, cs []con) []con {
	out := e.byValue(cs, func(f *bframe, v mval) (*bframe, mval, bool) {
		if f != fr {
			return nil, nil, false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == b {
				return fr, x.Edges[i], true
			}
		case *memPhi:
			if x.block == b {
				return fr, x.inc[i], true
			}
		}
		return nil, nil, false
	})
	pr := b.Preds[i]
	ambiguous := len(pr.Succs) == 2 && pr.Succs[0] == pr.Succs[1]
	if !ambiguous {
		out = append(out, e.edgeFacts(fr, pr, b)...)
	}
	return out
}

func (e *back) induct(h bhyp, fk string, f func() bool) bool {
	e.hyps = append(e.hyps, h)
	lvl := len(e.hyps) - 1
	saved := e.minHyp
	e.minHyp = 1 << 30
	ok := f()
	e.hyps = e.hyps[:lvl]
	used := e.minHyp
	e.minHyp = saved
	if ok {
		if used >= lvl {
			k := atomKey{fr: h.fr, v: h.b}
			e.proven[k] = append(e.proven[k], h.cons)
		} else if used < e.minHyp {
			e.minHyp = used
		}
		return true
	}
	e.failed[fk] = true
	return false
}

// tryCall carries the constraints into a called function: they are to be refuted at each of its returns.
func (e *back) tryCall(cp bpos, c *ssa.Call, full []con) bool {
	proj, ok := e.project(full, func(a *atom) bool { return a.fr == cp.fr && resultOf(a.v, c) || e.availAt(a, cp) })
	if !ok {
		return true
	}
	for _, g := range e.weaken(bpos{cp.fr, cp.b, cp.at - 1}, proj, func(a *atom) bool { return resultOf(a.v, c) }) {
		mentions := false
		for _, a := range atomsOf(g, true) {
			if a.fr == cp.fr && resultOf(a.v, c) {
				mentions = true
			}
		}
		if !mentions {
			continue
		}
		if e.intoCall(cp, c, g) {
			return true
		}
		if e.fuel < 0 {
			return false
		}
	}
	return false
}

// tryStores: a field holds, after a call, what it held before or what one of the stores to it in the functions
// called puts there.
func (e *back) tryStores(cp bpos, c *ssa.Call, full []con) bool {
	g := c.Call.StaticCallee()
	cells := map[mval]*memHavoc{}
	var order []mval
	for _, a := range atomsOf(full, true) {
		if h, ok := a.v.(*memHavoc); ok && a.fr == cp.fr && h.in == ssa.Instruction(c) && h.cell.st != nil && cells[a.v] == nil {
			cells[a.v] = h
			order = append(order, a.v)
		}
	}
	for _, v := range order {
		h := cells[v]
		stores, ok := e.storesTo(g, h.cell.st, h.cell.field)
		if !ok {
			continue
		}
		// one of the stores
		proj, ok := e.project(full, func(a *atom) bool { return a.fr == cp.fr && a.v == v && a.kind != aRead })
		if !ok {
			return true
		}
		for i := range proj {
			proj[i].goal = true
		}
		if len(proj) == 0 {
			continue
		}
		all := true
		for _, st := range stores {
			fr2 := e.root(st.Parent())
			sub := e.byValue(proj, func(f *bframe, w mval) (*bframe, mval, bool) {
				if f == cp.fr && w == v {
					return fr2, st.Val, true
				}
				return nil, nil, false
			})
			if !e.refute(bpos{fr2, st.Block(), indexIn(st)}, sub) {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		// as before the call
		was := e.m.at(h.cell, c.Block(), indexIn(c))
		before, ok := e.project(full, func(a *atom) bool {
			return a.fr == cp.fr && a.v == v || e.availAt(a, bpos{cp.fr, cp.b, cp.at - 1})
		})
		if !ok {
			return true
		}
		sub := e.byValue(before, func(f *bframe, w mval) (*bframe, mval, bool) {
			if f == cp.fr && w == v {
				return cp.fr, was, true
			}
			return nil, nil, false
		})
		if e.refute(bpos{cp.fr, cp.b, cp.at - 1}, sub) {
			return true
		}
	}
	return false
}

// storesTo lists the stores to a field in the functions that g may run; not ok when it can change in another way.
func (e *back) storesTo(g *ssa.Function, st types.Type, field int) ([]*ssa.Store, bool) {
	var out []*ssa.Store
	for f := range e.p.mayRun([]*ssa.Function{g}) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if types.Identical(x.Val.Type(), st) {
						return nil, false
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == field && types.Identical(derefType(fa.X.Type()), st) {
						out = append(out, x)
					}
				case *ssa.FieldAddr:
					if x.Field != field || !types.Identical(derefType(x.X.Type()), st) {
						continue
					}
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != ssa.Value(x) {
								return nil, false
							}
						default:
							return nil, false
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out, true
}

func resultOf(v mval, c *ssa.Call) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return x == c
	case *ssa.Extract:
		return x.Tuple == ssa.Value(c)
	case *memHavoc:
		return x.in == ssa.Instruction(c)
	}
	return false
}

func (e *back) intoCall(cp bpos, c *ssa.Call, cs []con) bool {
	fk := fmt.Sprintf("C%d|%p|%s", cp.fr.id, c, consKey(cs))
	if e.failed[fk] {
		return false
	}
	g := c.Call.StaticCallee()
	fr2 := e.frame(g, cp.fr, c)
	n := 0
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		bad := false
		sub := e.byValue(cs, func(f *bframe, v mval) (*bframe, mval, bool) {
			if f != cp.fr {
				return nil, nil, false
			}
			switch x := v.(type) {
			case *ssa.Call:
				if x == c && len(ret.Results) == 1 {
					return fr2, ret.Results[0], true
				}
			case *ssa.Extract:
				if x.Tuple == ssa.Value(c) {
					return fr2, ret.Results[x.Index], true
				}
			case *memHavoc:
				if x.in == ssa.Instruction(c) {
					if f3, m, ok := e.cellAtReturn(cp.fr, fr2, x, ret); ok {
						return f3, m, true
					}
					bad = true
				}
			}
			return nil, nil, false
		})
		if bad {
			return false
		}
		if !e.refute(bpos{fr2, b, len(b.Instrs)}, sub) {
			e.failed[fk] = true
			return false
		}
	}
	return n > 0
}

// cellAtReturn: what a cell the call may have changed holds when the callee returns.
func (e *back) cellAtReturn(fr, fr2 *bframe, h *memHavoc, ret *ssa.Return) (*bframe, mval, bool) {
	c := h.in.(*ssa.Call)
	var base mval
	for i, prm := range fr2.fn.Params {
		if i < len(c.Call.Args) && e.m.canon(c.Call.Args[i]) == h.cell.base {
			base = prm
		}
	}
	if base == nil {
		for i, r := range ret.Results {
			if x, ok := h.cell.base.(*ssa.Extract); ok && x.Tuple == ssa.Value(c) && x.Index == i {
				base = e.m.canon(r)
			}
			if h.cell.base == mval(c) && len(ret.Results) == 1 {
				base = e.m.canon(r)
			}
		}
	}
	if base == nil {
		return nil, nil, false
	}
	return fr2, e.m.at(cellKey{base, h.cell.st, h.cell.field}, ret.Block(), len(ret.Block().Instrs)), true
}

// tryEntry carries the constraints to the beginning of the function, and from there to its callers.
func (e *back) tryEntry(p bpos, full []con) bool {
	fr := p.fr
	ep := bpos{fr, fr.fn.Blocks[0], 0}
	if fr.up != nil {
		cp := bpos{fr.up, fr.call.Block(), indexIn(fr.call)}
		proj, ok := e.project(full, func(a *atom) bool { return a.fr != fr && a.fr != nil && inFrame(a.fr, fr) && e.availAt(a, cp) })
		if !ok {
			return true
		}
		for _, g := range e.weaken(cp, proj, func(*atom) bool { return true }) {
			if e.refute(cp, g) {
				return true
			}
			if e.fuel < 0 {
				return false
			}
		}
		return false
	}
	proj, ok := e.project(full, func(a *atom) bool { return a.fr == fr && e.definedBefore(a.v, ep.b, 0) && !isPhiOf(a.v, ep.b) })
	if !ok {
		return true
	}
	if e.noUp || e.api[fr.fn] || e.taken[fr.fn] || fr.fn.Parent() != nil {
		// called with anything
		return false
	}
	calls := e.callers[fr.fn]
	if len(calls) == 0 {
		return false
	}
	for _, g := range e.weaken(ep, proj, func(*atom) bool { return true }) {
		if e.atEntry(fr, g) {
			return true
		}
		if e.fuel < 0 {
			return false
		}
	}
	return false
}

func (e *back) atEntry(fr *bframe, cs []con) bool {
	if e.known(fr, nil, cs) {
		return true
	}
	fk := fmt.Sprintf("E%d|%s", fr.id, consKey(cs))
	if e.failed[fk] {
		return false
	}
	return e.induct(bhyp{fr, nil, cs}, fk, func() bool {
		for _, c := range e.callers[fr.fn] {
			h := e.root(c.Parent())
			fr2 := e.frame(fr.fn, h, c)
			sub := e.byValue(cs, func(f *bframe, v mval) (*bframe, mval, bool) {
				if f != fr {
					return nil, nil, false
				}
				switch v.(type) {
				case *ssa.Parameter, *memInit:
					return fr2, v, true
				}
				return nil, nil, false
			})
			if !e.refute(bpos{h, c.Block(), indexIn(c)}, sub) {
				return false
			}
		}
		return true
	})
}

// mode is a way to search.
type mode struct {
	up, wide, wider, clauses bool
	div                      int
	last                     bool // only of use when an earlier one gave up
}

var modes = []mode{
	{div: 4}, {div: 4, up: true}, {div: 4, wide: true}, {div: 4, wide: true, up: true},
	{div: 4, clauses: true}, {div: 4, clauses: true, up: true}, {div: 4, clauses: true, wide: true}, {div: 4, clauses: true, wide: true, up: true},
	{div: 2, wide: true, wider: true}, {div: 2, wide: true, wider: true, clauses: true},
	{div: 1, last: true}, {div: 1, up: true, last: true}, {div: 1, wide: true, last: true}, {div: 1, wide: true, up: true, last: true},
	{div: 1, clauses: true, last: true}, {div: 1, clauses: true, up: true, last: true}, {div: 1, clauses: true, wide: true, last: true}, {div: 1, clauses: true, wide: true, up: true, last: true},
}

// prove shows that none of the conditions can hold before instruction in.
func (e *back) prove(in ssa.Instruction, bad []con, budget int) (bool, string) {
	fr := e.root(in.Parent())
	for _, c := range bad {
		c.goal = true
		ok, gaveUp := false, false
		e.gaveUp = false
		for k, m := range modes {
			if m.last && !gaveUp && k > 0 {
				break
			}
			e.noUp, e.wide, e.wider, e.useClauses = !m.up, m.wide, m.wider, m.clauses
			e.fuel = budget / m.div
			if e.trace {
				e.log("MODE %+v", m)
			}
			e.failed = map[string]bool{}
			e.hyps = nil
			e.minHyp = 1 << 30
			e.why = ""
			if ok = e.refute(bpos{fr, in.Block(), indexIn(in)}, []con{c}); ok {
				break
			}
			gaveUp = gaveUp || e.fuel < 0
		}
		if !ok {
			e.gaveUp = gaveUp
			return false, c.String() + noteIf(e.why != "", "; "+e.why)
		}
	}
	return true, ""
}
