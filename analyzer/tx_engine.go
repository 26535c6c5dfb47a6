package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// tdrv is a specification: what texts there are and what has to be done with them.
type tdrv struct {
	name     string
	init     func(e *teng) []*tstate
	gen      func(st *tstate)                 // makes the next byte, by forking
	callback func(st *tstate, args []*tv) *tv // a call of the caller's function
	append   func(st *tstate, id int, v *tv)  // v is appended to output id
	mapSet   func(st *tstate, m, k, v *tv)
	ret      func(st *tstate, res []*tv)                                //
	call     func(st *tstate, fn *ssa.Function, args []*tv) (*tv, bool) // calls that are not followed
	textIs   func(st *tstate, a *tv, q int, lo, hi lx, front bool) bool // is a the text lo..hi (or the front of it)
	sameLen  func(st *tstate, d lx) (bool, bool)                        // decides about a length the specification knows
	kind     byte
	counters map[string]int
	load     func(st *tstate, c *tcell, name string) *tv
	cut      func(st *tstate, id int, hi lx) bool // takes the end of an output away
	coarseAt int                                  // up to where the length of an output matters
	lists    bool                                 // texts are lists of anything but bytes
	steps    bool
	first    bool // the first byte of a value matters to the caller
	coarse   bool // of the length of an output matters only whether it is zero
	far      bool // numbers are few: it may compare them with larger ones
	ahead    bool // the text is made further than where the program is
}

type tfail struct {
	where string
	msg   string
	trail []string
}

// teng explores the states of a function together with a specification.
type teng struct {
	p      *Program
	pos    *posClasses
	drv    *tdrv
	nsym   int
	ncell  int
	nobj   int
	lives  map[*ssa.Function]*liveInfo
	fails  []tfail
	und    map[string]int
	seen   map[string]bool
	mask   map[string][]*maskRec
	work   []*tstate
	nst    int
	max    int
	until  time.Time
	makers map[*ssa.Function]int
	cmps   map[*ssa.BasicBlock]*cmpLoop
	ends   map[string]int
	debug  bool
	ends2  bool // the positions being looked at are ends of a text
}

type maskRec struct {
	nums []int
}

func (e *teng) counter(n string) bool   { _, ok := e.drv.counters[n]; return ok }
func (e *teng) counterCap(n string) int { return e.drv.counters[n] }

type txFork struct{ l []*tstate }
type txUnd struct{ why string }
type txStop struct{}

func und(f string, a ...interface{}) { panic(txUnd{fmt.Sprintf(f, a...)}) }

// fork replaces the state by variants of it; the instruction is done again in each.
func (st *tstate) fork(alts ...func(*tstate) bool) {
	var l []*tstate
	for _, a := range alts {
		c := st.clone()
		if a(c) {
			l = append(l, c)
		}
	}
	panic(txFork{l})
}

func (st *tstate) where() string {
	f := st.top()
	pos := token.NoPos
	if f.i < len(f.b.Instrs) {
		pos = f.b.Instrs[f.i].Pos()
		for j := f.i; j >= 0 && !pos.IsValid(); j-- {
			pos = f.b.Instrs[j].Pos()
		}
	}
	return fmt.Sprintf("%s (%s)", f.fn.Name(), st.e.p.pos(pos))
}

func (st *tstate) fail(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if st.imp != "" {
		und("%s, but %s", msg, st.imp)
	}
	var tr []string
	for t := st.trail; t != nil; t = t.up {
		tr = append(tr, t.txt)
	}
	for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
		tr[i], tr[j] = tr[j], tr[i]
	}
	st.e.fails = append(st.e.fails, tfail{st.where(), msg, append(tr, "text: "+st.show())})
	panic(txStop{})
}

// show writes the text of a state.
func (st *tstate) show() string {
	var sb strings.Builder
	for qi, q := range st.seqs {
		if qi > 0 {
			sb.WriteString(" | ")
		}
		for _, c := range q.cells {
			names := map[byte]string{'w': "spaces", 's': "string", 'S': "string", 'B': "\\\\pairs", 'n': "scalar", 'd': "nested", 'o': "elements", 'g': "...", 'P': "prefix", 'Q': "suffix", 'u': "string", 'q': "..."}
			l := c.set.list()
			switch {
			case c.kind == 'g':
				sb.WriteString("…")
			case !c.run && len(l) == 1:
				sb.WriteByte(byte(l[0]))
			case !c.run:
				n := names[c.kind]
				if n == "" {
					n = "char"
				}
				fmt.Fprintf(&sb, "<%s>", n)
			default:
				fmt.Fprintf(&sb, "<%s:%s>", names[c.kind], st.lxs(c.n))
			}
		}
	}
	return sb.String()
}

func (st *tstate) lxs(e lx) string {
	s := ""
	for _, t := range e.t {
		if t.k != 1 {
			s += fmt.Sprintf("%+d*", t.k)
		} else {
			s += "+"
		}
		s += fmt.Sprintf("n%d(≥%d)", t.s, st.min[t.s])
	}
	if e.c != 0 || s == "" {
		s += fmt.Sprintf("%+d", e.c)
	}
	return strings.TrimPrefix(s, "+")
}

// split makes a step towards deciding about e.
func (st *tstate) split(e lx) {
	for _, t := range e.t {
		for _, q := range st.seqs {
			for _, c := range q.cells {
				if c.kind == 'g' && c.n.coef(t.s) != 0 {
					st.e.drv.gen(st)
					und("generator did not fork")
				}
			}
		}
	}
	if len(e.t) > 1 {
		up, down := 0, 0
		for _, t := range e.t {
			if st.loose[t.s] {
				und("compares numbers that are not known: %s", st.lxs(e))
			}
			if t.k > 0 {
				up++
			} else {
				down++
			}
		}
		if up > 0 && down > 0 {
			und("compares lengths that are not known: %s", st.lxs(e))
		}
	}
	for _, t := range e.t {
		if st.loose[t.s] {
			und("compares a number that is not known: %s", st.lxs(e))
		}
		if (e.c > 40 || e.c < -40) && !(st.e.drv.far && e.c < 1100 && e.c > -1100) {
			und("compares a length with a large number")
		}
		st.splitMin(t.s)
	}
}

func (st *tstate) splitMin(s int) {
	st.fork(func(c *tstate) bool {
		c.replaceSym(s, lc(c.min[s]))
		return c.neOK()
	}, func(c *tstate) bool {
		c.min[s]++
		return true
	})
}

// neOK: none of the things known not to be zero is zero.
func (st *tstate) neOK() bool {
	for _, x := range st.ne {
		if x.con() && x.c == 0 {
			return false
		}
	}
	return true
}

func (st *tstate) less(a, b lx) bool {
	d := a.sub(b)
	lo, lok, hi, hok := st.bounds(d)
	if hok && hi < 0 {
		return true
	}
	if lok && lo >= 0 {
		return false
	}
	st.split(d)
	return false
}

func (st *tstate) equal(a, b lx) bool {
	d := a.sub(b)
	if d.con() {
		return d.c == 0
	}
	lo, lok, hi, hok := st.bounds(d)
	if hok && hi < 0 || lok && lo > 0 {
		return false
	}
	if st.e.drv.sameLen != nil {
		if v, ok := st.e.drv.sameLen(st, d); ok {
			return v
		}
	}
	if st.knownNonzero(d) {
		return false
	}
	// parity
	if d.c%2 != 0 {
		even := true
		for _, t := range d.t {
			even = even && t.k%2 == 0
		}
		if even {
			return false
		}
	}
	for _, t := range d.t {
		for _, q := range st.seqs {
			for _, c := range q.cells {
				if c.kind == 'g' && c.n.coef(t.s) != 0 {
					st.e.drv.gen(st)
				}
			}
		}
	}
	for _, t := range d.t {
		if st.loose[t.s] && (t.k == 1 || t.k == -1) {
			s := t.s
			e := d.add(ls(s), -t.k) // d = k*s + e = 0
			if t.k == 1 {
				e = lc(0).sub(e)
			}
			st.fork(func(c *tstate) bool {
				c.replaceSym(s, e)
				return c.neOK()
			}, func(c *tstate) bool {
				c.ne = append(c.ne, d)
				return true
			})
		}
	}
	if len(d.t) > 1 {
		up, down := 0, 0
		for _, t := range d.t {
			if t.k > 0 {
				up++
			} else {
				down++
			}
		}
		if up > 0 && down > 0 {
			// two lengths may be the same or not
			for _, t := range d.t {
				if t.k == 1 || t.k == -1 {
					s := t.s
					e := d.add(ls(s), -t.k)
					if t.k == 1 {
						e = lc(0).sub(e)
					}
					ok := e.c >= st.min[s]
					for _, r := range e.t {
						ok = ok && r.k > 0 && st.min[r.s] >= 0
					}
					if ok {
						st.fork(func(c *tstate) bool {
							c.replaceSym(s, e)
							return c.neOK()
						}, func(c *tstate) bool {
							c.ne = append(c.ne, d)
							return true
						})
					}
				}
			}
		}
	}
	st.split(d)
	return false
}

// byteAt finds the cell at a position; it splits runs and makes new text as needed.
func (st *tstate) byteAt(q int, pos lx) *tcell {
	pre := lc(0)
	cells := st.seqs[q].cells
	for j, c := range cells {
		d := pos.sub(pre)
		if d.con() && d.c < 0 {
			und("reads before a run it knows nothing about")
		}
		if !c.run {
			if d.con() && d.c == 0 {
				if c.set == bAny && (c.kind == 'd' || c.kind == 'o' || c.kind == 'S') {
					und("it reads a part of the text again that is known in outline only")
				}
				return c
			}
			pre = pre.plus(1)
			continue
		}
		if d.con() {
			if c.kind == 'g' {
				if d.c == 0 || true {
					st.e.drv.gen(st)
				}
			}
			// from the front: is the run long enough?
			if st.less(lc(d.c), c.n) {
				st.takeFront(q, j, d.c)
			}
			// it is not: its length is at most d.c
			lo, _, hi, hok := st.bounds(c.n)
			if hok && lo == hi {
				pre = pre.plus(lo)
				continue
			}
			st.split(c.n)
		}
		// from the back
		end := pre.sum(c.n)
		if r := pos.sub(end); r.con() && r.c < 0 {
			if c.kind == 'g' {
				if st.e.drv.lists {
					n := 0
					for _, x := range cells {
						if x.kind == 'V' {
							n++
						}
					}
					if n < 4 {
						st.e.drv.gen(st)
					}
				}
				und("reads back from the end of a text that is not known yet")
			}
			if st.less(lc(-r.c-1), c.n) {
				st.takeBack(q, j, -r.c)
			}
			und("reads before a run from behind it")
		}
		pre = end
	}
	if d := pos.sub(pre); d.con() && d.c >= 0 {
		st.fail("reads behind the end of the text")
	}
	und("reads at a position that is not known: %s in %s", st.lxs(pos), st.show())
	return nil
}

// takeFront takes the first i+1 bytes out of run j and does the instruction again.
func (st *tstate) takeFront(q, j, i int) {
	st.fork(func(st *tstate) bool {
		c := st.seqs[q].cells[j]
		var nc []*tcell
		for k := 0; k <= i; k++ {
			b := st.cellByte(c.kind, c.set)
			switch c.kind {
			case 'w', 'n', 'v', 'q':
			case 'B':
				b.kind = 'b'
			case 's':
				b.kind, b.set = 'y', bQuote.not()
				und("a string is read twice")
			case 'E':
			default:
				b.set = bAny
				und("it reads a part of the text again that is known in outline only")
			}
			nc = append(nc, b)
		}
		rest := *c
		rest.n = c.n.plus(-i - 1)
		if c.kind == 's' {
			rest.kind = 'u'
		}
		if !(rest.n.con() && rest.n.c == 0) {
			st.e.ncell++
			rest.id = st.e.ncell
			nc = append(nc, &rest)
		}
		st.setCells(q, j, j+1, nc...)
		return true
	})
}

func (st *tstate) takeBack(q, j, i int) {
	st.fork(func(st *tstate) bool {
		c := st.seqs[q].cells[j]
		var nc []*tcell
		rest := *c
		rest.n = c.n.plus(-i)
		switch c.kind {
		case 's':
			rest.kind = 'u'
		case 'd':
			rest.kind = 'i'
		case 'o':
			rest.kind = 'j'
		}
		if !(rest.n.con() && rest.n.c == 0) {
			st.e.ncell++
			rest.id = st.e.ncell
			nc = append(nc, &rest)
		}
		for k := i; k >= 1; k-- {
			b := st.cellByte(c.kind, c.set)
			switch c.kind {
			case 'w', 'n', 'v', 'q':
			case 'B':
				b.kind = 'b'
			case 's':
				if k == 1 {
					b.kind, b.set = 'l', bBack.not()
				} else {
					b.kind, b.set = 'y', bAny
					und("a string is read twice")
				}
			case 'E':
			case 'd', 'o':
				// these end with something outside of a string or with a quote
				b.kind, b.set = 'I', bBack.not()
				if c.kind == 'o' {
					b.kind = 'J'
				}
				if k > 1 {
					und("it reads a part of the text again that is known in outline only")
				}
			default:
				b.set = bAny
				und("it reads a part of the text again that is known in outline only")
			}
			nc = append(nc, b)
		}
		st.setCells(q, j, j+1, nc...)
		return true
	})
}

// inSet decides whether a byte is in a set.
func (st *tstate) inSet(v *tv, set bset) bool {
	switch v.k {
	case tvInt:
		if v.n.con() {
			return set.has(v.n.c & 255)
		}
	case tvByte:
		if v.set.and(set).empty() {
			return false
		}
		if v.set.and(set.not()).empty() {
			return true
		}
	case tvCell:
		if v.n.c != 0 {
			var s bset
			for i := 0; i < 256; i++ {
				if set.has((i + v.n.c) & 255) {
					s = s.or(one(i))
				}
			}
			set = s
		}
		c := st.cell(v.id)
		if c == nil {
			und("a byte that is not known any more")
		}
		in, out := c.set.and(set), c.set.and(set.not())
		if in.empty() {
			return false
		}
		if out.empty() {
			return true
		}
		st.fork(func(c *tstate) bool { return c.refine(v.id, set) }, func(c *tstate) bool { return c.refine(v.id, set.not()) })
	}
	und("a byte that is not known")
	return false
}

// texEq decides whether a text is a given string.
func (st *tstate) texEq(v *tv, s string) bool {
	switch v.k {
	case tvStr:
		return v.s == s
	case tvText:
		if lo, ok, _, _ := st.bounds(v.hi.sub(v.lo)); ok && lo > len(s) {
			return false
		}
		if st.less(v.hi.sub(v.lo), lc(len(s))) {
			return false
		}
		for i := 0; i < len(s); i++ {
			c := st.byteAt(v.id, v.lo.plus(i))
			if !st.inSet(&tv{k: tvCell, id: c.id}, one(int(s[i]))) {
				return false
			}
		}
		return st.equal(v.hi.sub(v.lo), lc(len(s)))
	case tvNil:
		return s == ""
	case tvElem:
		if st.e.drv.load != nil && st.cell(v.id) != nil && st.cell(v.id).kind == 'V' {
			f := st.spec.s["is:"+v.s]
			if strings.HasPrefix(f, "=") {
				return f[1:] == s
			}
			if strings.Contains(f, "!"+s+"!") {
				return false
			}
			st.fork(func(c *tstate) bool { c.spec.s["is:"+v.s] = "=" + s; return true },
				func(c *tstate) bool { c.spec.s["is:"+v.s] = f + "!" + s + "!"; return true })
		}
		if st.e.drv.load != nil && st.cell(v.id) != nil && st.cell(v.id).kind == 'D' {
			// one that is out already: open, and the same until the next one is put out
			k := fmt.Sprintf("was:%s%d=%s", v.s, v.id, s)
			if r, ok := st.spec.s[k]; ok {
				return r == "yes"
			}
			st.fork(func(c *tstate) bool { c.spec.s[k] = "yes"; return true }, func(c *tstate) bool { c.spec.s[k] = "no"; return true })
		}
	}
	und("compares a text that is not known")
	return false
}

func (st *tstate) val(f *tframe, v ssa.Value) *tv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return vbool(constant.BoolVal(v.Value))
		case constant.String:
			return vstr(constant.StringVal(v.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return vnum(int(n))
			}
		}
		return vop("const " + v.Value.ExactString())
	case *ssa.Function:
		return &tv{k: tvClos, fn: v}
	case *ssa.FreeVar:
		for i, x := range f.fn.FreeVars {
			if x == v {
				return f.free[i]
			}
		}
	case *ssa.Builtin:
		return &tv{k: tvTop}
	case *ssa.Global:
		return vop("global " + v.Name())
	}
	if x, ok := f.env[v]; ok && x != nil {
		return x
	}
	return vtop
}

func zeroOf(t types.Type) *tv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vbool(false)
		case u.Info()&types.IsInteger != 0:
			return vnum(0)
		case u.Info()&types.IsString != 0:
			return vstr("")
		}
		return vop("zero")
	}
	return vnil
}

func newTeng(p *Program, d *tdrv, max int, secs int) *teng {
	pos := p.positions()
	if d.lists {
		pos = positions(p.Funcs, isListT)
	}
	return &teng{p: p, drv: d, pos: pos, lives: map[*ssa.Function]*liveInfo{}, und: map[string]int{}, seen: map[string]bool{},
		mask: map[string][]*maskRec{}, max: max, until: time.Now().Add(time.Duration(secs) * time.Second), makers: map[*ssa.Function]int{}, ends: map[string]int{},
		debug: os.Getenv("TXDEBUG") != ""}
}

func (p *Program) positions() *posClasses {
	return positions(p.Funcs, isTextT)
}

// enter starts fn on arguments.
func (st *tstate) enter(fn *ssa.Function, args []*tv, free []*tv, call ssa.CallInstruction) {
	f := &tframe{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]*tv{}, free: free, call: call}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = append(st.frames, f)
}

func (e *teng) run() {
	e.work = e.drv.init(e)
	for len(e.work) > 0 {
		// breadth first: short texts come before long ones
		st := e.work[0]
		e.work[0] = nil
		e.work = e.work[1:]
		e.explore(st)
		if len(e.fails) >= 3 {
			return
		}
		if atomic.LoadInt32(&txFull) != 0 {
			e.und[fmt.Sprintf("too many states for the memory (%d)", e.nst)]++
			return
		}
		if e.nst > e.max || time.Now().After(e.until) {
			e.und[fmt.Sprintf("too many states (%d)", e.nst)]++
			return
		}
	}
}

// explore runs a state until it ends, forks or comes to a state seen before.
func (e *teng) explore(st *tstate) {
	defer func() {
		x := recover()
		switch x := x.(type) {
		case nil:
		case txFork:
			e.work = append(e.work, x.l...)
		case txUnd:
			k := x.why + " at " + st.where()
			if e.debug && e.und[k] == 0 {
				fmt.Println("UND", k, st.show())
			}
			e.und[k]++
		case txStop:
		default:
			if e.debug {
				panic(x)
			}
			e.und[fmt.Sprintf("internal: %v", x)]++
		}
	}()
	for n := 0; ; n++ {
		if n&255 == 0 && atomic.LoadInt32(&txFull) != 0 {
			und("too much memory")
		}
		if n > 20000 {
			und("does not come back")
		}
		if !st.step() {
			return
		}
	}
}

// jump goes to block b; false when the state there is not new.
func (st *tstate) jump(b *ssa.BasicBlock) bool {
	return st.jumpFrom(st.top().b, b)
}

func (st *tstate) jumpFrom(prev, b *ssa.BasicBlock) bool {
	f := st.top()
	pi := -1
	for j, p := range b.Preds {
		if p == prev {
			pi = j
		}
	}
	var phis []*ssa.Phi
	var vals []*tv
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, st.val(f, ph.Edges[pi]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev, f.b, f.i = prev, b, len(phis)
	if len(b.Preds) < 2 {
		return true
	}
	return st.e.admit(st)
}

// admit says whether a state is new; it may be generalized first.
func (e *teng) admit(st *tstate) bool {
	st.accel()
	st.compact()
	k := st.key(true)
	ms := k.sb.String()
	if os.Getenv("TXDEBUG") == "3" {
		fmt.Println(strings.ReplaceAll(ms, "\n", "~"), k.nums)
	}
	recs := e.mask[ms]
	for _, r := range recs {
		same := true
		for i := range r.nums {
			if r.nums[i] != k.nums[i] {
				same = false
			}
		}
		if same {
			return false
		}
	}
	if len(recs) >= 2 || len(recs) == 1 && len(k.nums) > 0 {
		old := &keyer{nums: recs[len(recs)-1].nums}
		// better one that everything moved along from
		for i := len(recs) - 1; i >= 0; i-- {
			if k.along(recs[i].nums) {
				old.nums = recs[i].nums
				break
			}
		}
		if len(recs) > 24 {
			und("numbers that grow without end")
		}
		e.mask[ms] = append(recs, &maskRec{nums: k.nums})
		if st.generalize(old, k) {
			st.normalize()
			k2 := st.key(true)
			m2 := k2.sb.String()
			if m2 != ms {
				for _, r := range e.mask[m2] {
					same := true
					for i := range r.nums {
						if r.nums[i] != k2.nums[i] {
							same = false
						}
					}
					if same {
						return false
					}
				}
				e.mask[m2] = append(e.mask[m2], &maskRec{nums: k2.nums})
			}
		}
	} else {
		e.mask[ms] = append(recs, &maskRec{nums: k.nums})
	}
	e.nst++
	if e.debug && os.Getenv("TXDEBUG") == "2" {
		fmt.Printf("%d %s b%d %s imp=%s spec=%v x=%v env=%s\n", e.nst, st.top().fn.Name(), st.top().b.Index, st.show(), st.imp, st.spec.s, st.xs(), st.envs())
	}
	if e.nst > e.max {
		und("too many states")
	}
	return true
}

func (st *tstate) xs() string {
	var l []string
	for n, x := range st.spec.x {
		l = append(l, n+"="+st.lxs(x))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (st *tstate) envs() string {
	var l []string
	for v, x := range st.top().env {
		l = append(l, v.Name()+"="+st.tvs(x))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (st *tstate) tvs(v *tv) string {
	if v == nil {
		return "_"
	}
	switch v.k {
	case tvInt:
		return st.lxs(v.n)
	case tvBool:
		return fmt.Sprint(v.n.c == 1)
	case tvText:
		return fmt.Sprintf("text%d[%s:%s]", v.id, st.lxs(v.lo), st.lxs(v.hi))
	case tvStr:
		return fmt.Sprintf("%q", v.s)
	case tvNil:
		return "nil"
	case tvErr:
		return "error " + v.s
	case tvCell:
		return fmt.Sprintf("byte%+d", v.n.c)
	case tvList:
		return fmt.Sprintf("list%d[%s:%s]", v.id, st.lxs(v.lo), st.lxs(v.hi))
	case tvOpaque:
		s := v.s + "("
		for i, a := range v.a {
			if i > 0 {
				s += ","
			}
			s += st.tvs(a)
		}
		return s + ")"
	case tvTop:
		return "unknown"
	}
	return fmt.Sprintf("value%d", v.k)
}
