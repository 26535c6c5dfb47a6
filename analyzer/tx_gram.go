package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	bEscaped = bs(`"/bfnrtu`)
	bMiddle  = bScalar.or(bs(",:")).or(bSpace)
)

// frontier is the place of the generator.
func (st *tstate) frontier() (q, j int) {
	for q := range st.seqs {
		for j, c := range st.seqs[q].cells {
			if c.kind == 'g' {
				return q, j
			}
		}
	}
	und("the text is complete")
	return 0, 0
}

func (st *tstate) minAfter(min int) {
	q, j := st.frontier()
	s := st.seqs[q].cells[j].n.t[0].s
	if st.min[s] < min {
		st.min[s] = min
	}
}

// emit makes one byte before the generator and gives its position.
func (st *tstate) emit(kind byte, set bset) lx {
	q, j := st.frontier()
	pos := st.prefix(q, j)
	s := st.seqs[q].cells[j].n.t[0].s
	n := st.sym(0)
	m := st.min[s] - 1
	if m < 0 {
		m = 0
	}
	st.replaceSym(s, ls(n).plus(1))
	st.min[n] = m
	g := *st.seqs[q].cells[j]
	g.n = ls(n)
	st.setCells(q, j, j+1, st.cellByte(kind, set), &g)
	return pos
}

// vanish ends the generated text and gives its end.
func (st *tstate) vanish() lx {
	q, j := st.frontier()
	pos := st.prefix(q, j)
	s := st.seqs[q].cells[j].n.t[0].s
	if st.min[s] > 0 {
		panic("generator ends too early")
	}
	st.replaceSym(s, lc(0))
	st.spec.s["g"] = "end"
	return pos
}

func (st *tstate) retag(q int, lo, hi lx, kind byte) {
	a, b := -1, -1
	pre := lc(0)
	cells := st.seqs[q].cells
	for j := 0; j <= len(cells); j++ {
		if a < 0 && pre.eq(lo) {
			a = j
		}
		if pre.eq(hi) {
			b = j
		}
		if j < len(cells) {
			pre = pre.sum(cells[j].n)
		}
	}
	if a < 0 || b < a {
		return
	}
	var nc []*tcell
	for _, c := range cells[a:b] {
		d := *c
		d.kind = kind
		if d.run {
			d.set = bAny
		}
		nc = append(nc, &d)
	}
	st.setCells(q, a, b, nc...)
}

// queues of what the program has to hand out

func (st *tstate) qlen(s string) int {
	n, _ := strconv.Atoi(st.spec.s["q:"+s])
	return n
}

func (st *tstate) push(s string, lo, hi lx) {
	n := st.qlen(s)
	if n >= 3 {
		und("falls behind")
	}
	st.spec.x[fmt.Sprintf("%s%dlo", s, n)] = lo
	st.spec.x[fmt.Sprintf("%s%dhi", s, n)] = hi
	st.spec.s["q:"+s] = strconv.Itoa(n + 1)
}

func (st *tstate) head(s string) (lo, hi lx, ok bool) {
	if st.qlen(s) == 0 {
		return
	}
	return st.spec.x[s+"0lo"], st.spec.x[s+"0hi"], true
}

func (st *tstate) pop(s string) {
	n := st.qlen(s)
	for i := 1; i < n; i++ {
		st.spec.x[fmt.Sprintf("%s%dlo", s, i-1)] = st.spec.x[fmt.Sprintf("%s%dlo", s, i)]
		st.spec.x[fmt.Sprintf("%s%dhi", s, i-1)] = st.spec.x[fmt.Sprintf("%s%dhi", s, i)]
	}
	delete(st.spec.x, fmt.Sprintf("%s%dlo", s, n-1))
	delete(st.spec.x, fmt.Sprintf("%s%dhi", s, n-1))
	st.spec.s["q:"+s] = strconv.Itoa(n - 1)
	if n == 1 {
		delete(st.spec.s, "q:"+s)
	}
	st.settle()
}

// settle forgets the elements that are done with.
func (st *tstate) settle() {
	for n := range st.spec.s {
		if strings.HasPrefix(n, "q:") && n != "q:appended" {
			return
		}
	}
	sep, ok := st.spec.x["sep"]
	if !ok || st.spec.s["old"] == st.lxs(sep) {
		return
	}
	st.retag(0, st.spec.x["open"], sep, 'o')
	delete(st.spec.x, "sep")
}

// cgram is the grammar of the inside of an array or object: what is pushed to which queue.
type cgram struct {
	keys, vals bool
	count      bool // how many there are matters
	kind       byte
	search     *search
	nostr      bool // no element is a string
}

type talt = func(*tstate) bool

func (g *cgram) gen(st *tstate) {
	var alts []talt
	add := func(f func(c *tstate)) {
		alts = append(alts, func(c *tstate) bool { f(c); return true })
	}
	phase := func(c *tstate, p string) {
		c.spec.s["g"] = p
		switch p {
		case "first", "after", "end", "sc":
		default:
			c.minAfter(1)
		}
	}
	kind := g.kind
	if s := st.spec.s["kind"]; s != "" {
		kind = s[0]
	}
	ph := st.spec.s["g"]
	if g.search != nil {
		g.search.before(st, kind, ph)
	}
	elem := func(c *tstate, lo lx) { c.spec.x["vlo"] = lo }
	elemEnd := func(c *tstate, hi lx) {
		if g.search != nil {
			g.search.end(c, hi)
		}
		if g.vals {
			c.push("v", c.spec.x["vlo"], hi)
		}
		delete(c.spec.x, "vlo")
		if g.search != nil && (kind == 'o' || c.spec.s["found"] != "") {
		} else if g.count {
			c.spec.x["n"] = c.spec.x["n"].plus(1)
		} else {
			c.spec.s["n"] = "some"
		}
	}
	val := func() {
		begin := func(c *tstate, lo lx, ch byte) bool { return g.search != nil && g.search.begin(c, lo, ch) }
		if !g.nostr {
			add(func(c *tstate) {
				p := c.emit('x', bQuote)
				elem(c, p.plus(1))
				phase(c, "str")
				begin(c, p, '"')
			})
		}
		add(func(c *tstate) {
			p := c.emit('n', bFirst)
			elem(c, p)
			phase(c, "sc")
			begin(c, p, 'n')
		})
		for _, b := range []string{"[]", "{}"} {
			b := b
			add(func(c *tstate) {
				p := c.emit('x', bs(b[:1]))
				if begin(c, p, b[0]) {
					return
				}
				elem(c, p)
				c.spec.s["outer"] = b[1:]
				c.spec.x["depth"] = lc(1)
				phase(c, "nest")
			})
		}
	}
	comma := func(c *tstate, pos lx) {
		c.spec.x["sep"] = pos.plus(1)
		if g.count && g.search == nil {
			c.spec.s["more"] = "yes"
		}
		if kind == 'o' {
			phase(c, "key1")
		} else {
			phase(c, "val1")
		}
		c.settle()
	}
	space := func() {
		add(func(c *tstate) { p := c.spec.s["g"]; c.emit('w', bSpace); phase(c, p) })
	}
	str := func(in, esc string, end func(c *tstate, pos lx)) {
		add(func(c *tstate) { c.emit('p', bPlain); phase(c, in) })
		add(func(c *tstate) { c.emit('k', bBack); phase(c, esc) })
		add(func(c *tstate) { end(c, c.emit('x', bQuote)) })
	}
	escd := func(in string) {
		add(func(c *tstate) { c.emit('e', bBack); phase(c, in) })
		add(func(c *tstate) { c.emit('e', bEscaped); phase(c, in) })
	}
	if hi, ok := st.spec.x["shi"]; ok {
		// a string is history once the program wants to see what follows it
		kind := byte('S')
		if ph == "nest" {
			kind = 'd'
		}
		st.retag(0, st.spec.x["slo"], hi, kind)
		if (ph == "colon" || ph == "keyend") && (!g.count || g.search != nil || st.spec.s["more"] != "") {
			st.retag(0, st.spec.x["open"], st.spec.x["slo"], 'o')
		}
		if ph == "colon" || ph == "keyend" {
			st.spec.x["khi"] = hi
		}
		delete(st.spec.x, "slo")
		delete(st.spec.x, "shi")
	}
	if hi, ok := st.spec.x["chi"]; ok {
		if lo, ok := st.spec.x["khi"]; ok {
			st.retag(0, lo, hi, 'o')
			delete(st.spec.x, "khi")
		}
		delete(st.spec.x, "chi")
	}
	switch ph {
	case "first":
		space()
		add(func(c *tstate) { c.vanish() })
		if kind == 'o' {
			add(func(c *tstate) { c.spec.x["klo"] = c.emit('x', bQuote).plus(1); phase(c, "key") })
		} else {
			val()
		}
	case "key1":
		space()
		add(func(c *tstate) { c.spec.x["klo"] = c.emit('x', bQuote).plus(1); phase(c, "key") })
	case "key":
		str("key", "kesc", func(c *tstate, pos lx) {
			if g.keys {
				c.push("k", c.spec.x["klo"], pos)
			}
			c.spec.x["slo"], c.spec.x["shi"] = c.spec.x["klo"], pos
			delete(c.spec.x, "klo")
			phase(c, "colon")
			if g.search != nil {
				g.search.key(c, pos)
			}
		})
	case "keyend":
		g.search.keyend(st)
	case "tail":
		g.search.tail(st)
	case "kesc":
		escd("key")
	case "colon":
		space()
		add(func(c *tstate) {
			p := c.emit('x', bs(":"))
			c.spec.x["chi"] = p.plus(1)
			phase(c, "val")
		})
	case "val", "val1":
		space()
		val()
	case "str":
		str("str", "esc", func(c *tstate, pos lx) {
			c.spec.x["slo"], c.spec.x["shi"] = c.spec.x["vlo"], pos
			phase(c, "after")
			elemEnd(c, pos)
		})
	case "esc":
		escd("str")
	case "sc":
		add(func(c *tstate) { c.emit('n', bScalar); phase(c, "sc") })
		add(func(c *tstate) { p := c.emit('w', bSpace); phase(c, "after"); elemEnd(c, p) })
		add(func(c *tstate) {
			p := c.emit('x', bs(","))
			elemEnd(c, p)
			if c.spec.s["g"] != "tail" {
				comma(c, p)
			}
		})
		add(func(c *tstate) { elemEnd(c, c.vanish()) })
	case "after":
		space()
		add(func(c *tstate) { p := c.emit('x', bs(",")); comma(c, p) })
		add(func(c *tstate) { c.vanish() })
	case "nest":
		one := st.equal(st.spec.x["depth"], lc(1))
		add(func(c *tstate) { c.emit('d', bMiddle); phase(c, "nest") })
		add(func(c *tstate) { c.spec.x["slo"] = c.emit('x', bQuote); phase(c, "nstr") })
		add(func(c *tstate) {
			c.emit('d', bs("[{"))
			c.spec.x["depth"] = c.spec.x["depth"].plus(1)
			phase(c, "nest")
		})
		if one {
			add(func(c *tstate) {
				p := c.emit('x', bs(c.spec.s["outer"]))
				delete(c.spec.s, "outer")
				delete(c.spec.x, "depth")
				phase(c, "after")
				elemEnd(c, p.plus(1))
			})
		} else {
			add(func(c *tstate) {
				c.emit('d', bs("]}"))
				c.spec.x["depth"] = c.spec.x["depth"].plus(-1)
				phase(c, "nest")
			})
		}
	case "nstr":
		str("nstr", "nesc", func(c *tstate, pos lx) {
			c.spec.x["shi"] = pos.plus(1)
			phase(c, "nest")
		})
	case "nesc":
		escd("nstr")
	default:
		und("generator in phase %q", ph)
	}
	st.fork(alts...)
}

// a document: an array or object, alone or at a path of something larger.
type tdoc struct {
	kind  byte // 'a' or 'o'
	path  bool
	trim  bool // no space around
	param map[string]*tv
}

func (e *teng) newState() *tstate {
	return &tstate{e: e, min: map[int]int{}, loose: map[int]bool{}, objs: map[int]*tobj{}, mine: map[int]bool{}, lens: map[string]lx{},
		spec: gspec{map[string]string{}, map[string]lx{}, map[string]*tv{}}}
}

// docState is a state before the call of fn with a document and what else it needs.
func (e *teng) docState(fn *ssa.Function, d tdoc) *tstate {
	st := e.document(d)
	st.enter(fn, st.args(fn, d.path), nil, nil)
	return st
}

func (e *teng) document(d tdoc) *tstate {
	st := e.newState()
	open, cl := "[", "]"
	if d.kind == 'o' {
		open, cl = "{", "}"
	}
	q := &tseq{}
	switch {
	case d.path:
		q.cells = append(q.cells, st.cellByte('x', bs("[{").or(bSpace)), st.cellRun('P', bAny, 0))
	case !d.trim:
		q.cells = append(q.cells, st.cellRun('w', bSpace, 0))
	}
	q.cells = append(q.cells, st.cellByte('x', bs(open)))
	at := len(q.cells)
	g := st.cellRun('g', bAny, 0)
	q.cells = append(q.cells, g, st.cellByte('x', bs(cl)))
	switch {
	case d.path:
		q.cells = append(q.cells, st.cellRun('Q', bAny, 0), st.cellByte('z', bs("]}").or(bSpace)))
	case !d.trim:
		q.cells = append(q.cells, st.cellRun('w', bSpace, 0))
	}
	st.seqs = []*tseq{q}
	st.spec.s["g"] = "first"
	if e.counter("n") {
		st.spec.x["n"] = lc(0)
	}
	st.spec.x["open"] = st.prefix(0, at)
	st.spec.x["start"] = st.prefix(0, at-1)
	return st
}

// args makes the arguments of fn by their types: the first text is the document.
func (st *tstate) args(fn *ssa.Function, path bool) []*tv {
	var args []*tv
	for i, p := range fn.Params {
		switch {
		case i == 0 && isTextT(p.Type()):
			args = append(args, &tv{k: tvText, id: 0, hi: st.seqLen(0)})
		case p.Type().String() == "[]string":
			if path {
				id := st.newObj(&tobj{kind: 'p'})
				args = append(args, &tv{k: tvList, id: id, hi: ls(st.sym(1))})
			} else {
				args = append(args, vnil)
			}
		case strings.HasPrefix(p.Type().Underlying().String(), "func("):
			args = append(args, &tv{k: tvFunc})
		default:
			args = append(args, vop("argument "+p.Name()))
		}
	}
	return args
}

// is decides whether v is the text lo..hi of the document.
func (st *tstate) is(v *tv, lo, hi lx) bool {
	switch v.k {
	case tvText:
		if v.id == 0 && st.equal(v.lo, lo) && st.equal(v.hi, hi) {
			return true
		}
		return st.equal(v.lo, v.hi) && st.equal(lo, hi)
	case tvStr:
		return st.texEq(&tv{k: tvText, lo: lo, hi: hi}, v.s)
	case tvNil:
		return st.equal(lo, hi)
	}
	und("hands out something that is not known: %s", st.tvs(v))
	return false
}

// sameText names the text lo..hi for messages.
func (st *tstate) part(lo, hi lx) string { return "[" + st.lxs(lo) + ":" + st.lxs(hi) + "]" }

// take checks that v is the next of a queue.
func (st *tstate) take(s, what string, v *tv) {
	lo, hi, ok := st.head(s)
	if !ok {
		st.fail("hands out %s %s, but no %s has come to its end that was not handed out before", what, st.tvs(v), what)
	}
	if !st.is(v, lo, hi) {
		st.fail("hands out %s %s, which is not the next %s %s", what, st.tvs(v), what, st.part(lo, hi))
	}
}

// rest checks that nothing is left to be handed out.
func (st *tstate) rest(streams ...string) {
	if st.spec.s["g"] != "end" {
		// the text goes on: is there certainly more to hand out?
		switch st.spec.s["g"] {
		case "first", "after", "sc":
			st.e.drv.gen(st)
		}
		st.fail("returns before the end of the text")
	}
	for _, s := range streams {
		if lo, hi, ok := st.head(s); ok {
			st.fail("returns without having handed out %s", st.part(lo, hi))
		}
	}
}

func (st *tstate) instr() *ssa.Call {
	f := st.top()
	c, _ := f.b.Instrs[f.i].(*ssa.Call)
	return c
}

// results goes on with each of several results of the call at hand.
func (st *tstate) results(alts ...func(*tstate) *tv) {
	in := st.instr()
	var l []func(*tstate) bool
	for _, a := range alts {
		a := a
		l = append(l, func(c *tstate) bool {
			v := a(c)
			f := c.top()
			f.env[in] = v
			f.i++
			return true
		})
	}
	st.fork(l...)
}

func tuple(a ...*tv) *tv { return &tv{k: tvTuple, a: a} }

// coreCall stands for the search of a path: it finds the document or reports an error.
func coreCall(st *tstate, fn *ssa.Function, args []*tv) (*tv, bool) {
	if fn.Name() != "core" || len(args) != 3 {
		return nil, false
	}
	js, just, path := args[0], args[1], args[2]
	if js.k != tvText || js.id != 0 || path.k != tvList || just.k != tvBool {
		und("searches a path in something else")
	}
	if o := st.objs[path.id]; o == nil || o.kind != 'p' || !path.lo.eq(lc(0)) {
		und("searches another path")
	}
	if !js.lo.eq(lc(0)) || !js.hi.eq(st.seqLen(0)) {
		und("searches a part of the text")
	}
	ok := func(c *tstate) *tv {
		start := c.spec.x["start"]
		end := lc(0)
		cells := c.seqs[0].cells
		n := len(cells)
		for n > 0 && (cells[n-1].kind == 'Q' || cells[n-1].kind == 'z') {
			n--
		}
		if just.n.c == 0 {
			end = c.prefix(0, n)
		}
		return tuple(vint(ls(c.looseSym())), vint(start), vint(end), vnil)
	}
	if st.spec.s["found"] == "yes" {
		return ok(st), true
	}
	st.results(func(c *tstate) *tv {
		c.spec.s["found"] = "yes"
		return ok(c)
	}, func(c *tstate) *tv {
		c.spec.s["noval"] = "yes"
		c.note("the path is not found")
		return tuple(vnum(-1), vnum(-1), vnum(-1), &tv{k: tvErr, s: "core"})
	})
	return nil, false
}

// result of exploring one driver.
type txOut struct {
	name  string
	fails []tfail
	und   []string
	nst   int
	ends  int
	secs  float64
}

func (p *Program) explore(d *tdrv, max, secs int) txOut {
	e := newTeng(p, d, max, secs)
	t0 := time.Now()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if e.debug {
					panic(x)
				}
				if u, ok := x.(txUnd); ok {
					e.und[u.why]++
				} else {
					e.und[fmt.Sprintf("internal: %v", x)]++
				}
			}
		}()
		e.run()
	}()
	o := txOut{name: d.name, fails: e.fails, nst: e.nst, ends: e.ends["return"], secs: time.Since(t0).Seconds()}
	for k, n := range e.und {
		o.und = append(o.und, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(o.und)
	return o
}
