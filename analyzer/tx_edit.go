package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Edits: what comes back is the document with one place changed. The search is taken to find the member the path names
// (the path search itself is another property); the documents are made of cells around that member.

type titem struct {
	kind  byte // 'o' member of an object, 'a' element of an array
	first bool // nothing before it in its container
	last  bool // nothing behind it
	val   byte // '"', 'n', '[' or '{'
	root  bool // the container is the whole document
	scan  bool // the key is generated
}

func (i titem) String() string {
	return fmt.Sprintf("%c %v %v %c %v", i.kind, i.first, i.last, i.val, i.root)
}

func items(kind byte, scan bool) []titem {
	var l []titem
	for _, root := range []bool{true, false} {
		for _, first := range []bool{true, false} {
			for _, last := range []bool{true, false} {
				for _, v := range []byte{'"', 'n', '[', '{'} {
					l = append(l, titem{kind, first, last, v, root, scan})
				}
			}
		}
	}
	return l
}

type tbuild struct {
	st *tstate
	q  []*tcell
	at lx
}

func (b *tbuild) byte(kind byte, set bset) {
	b.q = append(b.q, b.st.cellByte(kind, set))
	b.at = b.at.plus(1)
}
func (b *tbuild) run(kind byte, set bset) {
	c := b.st.cellRun(kind, set, 0)
	b.q = append(b.q, c)
	b.at = b.at.sum(c.n)
}
func (b *tbuild) mark(n string) { b.st.spec.x[n] = b.at }

func (b *tbuild) value(v byte) {
	switch v {
	case '"':
		b.byte('x', bQuote)
		b.run('q', bAny)
		b.byte('x', bQuote)
	case 'n':
		b.byte('n', bFirst)
		b.run('n', bScalar)
	case 'b':
		b.byte('x', bQuote)
		for _, c := range "true" {
			b.byte('x', bs(string(c)))
		}
		b.byte('x', bQuote)
	case 't', 'f', 'N':
		for _, c := range map[byte]string{'t': "true", 'f': "false", 'N': "null"}[v] {
			b.byte('x', bs(string(c)))
		}
	case 's':
		// a string that looks like a container
		b.byte('x', bQuote)
		b.byte('x', bs("{["))
		b.run('q', bAny)
		b.byte('x', bs("}]"))
		b.byte('x', bQuote)
	case '[':
		b.byte('x', bs("["))
		b.run('q', bAny)
		b.byte('x', bs("]"))
	case '{':
		b.byte('x', bs("{"))
		b.run('q', bAny)
		b.byte('x', bs("}"))
	}
}

// number makes one of these parts: 1 stands for digits, 0 for itself, . for a fraction and e for an exponent.
func (b *tbuild) number(parts string) {
	digits := bs("0123456789")
	for i := 0; i < len(parts); i++ {
		switch parts[i] {
		case '-':
			b.byte('x', bs("-"))
		case '0':
			b.byte('x', bs("0"))
		case '1':
			b.byte('n', bs("123456789"))
			b.run('n', digits)
		case '.':
			b.byte('x', bs("."))
			b.byte('n', digits)
			b.run('n', digits)
		case 'e':
			b.byte('x', bs("eE"))
			if i+1 < len(parts) {
				b.byte('x', bs("+-"))
				i++
			}
			b.byte('n', digits)
			b.run('n', digits)
		}
	}
}

func (b *tbuild) front(root bool) {
	if root {
		b.run('w', bSpace)
	} else {
		b.byte('x', bs("[{").or(bSpace))
		b.run('q', bAny)
		b.byte('x', bs("[,:").or(bSpace))
	}
}

func (b *tbuild) back(root bool) {
	if root {
		b.run('w', bSpace)
	} else {
		b.byte('x', bs("]},").or(bSpace))
		b.run('q', bAny)
		b.byte('z', bs("]}").or(bSpace))
	}
	b.st.seqs = []*tseq{{cells: b.q}}
}

// item makes a document around one member.
func (e *teng) item(i titem) *tstate {
	st := e.newState()
	b := &tbuild{st: st}
	open, cl := "[", "]"
	if i.kind == 'o' {
		open, cl = "{", "}"
	}
	b.front(i.root)
	b.mark("cstart")
	b.mark("edge")
	b.byte('x', bs(open))
	if !i.first {
		b.run('q', bAny)
		b.mark("edge")
		b.byte('x', bs(","))
	}
	b.run('w', bSpace)
	b.mark("mlo")
	if i.kind == 'o' {
		b.byte('x', bQuote)
		b.mark("klo")
		if i.scan {
			g := st.cellRun('g', bAny, 0)
			b.q = append(b.q, g)
			b.at = b.at.sum(g.n)
		} else {
			b.run('q', bAny)
		}
		b.mark("khi")
		b.byte('x', bQuote)
		b.run('w', bSpace)
		b.byte('x', bs(":"))
		b.run('w', bSpace)
	}
	b.mark("vlo")
	b.value(i.val)
	b.mark("vhi")
	b.run('w', bSpace)
	b.mark("edge2")
	if !i.last {
		b.byte('x', bs(","))
		b.run('q', bAny)
	}
	b.byte('x', bs(cl))
	b.mark("cend")
	b.back(i.root)
	st.spec.s["item"] = i.String()
	st.spec.s["g"] = "end"
	if i.scan {
		st.spec.s["g"] = "key"
	}
	return st
}

// container makes a document with an object or array, empty or not.
func (e *teng) container(kind byte, empty, root bool, one ...bool) *tstate {
	st := e.newState()
	b := &tbuild{st: st}
	open, cl := "[", "]"
	if kind == 'o' {
		open, cl = "{", "}"
	}
	b.front(root)
	b.mark("cstart")
	b.byte('x', bs(open))
	if empty {
		b.mark("ilo")
		b.run('w', bSpace)
		b.mark("ihi")
	} else if len(one) > 0 {
		// one digit
		b.run('w', bSpace)
		b.byte('x', bs("0123456789"))
		b.mark("ilo")
		b.run('w', bSpace)
		b.mark("ihi")
	} else {
		b.run('w', bSpace)
		if kind == 'o' {
			b.byte('x', bQuote)
			b.run('q', bAny)
		} else {
			b.byte('x', bQuote.or(bs("[{")).or(bFirst))
			b.run('q', bAny)
		}
		b.byte('x', bSpace.not().and(bs(",:").not()))
		b.mark("ilo")
		b.run('w', bSpace)
		b.mark("ihi")
	}
	b.byte('x', bs(cl))
	b.mark("cend")
	b.back(root)
	st.spec.s["item"] = fmt.Sprintf("%c empty %v root %v", kind, empty, root)
	st.spec.s["g"] = "end"
	return st
}

// plainValue makes a document with a value that is no container (or another one) at a path.
func (e *teng) plainValue(v byte, root bool, num string) *tstate {
	st := e.newState()
	b := &tbuild{st: st}
	b.front(root)
	b.mark("vlo")
	if v == '#' {
		b.number(num)
	} else {
		b.value(v)
	}
	b.mark("vhi")
	b.back(root)
	st.spec.s["item"] = fmt.Sprintf("value %c root %v", v, root)
	st.spec.s["g"] = "end"
	return st
}

// genKey makes the bytes of a key.
func genKey(st *tstate) {
	var alts []talt
	add := func(f func(c *tstate)) { alts = append(alts, func(c *tstate) bool { f(c); return true }) }
	switch st.spec.s["g"] {
	case "key":
		add(func(c *tstate) { c.emit('p', bPlain) })
		add(func(c *tstate) { c.emit('k', bBack); c.spec.s["g"] = "kesc"; c.minAfter(1) })
		add(func(c *tstate) { c.vanish() })
	case "kesc":
		add(func(c *tstate) { c.emit('e', bBack); c.spec.s["g"] = "key" })
		add(func(c *tstate) { c.emit('e', bEscaped); c.spec.s["g"] = "key" })
	default:
		und("generator in phase %q", st.spec.s["g"])
	}
	st.fork(alts...)
}

// parts lists what a text or list is made of.
func (st *tstate) parts(v *tv) []*tv {
	var out []*tv
	var add func(v *tv, d int)
	one := func(v *tv, d int) {
		switch {
		case v.k == tvTuple && v.s == "all":
			add(v.a[0], d+1)
		case v.k == tvList && v.s == "all":
			c := *v
			c.s = ""
			add(&c, d+1)
		case v.k == tvInt && v.n.con():
			out = append(out, vstr(string([]byte{byte(v.n.c)})))
		case v.k == tvCell:
			c := st.cell(v.id)
			if c == nil || c.set.count() != 1 {
				und("a byte that is not known")
			}
			out = append(out, vstr(string([]byte{byte(c.set.list()[0] + v.n.c)})))
		default:
			out = append(out, v)
		}
	}
	add = func(v *tv, d int) {
		if d > 8 {
			und("parts of parts")
		}
		switch v.k {
		case tvNil:
		case tvStr, tvText, tvOpaque, tvElem:
			out = append(out, v)
		case tvCat:
			for _, x := range v.a {
				add(x, d+1)
			}
		case tvList:
			o := st.objs[v.id]
			if o == nil {
				und("a result that is not known")
			}
			switch o.kind {
			case 'a':
				if !v.lo.con() || !v.hi.con() || v.lo.c < 0 || v.hi.c > len(o.elems) || v.lo.c > v.hi.c {
					und("a part of a list")
				}
				for _, x := range o.elems[v.lo.c:v.hi.c] {
					one(x, d)
				}
			case 'o', 'b':
				if v.lo.eq(lc(0)) && !v.hi.eq(o.n) && o.kind == 'o' && st.front(v.hi, o, func(x *tv) { one(x, d) }) {
					return
				}
				if !v.lo.eq(lc(0)) || !st.equal(v.hi, o.n) {
					und("a part of an output")
				}
				for i, x := range o.items {
					if x.k == tvOpaque && x.s == "hole" {
						if !st.equal(o.lens[i], lc(0)) {
							st.fail("leaves a part of its output unwritten")
						}
						continue
					}
					one(x, d)
				}
			default:
				out = append(out, v)
			}
		default:
			und("a result that is not known: %s", st.tvs(v))
		}
	}
	add(v, 0)
	return out
}

// splice tells which part of the document was replaced by what.
func (st *tstate) splice(v *tv) (a, b lx, mid []*tv) {
	var l []*tv
	for _, x := range st.parts(v) {
		n := len(l)
		switch x.k {
		case tvText:
			if x.id != 0 {
				und("a text that is not known")
			}
			if st.equal(x.lo, x.hi) {
				continue
			}
			if n > 0 && l[n-1].k == tvText && st.equal(l[n-1].hi, x.lo) {
				c := *l[n-1]
				c.hi = x.hi
				l[n-1] = &c
				continue
			}
		case tvOpaque:
			if st.none(x) {
				continue
			}
		case tvStr:
			if x.s == "" {
				continue
			}
			if n > 0 && l[n-1].k == tvStr {
				l[n-1] = vstr(l[n-1].s + x.s)
				continue
			}
		}
		l = append(l, x)
	}
	a, b = lc(0), st.seqLen(0)
	if len(l) > 0 && l[0].k == tvText && st.equal(l[0].lo, lc(0)) {
		a = l[0].hi
		l = l[1:]
	}
	if n := len(l); n > 0 && l[n-1].k == tvText && st.equal(l[n-1].hi, st.seqLen(0)) {
		b = l[n-1].lo
		l = l[:n-1]
	}
	return a, b, l
}

// none: the length is known to be zero.
func (st *tstate) none(x *tv) bool {
	_, _, hi, ok := st.bounds(st.length(x))
	return ok && hi == 0
}

func (st *tstate) midString(mid []*tv) string {
	s := ""
	for _, x := range mid {
		switch x.k {
		case tvStr:
			s += fmt.Sprintf("%q ", x.s)
		case tvOpaque:
			s += "<" + st.tvs(x) + "> "
		case tvText:
			s += "text" + st.part(x.lo, x.hi) + " "
		default:
			und("a part that is not known: %s", st.tvs(x))
		}
	}
	return strings.TrimSpace(s)
}

func (st *tstate) among(x lx, l []lx) bool {
	for _, y := range l {
		if st.equal(x, y) {
			return true
		}
	}
	return false
}

// changed checks that v is the document with lo..hi replaced by mid; the ends may be any of those given.
func (st *tstate) changed(v *tv, los, his []lx, mid ...*tv) {
	a, b, m := st.splice(v)
	var want []*tv
	for _, x := range mid {
		if x.k == tvOpaque && st.none(x) {
			continue
		}
		if n := len(want); x.k == tvStr && n > 0 && want[n-1].k == tvStr {
			want[n-1] = vstr(want[n-1].s + x.s)
		} else if x.k != tvStr || x.s != "" {
			want = append(want, x)
		}
	}
	if g, w := st.midString(m), st.midString(want); g != w {
		st.fail("puts %s where %s belongs", or(g, "nothing"), or(w, "nothing"))
	}
	if !st.among(a, los) {
		st.fail("keeps the document up to %s, the change begins at %s", st.lxs(a), st.lxs(los[0]))
	}
	if !st.among(b, his) {
		st.fail("keeps the document from %s, the change ends at %s", st.lxs(b), st.lxs(his[0]))
	}
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// pathName names a list of path elements: P is the caller's path.
func (st *tstate) pathName(v *tv) (name string, own bool) {
	own = true
	var l []string
	for _, x := range st.parts(v) {
		switch x.k {
		case tvList:
			o := st.objs[x.id]
			if o == nil || o.kind != 'p' || !x.lo.eq(lc(0)) {
				und("searches a path that is not known")
			}
			own = false
			full := st.spec.x["plen"]
			switch d := full.sub(x.hi); {
			case d.con() && d.c == 0:
				l = append(l, "P")
			case d.con() && d.c > 0:
				l = append(l, fmt.Sprintf("P-%d", d.c))
			default:
				und("searches a part of the path that is not known")
			}
		case tvOpaque:
			l = append(l, st.tvs(x))
		case tvStr:
			l = append(l, fmt.Sprintf("%q", x.s))
		default:
			und("searches a path that is not known")
		}
	}
	if n, path := st.spec.x["plen"]; path && own && len(l) > 0 && st.equal(n, lc(1)) {
		// before the last element there is nothing
		l = append([]string{"P-1"}, l...)
		own = false
	}
	return strings.Join(l, ","), own
}

// find is what the search says of a path: yes, missing or an error. It is decided once.
func (st *tstate) find(name string, sure bool) string {
	k := "path " + name
	if v := st.spec.s[k]; v != "" {
		return v
	}
	alts := []talt{}
	for _, v := range []string{"yes", "missing", "error"} {
		v := v
		alts = append(alts, func(c *tstate) bool {
			c.spec.s[k] = v
			if v != "yes" {
				c.note("path %s: %s", name, v)
			}
			return true
		})
	}
	st.fork(alts...)
	return ""
}

// editCall models the search and the test of its error: at gives the names of the positions a path leads to.
func (p *Program) editCall(at func(st *tstate, name string) (ks, lo, hi string, ok bool)) func(st *tstate, fn *ssa.Function, args []*tv) (*tv, bool) {
	missing := -1
	if c, ok := p.SSA.Members["ErrCodeKeyNotFound"].(*ssa.NamedConst); ok {
		if n, ok := constant.Int64Val(c.Value.Value); ok {
			missing = int(n)
		}
	}
	return func(st *tstate, fn *ssa.Function, args []*tv) (*tv, bool) {
		switch {
		case fn.Name() == "core" && len(args) == 3:
			js, just := args[0], args[1]
			if js.k != tvText || js.id != 0 || !js.lo.eq(lc(0)) || !st.equal(js.hi, st.seqLen(0)) || just.k != tvBool {
				und("searches a path in something else")
			}
			name, own := st.pathName(args[2])
			if name == "" {
				und("searches the empty path")
			}
			ks, lo, hi, ok := at(st, name)
			if !ok && !own {
				und("searches another path: %s", name)
			}
			none := vnum(-1)
			switch st.find(name, ok) {
			case "missing":
				return tuple(none, none, none, &tv{k: tvErr, s: "core: key not found"}), true
			case "error":
				return tuple(none, none, none, &tv{k: tvErr, s: "core"}), true
			}
			if !ok {
				return tuple(vint(ls(st.looseSym())), vint(ls(st.looseSym())), vint(ls(st.looseSym())), vnil), true
			}
			k, l, h := vnum(-1), st.spec.x[lo], st.spec.x[hi]
			if ks != "" {
				k = vint(st.spec.x[ks])
			}
			if just.n.c == 0 {
				if st.isString(l) {
					l, h = l.plus(1), h.plus(-1)
				}
			} else {
				h = lc(0)
			}
			return tuple(k, vint(l), vint(h), vnil), true
		case fn.Name() == "ErrEqual" && len(args) == 2:
			e, c := args[0], args[1]
			if c.k != tvInt || !c.n.con() {
				und("compares an error with a code that is not known")
			}
			switch {
			case e.k == tvNil:
				return vbool(false), true
			case e.k == tvErr && e.s == "core: key not found":
				return vbool(c.n.c == missing), true
			case e.k == tvErr && e.s == "core":
				if c.n.c == missing {
					return vbool(false), true
				}
				return vop("free code", c), true
			}
			und("compares an error that is not known")
		}
		return nil, false
	}
}

// isString: the value at lo begins with a quotation mark. Its first cell was made with it.
func (st *tstate) isString(lo lx) bool {
	c := st.byteAt(0, lo)
	return c.set == bQuote
}

func (p *Program) editArgs(st *tstate, fn *ssa.Function, path bool, nilArg string) []*tv {
	var args []*tv
	for i, q := range fn.Params {
		switch {
		case i == 0 && isTextT(q.Type()):
			args = append(args, &tv{k: tvText, id: 0, hi: st.seqLen(0)})
		case q.Type().String() == "[]string":
			if path {
				id := st.newObj(&tobj{kind: 'p'})
				n := ls(st.sym(1))
				st.spec.x["plen"] = n
				args = append(args, &tv{k: tvList, id: id, hi: n})
			} else {
				args = append(args, vnil)
			}
		case q.Name() == nilArg:
			args = append(args, vnil)
		case q.Type().Underlying().String() == "int":
			n := st.looseSym()
			st.min[n] = 0
			delete(st.loose, n)
			args = append(args, vint(ls(n)))
			st.spec.v["index"] = vint(ls(n))
		default:
			args = append(args, vop("notnil argument "+q.Name()))
		}
	}
	return args
}

// editArg is the argument of fn with a type, the nth of those.
func editArg(fn *ssa.Function, typ string, n int) *tv {
	for i, q := range fn.Params {
		if i == 0 || q.Type().String() != typ {
			continue
		}
		if n == 0 {
			return vop("notnil argument " + q.Name())
		}
		n--
	}
	return nil
}

type teditSpec struct {
	name  string
	fn    *ssa.Function
	init  func(e *teng) []*tstate
	at    func(st *tstate, name string) (ks, lo, hi string, ok bool)
	check func(st *tstate, doc, err *tv)
}

func (p *Program) editDriver(s teditSpec) *tdrv {
	dr := &tdrv{name: s.name, counters: map[string]int{}, gen: genKey}
	dr.init = s.init
	dr.call = p.editCall(s.at)
	dr.ret = func(st *tstate, res []*tv) { s.check(st, res[0], res[1]) }
	return dr
}

// failed: the search did not find the path, so the call has to fail.
func (st *tstate) failed(err *tv, names ...string) bool {
	for _, n := range names {
		if v := st.spec.s["path "+n]; v == "missing" || v == "error" {
			if err.k == tvNil {
				st.fail("returns no error although the path is not found")
			}
			return true
		}
	}
	return false
}

func itemAt(path string) func(st *tstate, name string) (string, string, string, bool) {
	return func(st *tstate, name string) (string, string, string, bool) {
		if name != path {
			return "", "", "", false
		}
		ks := ""
		if _, ok := st.spec.x["klo"]; ok {
			ks = "klo"
		}
		return ks, "vlo", "vhi", true
	}
}

func (p *Program) editDrivers() []*tdrv {
	var l []*tdrv
	add := func(s teditSpec) { l = append(l, p.editDriver(s)) }
	name := map[byte]string{'o': "object", 'a': "array"}
	start := func(e *teng, fn *ssa.Function, path bool, nilArg string, docs ...*tstate) []*tstate {
		for _, st := range docs {
			st.note("%s", st.spec.s["item"])
			st.enter(fn, p.editArgs(st, fn, path, nilArg), nil, nil)
		}
		return docs
	}
	all := func(e *teng, kind byte, scan bool) (r []*tstate) {
		for _, i := range items(kind, scan) {
			r = append(r, e.item(i))
		}
		return
	}
	for _, kind := range []byte{'o', 'a'} {
		kind := kind
		if fn := p.fn("Set"); fn != nil {
			val := editArg(fn, "[]byte", 0)
			add(teditSpec{name: "Set, member of an " + name[kind], fn: fn, at: itemAt("P"),
				init: func(e *teng) []*tstate { return start(e, fn, true, "", all(e, kind, false)...) },
				check: func(st *tstate, doc, err *tv) {
					if st.failed(err, "P") {
						return
					}
					st.noErr(err)
					st.changed(doc, []lx{st.spec.x["vlo"]}, []lx{st.spec.x["vhi"]}, val)
				}})
		}
		if fn := p.fn("Delete"); fn != nil {
			add(teditSpec{name: "Delete, member of an " + name[kind], fn: fn, at: itemAt("P"),
				init: func(e *teng) []*tstate { return start(e, fn, true, "", all(e, kind, false)...) },
				check: func(st *tstate, doc, err *tv) {
					if st.failed(err, "P") {
						return
					}
					st.noErr(err)
					x := st.spec.x
					i := strings.Fields(st.spec.s["item"])
					first, last := i[1] == "true", i[2] == "true"
					before := []lx{x["mlo"], x["edge"].plus(1)}
					behind := []lx{x["vhi"], x["edge2"]}
					a, _, _ := st.splice(doc)
					switch {
					case first && last:
					case !first && st.equal(a, x["edge"]):
						// goes with the comma before it
						before = []lx{x["edge"]}
					case last:
						before = []lx{x["edge"]}
					default:
						behind = []lx{x["edge2"].plus(1)}
					}
					st.changed(doc, before, behind)
				}})
		}
		if fn := p.fn("Get"); fn != nil {
			add(teditSpec{name: "Get, member of an " + name[kind], fn: fn, at: itemAt("P"),
				init: func(e *teng) []*tstate { return start(e, fn, true, "", all(e, kind, false)...) },
				check: func(st *tstate, val, err *tv) {
					if st.failed(err, "P") {
						return
					}
					st.noErr(err)
					lo, hi := st.spec.x["vlo"], st.spec.x["vhi"]
					if st.isString(lo) {
						lo, hi = lo.plus(1), hi.plus(-1)
					}
					if val.k != tvText {
						und("returns something that is not known")
					}
					if val.id != 0 || !st.equal(val.lo, lo) || !st.equal(val.hi, hi) {
						st.fail("returns %s, the value is %s", st.part(val.lo, val.hi), st.part(lo, hi))
					}
				}})
		}
	}
	for _, f := range []string{"Set", "Delete", "SetKey"} {
		fn := p.fn(f)
		if fn == nil {
			continue
		}
		add(teditSpec{name: f + ", no path", fn: fn, at: itemAt("P"),
			init: func(e *teng) []*tstate {
				return start(e, fn, false, "", append(all(e, 'o', false), all(e, 'a', false)...)...)
			},
			check: func(st *tstate, doc, err *tv) {
				if err.k == tvNil {
					st.fail("returns no error although no place is named")
				}
			}})
	}
	if fn := p.fn("SetKey"); fn != nil {
		key := editArg(fn, "string", 0)
		sib := "P-1," + "notnil argument " + strings.TrimPrefix(key.s, "notnil argument ") + "()"
		at := func(st *tstate, name string) (string, string, string, bool) {
			if name == sib {
				return "klo", "vlo", "vhi", true
			}
			return itemAt("P")(st, name)
		}
		add(teditSpec{name: "SetKey, member of an object", fn: fn, at: at,
			init: func(e *teng) []*tstate { return start(e, fn, true, "", all(e, 'o', true)...) },
			check: func(st *tstate, doc, err *tv) {
				if st.spec.s["empty"] == "" {
					// an empty new key is refused
					if err.k == tvNil && st.equal(st.length(key), lc(0)) {
						st.fail("takes an empty key")
					}
					if err.k == tvErr && st.equal(st.length(key), lc(0)) {
						return
					}
				}
				if st.failed(err, "P") {
					return
				}
				switch st.find(sib, true) {
				case "yes":
					if err.k == tvNil {
						st.fail("renames a key to one that is there already")
					}
					return
				case "error":
					if err.k == tvNil {
						st.fail("ignores an error of the search")
					}
					return
				}
				st.noErr(err)
				st.changed(doc, []lx{st.spec.x["klo"]}, []lx{st.spec.x["khi"]}, key)
			}})
		add(teditSpec{name: "SetKey, element of an array", fn: fn, at: at,
			init: func(e *teng) []*tstate { return start(e, fn, true, "", all(e, 'a', false)...) },
			check: func(st *tstate, doc, err *tv) {
				if err.k == tvNil {
					st.fail("renames a key although an array has none")
				}
			}})
	}
	whole := func(keyed string, ok bool) func(st *tstate, name string) (string, string, string, bool) {
		return func(st *tstate, name string) (string, string, string, bool) {
			switch {
			case name == "P":
				if _, ok := st.spec.x["cstart"]; !ok {
					return "", "vlo", "vhi", true
				}
				return "", "cstart", "cend", true
			case name == keyed && ok:
				return "cstart", "cstart", "cend", true
			}
			return "", "", "", false
		}
	}
	keyName := func(key *tv, path bool) string {
		n := "notnil argument " + strings.TrimPrefix(key.s, "notnil argument ") + "()"
		if path {
			n = "P," + n
		}
		return n
	}
	for _, path := range []bool{false, true} {
		path := path
		in := ", whole document"
		if path {
			in = ", at a path"
		}
		boxes := func(e *teng, kind byte) []*tstate {
			l := []*tstate{e.container(kind, false, !path), e.container(kind, true, !path)}
			if kind == 'a' {
				l = append(l, e.container(kind, false, !path, true))
			}
			return l
		}
		others := func(e *teng, kind byte) (r []*tstate) {
			for _, v := range []byte{'"', 's', 'n', '[', '{'} {
				if v != kind {
					r = append(r, e.plainValue(v, !path, ""))
				}
			}
			return
		}
		refuse := func(st *tstate, doc, err *tv) {
			if err.k == tvNil {
				st.fail("returns no error although the value is of another kind")
			}
		}
		// a pair is added to the end of the object
		for _, f := range []string{"AddKeyValue", "Store"} {
			fn := p.fn(f)
			if fn == nil {
				continue
			}
			f := f
			key, val := editArg(fn, "string", 0), editArg(fn, "[]byte", 0)
			kn := keyName(key, path)
			for _, nilArg := range []string{"", strings.TrimPrefix(val.s, "notnil argument ")} {
				nilArg := nilArg
				v, n := val, ""
				if nilArg != "" {
					v, n = vstr("null"), ", nil value"
				}
				add(teditSpec{name: f + in + n, fn: fn, at: whole(kn, true),
					init: func(e *teng) []*tstate {
						r := start(e, fn, path, nilArg, boxes(e, 'o')...)
						if f != "Store" {
							return r
						}
						for _, st := range r {
							st.spec.s["path "+kn] = "missing"
						}
						return r
					},
					check: func(st *tstate, doc, err *tv) {
						if st.failed(err, "P") {
							return
						}
						empty := strings.Contains(st.spec.s["item"], "empty true")
						if st.spec.s["path "+kn] == "" && empty && f == "AddKeyValue" {
							// nothing to search in
						} else {
							switch st.find(kn, true) {
							case "yes":
								if empty {
									return
								}
								if err.k == tvNil {
									st.fail("adds a key that is there already")
								}
								return
							case "error":
								if err.k == tvNil {
									st.fail("ignores an error of the search")
								}
								return
							}
						}
						st.noErr(err)
						pre := `,"`
						if empty {
							pre = `"`
						}
						st.inserted(doc, vstr(pre), key, vstr(`":`), v)
					}})
			}
			if f == "Store" {
				// the key is there: its value is replaced
				for _, kind := range []byte{'o'} {
					kind := kind
					add(teditSpec{name: f + in + ", key present", fn: fn, at: func(st *tstate, name string) (string, string, string, bool) {
						if name == kn {
							return "klo", "vlo", "vhi", true
						}
						return "", "cstart", "cend", name == "P"
					},
						init: func(e *teng) []*tstate {
							var docs []*tstate
							for _, i := range items(kind, false) {
								if i.root != path {
									docs = append(docs, e.item(i))
								}
							}
							r := start(e, fn, path, "", docs...)
							for _, st := range r {
								st.spec.s["path "+kn] = "yes"
								st.spec.s["path P"] = "yes"
							}
							return r
						},
						check: func(st *tstate, doc, err *tv) {
							st.noErr(err)
							st.changed(doc, []lx{st.spec.x["vlo"]}, []lx{st.spec.x["vhi"]}, val)
						}})
				}
			} else {
				add(teditSpec{name: f + in + ", no object", fn: fn, at: whole(kn, true), check: refuse,
					init: func(e *teng) []*tstate {
						r := start(e, fn, path, "", others(e, '{')...)
						for _, st := range r {
							st.spec.s["path "+kn] = "missing"
						}
						return r
					}})
			}
		}
		if fn := p.fn("Add"); fn != nil {
			val := editArg(fn, "[]byte", 0)
			add(teditSpec{name: "Add" + in, fn: fn, at: whole("", false),
				init: func(e *teng) []*tstate { return start(e, fn, path, "", boxes(e, 'a')...) },
				check: func(st *tstate, doc, err *tv) {
					if st.failed(err, "P") {
						return
					}
					st.noErr(err)
					pre := ","
					if strings.Contains(st.spec.s["item"], "empty true") {
						pre = ""
					}
					st.inserted(doc, vstr(pre), val)
				}})
			add(teditSpec{name: "Add" + in + ", no array", fn: fn, at: whole("", false), check: refuse,
				init: func(e *teng) []*tstate { return start(e, fn, path, "", others(e, '[')...) }})
		}
		if fn := p.fn("Insert"); fn != nil {
			val := editArg(fn, "[]byte", 0)
			idx := func(st *tstate) string {
				n := st.tvs(vop("strconv.Itoa", st.spec.v["index"]))
				if path {
					n = "P," + n
				}
				return n
			}
			at := func(st *tstate, name string) (string, string, string, bool) {
				switch name {
				case "P":
					if _, ok := st.spec.x["cstart"]; !ok {
						return "", "vlo", "vhi", true
					}
					return "", "cstart", "cend", true
				case idx(st):
					return "", "vlo", "vhi", true
				}
				return "", "", "", false
			}
			add(teditSpec{name: "Insert" + in, fn: fn, at: at,
				init: func(e *teng) []*tstate {
					var docs []*tstate
					for _, i := range items('a', false) {
						if i.root != path {
							docs = append(docs, e.item(i))
						}
					}
					return start(e, fn, path, "", docs...)
				},
				check: func(st *tstate, doc, err *tv) {
					if st.failed(err, "P") {
						return
					}
					switch st.find(idx(st), true) {
					case "missing", "error":
						if err.k == tvNil {
							st.fail("returns no error although there is no element of that index")
						}
						return
					}
					st.noErr(err)
					x := st.spec.x
					a, b, _ := st.splice(doc)
					if !st.equal(a, b) {
						st.fail("takes out %s", st.part(a, b))
					}
					if st.equal(a, x["edge"]) && !strings.HasPrefix(st.spec.s["item"], "a true") {
						st.changed(doc, []lx{x["edge"]}, []lx{x["edge"]}, vstr(","), val)
						return
					}
					st.changed(doc, []lx{x["mlo"], x["edge"].plus(1)}, []lx{x["mlo"], x["edge"].plus(1)}, val, vstr(","))
				}})
			add(teditSpec{name: "Insert" + in + ", no array", fn: fn, at: at, check: refuse,
				init: func(e *teng) []*tstate {
					r := start(e, fn, path, "", others(e, '[')...)
					for _, st := range r {
						st.spec.s["path "+idx(st)] = "missing"
					}
					return r
				}})
		}
	}
	return l
}

// inserted checks that mid was put behind the last member and nothing was taken out.
func (st *tstate) inserted(doc *tv, mid ...*tv) {
	a, b, _ := st.splice(doc)
	if !st.equal(a, b) {
		st.fail("takes out %s", st.part(a, b))
	}
	x := st.spec.x
	st.changed(doc, []lx{x["ihi"], x["ilo"]}, []lx{x["ihi"], x["ilo"]}, mid...)
}

// front lists the first n elements of an output that nothing was taken out of.
func (st *tstate) front(n lx, o *tobj, f func(x *tv)) bool {
	var l []*tv
	off := lc(0)
	for _, x := range o.items {
		if off.eq(n) {
			break
		}
		k := lc(1)
		c := *x
		switch {
		case x.k == tvTuple && x.s == "all":
			k = st.length(x.a[0])
		case x.k == tvList && x.s == "all":
			k = x.hi.sub(x.lo)
			if p := st.objs[x.id]; p != nil && p.kind == 'p' && x.lo.eq(lc(0)) {
				if d := n.sub(off); !d.eq(k) && st.less(d, k) {
					k, c.hi = d, d
				}
			}
		case x.k == tvOpaque && x.s == "fill":
			return false
		}
		l = append(l, &c)
		off = off.sum(k)
	}
	if !off.eq(n) {
		return false
	}
	for _, x := range l {
		f(x)
	}
	return true
}

// element is what stands at a place of an output that nothing was taken out of.
func (st *tstate) element(i lx, o *tobj) *tv {
	off := lc(0)
	for _, x := range o.items {
		if x.k == tvList && x.s == "all" {
			p := st.objs[x.id]
			if p == nil || p.kind != 'p' {
				return nil
			}
			n := x.hi.sub(x.lo)
			if d := i.sub(off); st.less(d, n) {
				return vop("path element", vint(x.lo.sum(d)))
			}
			off = off.sum(n)
			continue
		}
		if (x.k == tvTuple || x.k == tvList) && x.s == "all" || x.k == tvOpaque && x.s == "fill" {
			return nil
		}
		if st.equal(i, off) {
			return x
		}
		off = off.plus(1)
	}
	return nil
}
