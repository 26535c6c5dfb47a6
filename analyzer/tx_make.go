package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The builders: an array or an object is made from lists, every element of them once and in order.
//
// The lists are a text of cells, one for each element: V is one that was not put out yet, D one that was.

type tbuilder struct {
	fn     *ssa.Function
	name   string
	keys   bool // an object: keys and values
	enc    string
	bools  bool
	ismap  bool
	scheme bool // the keys are those of the receiver
	uneven int  // there are more values (1) or keys (2)
}

// known terms: how an element may be written.
var makeTerms = map[string]bool{"formatType": true, "fmt": true, "strconv.Itoa": true, "strconv.FormatFloat": true, "strconv.FormatInt": true, "strconv.FormatBool": true}

func genElems(st *tstate) {
	if st.spec.s["g"] == "end" {
		und("generator in phase %q", st.spec.s["g"])
	}
	ahead := 0
	for _, c := range st.seqs[0].cells {
		if c.kind == 'V' {
			ahead++
		}
	}
	if ahead > 16 {
		und("looks far ahead in the list")
	}
	if st.spec.s["uneven"] != "" {
		// it should not have looked: a few elements will do to see what comes of it
		n := 0
		for _, c := range st.seqs[0].cells {
			if c.kind == 'V' {
				n++
			}
		}
		if n >= 2 {
			st.fork(func(c *tstate) bool { c.vanish(); return true })
		}
	}
	set := bAny
	if st.spec.s["bools"] != "" {
		set = one(0).or(one(1))
	}
	st.fork(func(c *tstate) bool { c.emit('V', set); return true }, func(c *tstate) bool { c.vanish(); return true })
}

// elemCmp compares numbers of the lists: the outcome is open, and the same for as long as the element is there.
func (st *tstate) elemCmp(op token.Token, x, y *tv) (*tv, bool) {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, false
	}
	fact := "num:"
	some := false
	for _, v := range []*tv{x, y} {
		switch {
		case v.k == tvElem:
			c := st.cell(v.id)
			if c == nil {
				return nil, false
			}
			some = some || c.kind == 'V'
			fact += fmt.Sprintf("%s%d ", v.s, v.id)
		case v.k == tvInt && v.n.con():
			fact += fmt.Sprintf("%d ", v.n.c)
		case v.k == tvOpaque && strings.HasPrefix(v.s, "const "):
			fact += v.s + " "
		default:
			return nil, false
		}
	}
	if !some || x.k == tvElem && y.k == tvElem && x.id == y.id {
		return nil, false
	}
	neg := op == token.NEQ
	if neg {
		op = token.EQL
	}
	fact += op.String()
	if r, ok := st.spec.s[fact]; ok {
		return vbool((r == "yes") != neg), true
	}
	for n := range st.spec.s {
		if strings.HasPrefix(n, "num:") {
			// the two may not go together
			return nil, false
		}
	}
	st.fork(func(c *tstate) bool { c.spec.s[fact] = "yes"; return true }, func(c *tstate) bool { c.spec.s[fact] = "no"; return true })
	return nil, false
}

// nextElem is the first element that was not put out, nil when there is none.
func (st *tstate) nextElem() (*tcell, int) {
	for j, c := range st.seqs[0].cells {
		switch c.kind {
		case 'V':
			return c, j
		case 'g':
			if st.spec.s["g"] != "end" {
				genElems(st)
			}
		}
	}
	return nil, 0
}

// term writes what is known about where a text comes from.
func (st *tstate) term(v *tv, next int) (s string, known bool) {
	switch v.k {
	case tvElem:
		if v.id == next {
			return v.s, true
		}
		return "other " + v.s, true
	case tvStr:
		return "const", true
	case tvInt:
		return st.lxs(v.n), v.n.con()
	case tvIface:
		return st.term(v.a[0], next)
	case tvOpaque:
		if strings.HasPrefix(v.s, "convert ") && len(v.a) == 1 {
			t, ok := st.term(v.a[0], next)
			switch v.s {
			case "convert int64", "convert int", "convert float64":
				return t, ok
			case "convert int8", "convert int16", "convert int32", "convert uint8", "convert uint16", "convert uint32", "convert float32":
				return v.s + "(" + t + ")", ok
			}
			return v.s + "(" + t + ")", false
		}
		if !makeTerms[v.s] {
			return v.s, false
		}
		s, known = v.s+"(", true
		for i, a := range v.a {
			if i > 0 {
				s += ","
			}
			t, ok := st.term(a, next)
			s += t
			known = known && ok
		}
		return s + ")", known
	}
	return st.tvs(v), false
}

func (p *Program) builderDriver(b tbuilder) *tdrv {
	dr := &tdrv{name: b.name, counters: map[string]int{}, coarse: true, coarseAt: 2, lists: true, gen: genElems}
	open, shut, what := byte('['), byte(']'), "array"
	if b.keys {
		open, shut, what = '{', '}', "object"
	}
	tokens := []string{"V"}
	if b.keys {
		tokens = []string{`"`, "K", `"`, ":", "V"}
	}
	dr.init = func(e *teng) []*tstate {
		st := e.newState()
		st.seqs = []*tseq{{cells: []*tcell{st.cellRun('g', bAny, 0)}}}
		if b.uneven != 0 {
			n := *st.seqs[0].cells[0]
			m := st.cellRun('g', bAny, 0)
			m.n = n.n.sum(ls(st.sym(1)))
			st.seqs = append(st.seqs, &tseq{cells: []*tcell{m}})
		}
		st.spec.s["g"] = "list"
		if b.uneven != 0 {
			st.spec.s["uneven"] = "yes"
		}
		if b.bools {
			st.spec.s["bools"] = "yes"
		}
		list := func(q int, s string) *tv { return &tv{k: tvText, s: s, id: q, hi: st.seqLen(q)} }
		vals, keys := list(0, "V"), list(0, "K")
		if b.uneven == 1 {
			vals = list(1, "V")
		} else if b.uneven == 2 {
			keys = list(1, "K")
		}
		var args []*tv
		if b.ismap {
			args = append(args, list(0, "M"))
		} else {
			for i, q := range b.fn.Params {
				switch {
				case i == 0 && b.scheme:
					s := q.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					o := &tobj{kind: 'a'}
					for j := 0; j < s.NumFields(); j++ {
						if s.Field(j).Name() == "keys" {
							o.elems = append(o.elems, keys)
						} else {
							o.elems = append(o.elems, vop("field "+s.Field(j).Name()))
						}
					}
					args = append(args, &tv{k: tvAddr, id: st.newObj(o)})
				case i == 0 && b.keys:
					args = append(args, keys)
				default:
					args = append(args, vals)
				}
			}
		}
		st.enter(b.fn, args, nil, nil)
		return []*tstate{st}
	}
	dr.load = func(st *tstate, c *tcell, name string) *tv {
		if b.bools {
			if st.inSet(&tv{k: tvCell, id: c.id}, one(1)) {
				return vbool(true)
			}
			return vbool(false)
		}
		if c.kind != 'V' {
			return &tv{k: tvElem, id: c.id, s: "old " + name}
		}
		return &tv{k: tvElem, id: c.id, s: name}
	}
	dr.call = func(st *tstate, f *ssa.Function, args []*tv) (*tv, bool) {
		switch n := f.String(); n {
		case "fmt.Sprintf", "fmt.Sprint":
			l := args[len(args)-1]
			o := st.objs[l.id]
			if l.k != tvList || o == nil || o.kind != 'a' || !l.lo.con() || !l.hi.con() || l.hi.c-l.lo.c != 1 {
				und("writes several things at once")
			}
			x := o.elems[l.lo.c]
			if n == "fmt.Sprintf" && (args[0].k != tvStr || args[0].s != "%v") {
				return vop("fmt", args[0], x), true
			}
			return vop("fmt", x), true
		default:
			if f.Package() == p.SSA && f.Name() == "formatType" && len(args) == 1 {
				if args[0].k == tvStr {
					und("writes a constant as a value")
				}
				return vop("formatType", args[0]), true
			}
		}
		return nil, false
	}
	// put says that one thing was put out; it returns what is left of a word.
	put := func(st *tstate, v *tv, ph string, at int, word string) (string, int, string) {
		fail := func(exp string) {
			got := st.tvs(v)
			if v.k == tvInt {
				got = string([]byte{byte(v.n.c)})
			}
			st.fail("puts out %s where %s is due", got, exp)
		}
		// the elements are to be over
		last := func(put string) {
			if c, _ := st.nextElem(); c != nil {
				st.fail("%s although there is another element", put)
			}
		}
		isByte := v.k == tvInt && v.n.con()
		if word != "" {
			if !isByte || v.n.c != int(word[0]) {
				fail(word)
			}
			return ph, at, word[1:]
		}
		switch ph {
		case "new":
			if isByte && v.n.c == int(open) {
				return "start", 0, ""
			}
			fail("the opening bracket")
		case "start", "after":
			if at == 0 && isByte && v.n.c == int(shut) {
				last("closes the " + what)
				return "shut", 0, ""
			}
			if ph == "after" && at == 0 {
				if isByte && v.n.c == ',' {
					return "sep", 0, ""
				}
				fail("a comma or the end")
			}
		case "shut":
			fail("nothing")
		}
		// inside of a member
		c, _ := st.nextElem()
		if c == nil {
			st.fail("puts out something although all elements are out")
		}
		t := tokens[at]
		switch {
		case len(t) == 1 && t != "V" && t != "K":
			if !isByte || v.n.c != int(t[0]) {
				fail(t)
			}
		case t == "V" && b.bools:
			w := "false"
			if st.inSet(&tv{k: tvCell, id: c.id}, one(1)) {
				w = "true"
			}
			if v.k == tvOpaque && v.s == "strconv.FormatBool" {
				und("puts out something that is not known")
			}
			if !isByte || v.n.c != int(w[0]) {
				fail(w)
			}
			word = w[1:]
		default:
			exp := "K"
			if t == "V" {
				exp = b.enc
			}
			got, known := st.term(v, c.id)
			if isByte || v.k == tvStr {
				// what is known of the element may make it this one
				for n := range st.spec.s {
					if strings.HasPrefix(n, "num:") || strings.HasPrefix(n, "is:") {
						und("puts out a constant in place of an element something is known about")
					}
				}
			}
			switch {
			case got == exp, exp == "strconv.Itoa(V)" && got == "strconv.FormatInt(V,10)":
			case exp == "strconv.Itoa(V)" && got == "fmt(V)":
			case isByte && t == "K":
				st.fail("puts out a constant in place of a key")
			case known || isByte:
				st.fail("puts out %s where %s of the next element is due", got, exp)
			default:
				und("puts out something that is not known: %s", got)
			}
		}
		at++
		if at == len(tokens) {
			return "after", 0, word
		}
		return "sep", at, word
	}
	dr.append = func(st *tstate, id int, v *tv) {
		o := st.objs[id]
		if b.uneven != 0 {
			return
		}
		if o.tag != "out" {
			first := v.k == tvInt && v.n.con() && v.n.c == int(open) && len(o.items) == 0
			if !first || st.spec.s["some"] != "" {
				o = st.own(id)
				o.items = append(o.items, v)
				return
			}
		}
		ph, at, word := st.spec.s["ph"], st.qlen("at"), st.spec.s["word"]
		if o.tag != "out" {
			ph = "new"
		}
		l := []*tv{v}
		switch {
		case v.k == tvTuple && v.s == "all", v.k == tvList && v.s == "all":
			l = l[:0]
			for _, x := range st.parts(v0(v)) {
				if x.k == tvStr {
					for i := 0; i < len(x.s); i++ {
						l = append(l, vnum(int(x.s[i])))
					}
					continue
				}
				l = append(l, x)
			}
		case v.k != tvInt || !v.n.con():
			if v.k != tvOpaque && v.k != tvElem {
				und("puts out something that is not known: %s", st.tvs(v))
			}
		}
		if word == "" && (ph == "sep" || ph == "start") || word != "" && at == 0 {
			// the element that is due has to be known before anything changes
			if b.uneven == 0 {
				st.nextElem()
			}
		}
		n := 0 // members put out
		for _, x := range l {
			was, left := ph, word
			if n > 0 && (ph == "sep" || ph == "start") {
				und("puts out several elements at once")
			}
			ph, at, word = put(st, x, ph, at, word)
			if ph == "after" && word == "" && (was != "after" || left != "") {
				n++
			}
		}
		if o.tag == "" {
			st.own(id).tag = "out"
			st.spec.s["some"] = "yes"
		}
		st.spec.s["ph"], st.spec.s["word"] = ph, word
		if at > 0 {
			st.spec.s["q:at"] = strconv.Itoa(at)
		} else {
			delete(st.spec.s, "q:at")
		}
		if n > 0 {
			c, j := st.nextElem()
			d := *c
			d.kind = 'D'
			d.set = bAny
			st.setCells(0, j, j+1, &d)
			for n := range st.spec.s {
				if strings.HasPrefix(n, "num:") || strings.HasPrefix(n, "was:") {
					delete(st.spec.s, n)
				}
			}
			delete(st.spec.s, "is:K")
			delete(st.spec.s, "is:V")
		}
	}
	dr.cut = func(st *tstate, id int, hi lx) bool {
		o := st.objs[id]
		if o.tag != "out" || st.spec.s["ph"] != "sep" || st.qlen("at") != 0 || st.spec.s["word"] != "" {
			return false
		}
		if d := o.n.sub(hi); !d.con() || d.c != 1 {
			return false
		}
		o = st.own(id)
		o.n = hi
		st.spec.s["ph"] = "after"
		return true
	}
	dr.ret = func(st *tstate, res []*tv) {
		r := res[0]
		if b.uneven != 0 {
			if r.k != tvNil {
				st.fail("returns something although the lists are not of the same length")
			}
			return
		}
		if r.k == tvNil {
			st.fail("returns nothing")
		}
		if r.k == tvList && st.objs[r.id] != nil && st.objs[r.id].tag == "out" {
			o := st.objs[r.id]
			if ph := st.spec.s["ph"]; ph != "shut" {
				if d := o.n.sub(r.hi); ph == "sep" && d.con() && d.c == 1 {
					ph = "after"
				}
				st.fail("returns an %s that is not closed", what)
			}
			if !r.lo.eq(lc(0)) || !r.hi.eq(o.n) {
				st.fail("returns a part of what it put out")
			}
			return
		}
		for _, x := range st.parts(r) {
			if x.k != tvStr {
				und("returns something that is not known")
			}
		}
		if c, _ := st.nextElem(); c != nil {
			st.fail("returns a constant although there are elements")
		}
		s := ""
		for _, x := range st.parts(r) {
			s += x.s
		}
		if s != string([]byte{open, shut}) {
			st.fail("returns %q for no elements", s)
		}
	}
	return dr
}

// v0 is the thing all of which is appended.
func v0(v *tv) *tv {
	if v.k == tvTuple {
		return v.a[0]
	}
	c := *v
	c.s = ""
	return &c
}

func (p *Program) builderDrivers() []*tdrv {
	var l []*tdrv
	add := func(b tbuilder) {
		name := b.name
		if b.fn == nil {
			b.fn = p.fn(name)
		}
		if b.fn == nil {
			return
		}
		l = append(l, p.builderDriver(b))
		if b.keys && !b.ismap {
			b.uneven, b.name = 1, name+", more values"
			l = append(l, p.builderDriver(b))
			b.uneven, b.name = 2, name+", more keys"
			l = append(l, p.builderDriver(b))
		}
	}
	add(tbuilder{name: "MakeArray", enc: "formatType(fmt(V))"})
	add(tbuilder{name: "MakeArrayString", enc: "formatType(V)"})
	add(tbuilder{name: "MakeArrayInt", enc: "strconv.Itoa(V)"})
	add(tbuilder{name: "MakeArrayBool", bools: true})
	add(tbuilder{name: "MakeArrayFloat", enc: "strconv.FormatFloat(V,102,-1,64)"})
	add(tbuilder{name: "MakeArrayBytes", enc: "V"})
	add(tbuilder{name: "MakeJson", keys: true, enc: "formatType(fmt(V))"})
	add(tbuilder{name: "MakeJsonString", keys: true, enc: "formatType(V)"})
	add(tbuilder{name: "MakeJsonWithMap", keys: true, ismap: true, enc: "formatType(V)"})
	add(tbuilder{name: "Scheme.MakeJson", fn: p.methodOf("Scheme", "MakeJson"), scheme: true, keys: true, enc: "formatType(fmt(V))"})
	add(tbuilder{name: "Scheme.MakeJsonString", fn: p.methodOf("Scheme", "MakeJsonString"), scheme: true, keys: true, enc: "formatType(V)"})
	return l
}
