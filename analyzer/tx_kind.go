package main

import (
	"golang.org/x/tools/go/ssa"
)

// What kind of value is at a place: the type queries, and the calls that take one kind only.

type tkind struct {
	val   byte
	root  bool
	empty string // "": a value, "yes" and "no": a container
	num   string // what a number is made of
}

func kinds() []tkind {
	var l []tkind
	for _, root := range []bool{true, false} {
		for _, v := range []byte{'"', 's', 'b', 't', 'f', 'N'} {
			l = append(l, tkind{val: v, root: root})
		}
		for _, sign := range []string{"", "-"} {
			for _, d := range []string{"0", "1"} {
				for _, frac := range []string{"", "."} {
					for _, exp := range []string{"", "e", "e+"} {
						l = append(l, tkind{val: '#', root: root, num: sign + d + frac + exp})
					}
				}
			}
		}
		for _, v := range []byte{'o', 'a'} {
			l = append(l, tkind{val: v, root: root, empty: "yes"}, tkind{val: v, root: root, empty: "no"})
		}
		l = append(l, tkind{val: 'a', root: root, empty: "no", num: "1"})
	}
	return l
}

func (k tkind) name() string {
	switch k.val {
	case 'o':
		return "object"
	case 'a':
		return "array"
	case '"', 's', 'b':
		return "string"
	case 't', 'f':
		return "boolean"
	case 'N':
		return "null"
	}
	return "number"
}

func (e *teng) kindDoc(k tkind) *tstate {
	var st *tstate
	if k.empty != "" {
		if k.num != "" {
			st = e.container(k.val, false, k.root, true)
		} else {
			st = e.container(k.val, k.empty == "yes", k.root)
		}
		st.spec.x["vlo"], st.spec.x["vhi"] = st.spec.x["cstart"], st.spec.x["cend"]
	} else {
		st = e.plainValue(k.val, k.root, k.num)
	}
	st.spec.s["kind"] = k.name()
	st.spec.s["empty"] = k.empty
	return st
}

func (p *Program) kindDriver(fn *ssa.Function, path bool, which func(k tkind) bool, check func(st *tstate, res []*tv, err *tv)) *tdrv {
	in := ", whole document"
	if path {
		in = ", at a path"
	}
	dr := &tdrv{name: fn.Name() + in, counters: map[string]int{}, gen: genKey, first: true}
	dr.init = func(e *teng) []*tstate {
		var l []*tstate
		for _, k := range kinds() {
			if k.root == path || !which(k) {
				continue
			}
			st := e.kindDoc(k)
			st.note("%s", st.spec.s["item"])
			st.enter(fn, p.editArgs(st, fn, path, ""), nil, nil)
			l = append(l, st)
		}
		return l
	}
	dr.call = p.editCall(func(st *tstate, name string) (string, string, string, bool) {
		if name != "P" {
			return "", "", "", false
		}
		return "", "vlo", "vhi", true
	})
	dr.callback = func(st *tstate, args []*tv) *tv {
		st.fail("hands out something of a value of another kind")
		return nil
	}
	dr.append = func(st *tstate, id int, v *tv) {
		o := st.own(id)
		o.items = append(o.items, v)
	}
	dr.ret = func(st *tstate, res []*tv) {
		err := res[len(res)-1]
		if path && st.failed(err, "P") {
			return
		}
		check(st, res[:len(res)-1], err)
	}
	return dr
}

func (p *Program) kindDrivers() []*tdrv {
	var l []*tdrv
	all := func(k tkind) bool { return true }
	boolean := func(want func(st *tstate) bool) func(st *tstate, res []*tv, err *tv) {
		return func(st *tstate, res []*tv, err *tv) {
			st.noErr(err)
			if res[0].k != tvBool {
				und("returns something that is not known")
			}
			if w := want(st); (res[0].n.c == 1) != w {
				st.fail("says %v of the %s%s", !w, map[string]string{"yes": "empty ", "no": "", "": ""}[st.spec.s["empty"]], st.spec.s["kind"])
			}
		}
	}
	refuse := func(st *tstate, res []*tv, err *tv) {
		switch err.k {
		case tvNil:
			st.fail("returns no error although the value is a%s", map[bool]string{true: "n ", false: " "}[st.spec.s["kind"][0] == 'a' || st.spec.s["kind"][0] == 'o']+st.spec.s["kind"])
		case tvErr:
		default:
			und("returns an error that is not known")
		}
	}
	for _, path := range []bool{false, true} {
		add := func(name string, which func(k tkind) bool, check func(st *tstate, res []*tv, err *tv)) {
			if fn := p.fn(name); fn != nil {
				l = append(l, p.kindDriver(fn, path, which, check))
			}
		}
		add("IsObject", all, boolean(func(st *tstate) bool { return st.spec.s["kind"] == "object" }))
		add("IsArray", all, boolean(func(st *tstate) bool { return st.spec.s["kind"] == "array" }))
		add("IsValue", all, boolean(func(st *tstate) bool { return st.spec.s["kind"] != "object" && st.spec.s["kind"] != "array" }))
		add("IsEmpty", func(k tkind) bool { return k.empty != "" }, boolean(func(st *tstate) bool { return st.spec.s["empty"] == "yes" }))
		add("GetType", all, func(st *tstate, res []*tv, err *tv) {
			st.noErr(err)
			if res[0].k != tvStr {
				und("returns something that is not known")
			}
			if w := st.spec.s["kind"]; res[0].s != w {
				st.fail("says %s of the %s", res[0].s, w)
			}
		})
		noArray := func(k tkind) bool { return k.val != 'a' }
		noObject := func(k tkind) bool { return k.val != 'o' }
		add("IterateArray", noArray, refuse)
		add("IterateKeyValue", noObject, refuse)
		add("GetKeys", noObject, refuse)
		add("GetValues", noObject, refuse)
		add("GetKeysValues", noObject, refuse)
		add("GetMap", func(k tkind) bool { return k.empty == "" }, refuse)
		for _, n := range []string{"GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray"} {
			add(n, func(k tkind) bool { return k.val == 'o' || k.empty == "" && k.name() != "string" }, refuse)
		}
	}
	return l
}
