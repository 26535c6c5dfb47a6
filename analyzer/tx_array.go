package main

import "golang.org/x/tools/go/ssa"

// The functions that hand out the elements of an array as a list of strings, integers, floats or booleans.

func (p *Program) arrayDriver(fn *ssa.Function, d tdoc, conv string) *tdrv {
	g := &cgram{kind: 'a', vals: true, nostr: conv == "bool"}
	dr := &tdrv{name: fn.Name() + ", " + where(d), counters: cntCaps, coarse: true, first: conv == "bool"}
	dr.init = func(e *teng) []*tstate { return []*tstate{e.docState(fn, d)} }
	dr.gen = g.gen
	dr.call = func(st *tstate, f *ssa.Function, args []*tv) (*tv, bool) {
		if n := f.String(); conv == n {
			// an element is converted: it is the next one
			st.take("v", "element", args[0])
			if len(args) > 1 && (args[1].k != tvInt || !args[1].n.eq(lc(64))) {
				und("converts to another size")
			}
			v := vop("any number")
			if st.spec.s["conv"] == "good" {
				return tuple(v, vnil), true
			}
			st.results(func(c *tstate) *tv {
				c.spec.s["conv"] = "good"
				return tuple(v, vnil)
			}, func(c *tstate) *tv {
				c.spec.s["conv"] = "bad"
				c.note("the element does not convert")
				return tuple(vnum(0), &tv{k: tvErr, s: n})
			})
		}
		return coreCall(st, f, args)
	}
	dr.append = func(st *tstate, id int, v *tv) {
		if st.spec.s["noval"] != "" || st.spec.s["conv"] == "bad" {
			und("goes on with a list after an error")
		}
		switch conv {
		case "":
			st.take("v", "element", v)
		case "bool":
			if v.k != tvBool {
				und("hands out something that is not known: %s", st.tvs(v))
			}
			s := "false"
			if v.n.c == 1 {
				s = "true"
			}
			st.take("v", "element", vstr(s))
		default:
			if v.k != tvOpaque || v.s != "any number" {
				und("hands out something that is not known: %s", st.tvs(v))
			}
			if st.spec.s["conv"] != "good" {
				st.fail("hands out a number that was handed out before")
			}
		}
		if st.objs[id].tag == "" {
			if st.spec.s["out:v"] != "" {
				st.fail("hands out an element in a second list")
			}
			st.own(id).tag = "v"
			st.spec.s["out:v"] = "some"
		}
		delete(st.spec.s, "conv")
		st.pop("v")
	}
	dr.ret = func(st *tstate, res []*tv) {
		if len(res) > 1 {
			err := res[len(res)-1]
			if st.spec.s["noval"] != "" {
				st.isErr(err, "core")
				return
			}
			if st.spec.s["conv"] == "bad" {
				if err.k == tvNil {
					st.fail("returns no error although an element does not convert")
				}
				return
			}
			if err.k == tvErr && conv == "bool" {
				lo, hi, ok := st.head("v")
				if !ok {
					st.fail("returns the error of %s although no element has come to its end", err.s)
				}
				for _, s := range []string{"true", "false"} {
					if st.is(vstr(s), lo, hi) {
						st.fail("returns the error of %s although the element is %s", err.s, s)
					}
				}
				return
			}
			st.noErr(err)
		}
		st.rest("v")
		st.isOutput(res[0], "v", "elements")
	}
	return dr
}

func (p *Program) arrayDrivers() []*tdrv {
	var l []*tdrv
	if fn := p.fn("ParseArray"); fn != nil {
		l = append(l, p.arrayDriver(fn, tdoc{kind: 'a', trim: true}, ""))
	}
	for _, path := range []bool{false, true} {
		d := tdoc{kind: 'a', path: path, trim: !path}
		for _, x := range [][2]string{{"GetStringArray", ""}, {"GetIntArray", "strconv.Atoi"}, {"GetFloatArray", "strconv.ParseFloat"}, {"GetBoolArray", "bool"}} {
			if fn := p.fn(x[0]); fn != nil {
				l = append(l, p.arrayDriver(fn, d, x[1]))
			}
		}
	}
	return l
}
