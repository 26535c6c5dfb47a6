package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Name() == name && f.Signature.Recv() == nil && f.Parent() == nil {
			return f
		}
	}
	return nil
}

// methodOf is a method of a type or of a pointer to it.
func (p *Program) methodOf(typ, name string) *ssa.Function {
	for _, f := range p.Funcs {
		if r := f.Signature.Recv(); f.Name() == name && r != nil && f.Parent() == nil && strings.HasSuffix(r.Type().String(), "."+typ) {
			return f
		}
	}
	return nil
}

var cntCaps = map[string]int{"depth": 2}

func where(d tdoc) string {
	k := "array"
	if d.kind == 'o' {
		k = "object"
	}
	if d.path {
		return k + " at a path"
	}
	return k
}

// iterDriver: every element is handed to the callback once, in order, as long as it says so.
func (p *Program) iterDriver(fn *ssa.Function, d tdoc) *tdrv {
	g := &cgram{vals: true, keys: d.kind == 'o', kind: d.kind}
	dr := &tdrv{name: fn.Name() + ", " + where(d), counters: cntCaps}
	dr.init = func(e *teng) []*tstate { return []*tstate{e.docState(fn, d)} }
	dr.gen = g.gen
	dr.call = coreCall
	dr.callback = func(st *tstate, args []*tv) *tv {
		if st.spec.s["noval"] != "" {
			st.fail("calls back although the path is not found")
		}
		if s := st.spec.s["stop"]; s != "" {
			st.fail("calls back again after the callback returned %s", s)
		}
		if d.kind == 'o' {
			st.take("k", "key", args[0])
			st.take("v", "value", args[1])
		} else {
			st.take("v", "element", args[0])
		}
		next := func(c *tstate) {
			if d.kind == 'o' {
				c.pop("k")
			}
			c.pop("v")
		}
		st.results(func(c *tstate) *tv {
			next(c)
			return tuple(vbool(true), vnil)
		}, func(c *tstate) *tv {
			next(c)
			c.spec.s["stop"] = "false"
			return tuple(vbool(false), vnil)
		}, func(c *tstate) *tv {
			next(c)
			c.spec.s["stop"] = "an error"
			return tuple(vbool(true), &tv{k: tvErr, s: "callback"})
		}, func(c *tstate) *tv {
			next(c)
			c.spec.s["stop"] = "an error"
			return tuple(vbool(false), &tv{k: tvErr, s: "callback"})
		})
		return nil
	}
	dr.ret = func(st *tstate, res []*tv) {
		err := res[0]
		if st.spec.s["noval"] != "" {
			st.isErr(err, "core")
			return
		}
		switch st.spec.s["stop"] {
		case "false":
			st.noErr(err)
			return
		case "an error":
			st.isErr(err, "callback")
			return
		}
		if st.empty(err) {
			return
		}
		st.noErr(err)
		st.rest("k", "v")
	}
	return dr
}

// empty: an empty container may be answered with an error.
func (st *tstate) empty(err *tv) bool {
	if err.k != tvErr {
		return false
	}
	for st.spec.s["g"] == "first" {
		st.e.drv.gen(st)
	}
	return st.spec.s["g"] == "end" && st.spec.s["n"] == "" && st.spec.x["n"].eq(lc(0))
}

func (st *tstate) noErr(v *tv) {
	switch v.k {
	case tvNil:
		return
	case tvErr:
		st.fail("returns the error of %s", v.s)
	}
	und("returns an error that is not known")
}

func (st *tstate) isErr(v *tv, name string) {
	switch v.k {
	case tvNil:
		st.fail("returns no error after %s returned one", name)
	case tvErr:
		if name != "" && v.s != name && name == "callback" {
			st.fail("returns another error than the callback's")
		}
		return
	}
	und("returns an error that is not known")
}

func init() {
	checks["C00x"] = func(p *Program, r *Report) {
		debug.SetGCPercent(200)
		var all []*tdrv
		for _, l := range [][]*tdrv{p.iterDrivers(), p.getDrivers(), p.searchDrivers(), p.editDrivers(), p.kindDrivers(), p.arrayDrivers(), p.formatDrivers(), p.walkDrivers(), p.builderDrivers()} {
			all = append(all, l...)
		}
		for _, d := range all {
			if f := os.Getenv("TXONLY"); f != "" && !strings.Contains(d.name+"!", f) {
				continue
			}
			o := p.explore(d, 300000, 300)
			fmt.Printf("%-40s states %d ends %d fails %d und %d  %.1fs\n", o.name, o.nst, o.ends, len(o.fails), len(o.und), o.secs)
			for _, f := range o.fails {
				fmt.Println("  FAIL", f.where, f.msg)
				for _, t := range f.trail {
					fmt.Println("       ", t)
				}
			}
			for i, u := range o.und {
				if i < 12 {
					fmt.Println("  UND", u)
				}
			}
		}
		r.add("x", "x", "x", true, "")
	}
}

func (p *Program) iterDrivers() []*tdrv {
	var l []*tdrv
	for _, path := range []bool{false, true} {
		l = append(l, p.iterDriver(p.fn("IterateArray"), tdoc{kind: 'a', path: path}))
		l = append(l, p.iterDriver(p.fn("IterateKeyValue"), tdoc{kind: 'o', path: path}))
	}
	return l
}
