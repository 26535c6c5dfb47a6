package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkScheme }

// listSources: the values a slice is made of, without what only reads them.
func listSources(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	switch v := v.(type) {
	case *ssa.Phi:
		seen[v] = true
		for _, e := range v.Edges {
			listSources(e, seen)
		}
		return
	case *ssa.Slice:
		listSources(v.X, seen)
		return
	case *ssa.ChangeType:
		listSources(v.X, seen)
		return
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			listSources(v.Call.Args[0], seen)
		}
	case *ssa.Const:
		return
	}
	seen[v] = true
}

// elemNames: where the strings of a list come from.
func (a *PTS) elemNames(lists ptSet) map[string]bool {
	out := map[string]bool{}
	for l := range lists {
		for e := range a.elem(l).set {
			n := e.name
			if i := strings.Index(n, "#"); i >= 0 {
				n = n[:i]
			}
			out[n] = true
		}
	}
	return out
}

func sortedNames(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "nothing"
	}
	return strings.Join(l, " and ")
}

func sameNames(m map[string]bool, want ...string) bool {
	if len(m) != len(want) {
		return false
	}
	for _, w := range want {
		if !m[w] {
			return false
		}
	}
	return true
}

func checkScheme(p *Program, r *Report) {
	r.Expl = "Points-to analysis of each Scheme method on its own, called with any receiver. For both key lists: which methods store to them, whose memory is stored, and where the strings in it come from. A list is only ever replaced by memory the method made or grown in place; the saved list is changed by Save alone, from the current one; Restore fills the current one from the saved one; what is handed out is new. The builders of a Scheme are compared with the package functions applied to its current keys."
	nm := p.names()
	if nm.keys == "" || nm.orig == "" {
		r.add("key-lists-found", "Scheme", "make.go", false, "the two key lists of Scheme cannot be told apart")
		return
	}
	heldKeys, heldOrig := "memory held by "+nm.keys+"[]", "memory held by "+nm.orig+"[]"
	type want struct {
		stores map[string][]string // field -> names of the sources of its strings
		result []string
	}
	wants := map[string]want{
		"Scheme.Save":            {stores: map[string][]string{nm.orig: {heldKeys}}},
		"Scheme.Restore":         {stores: map[string][]string{nm.keys: {heldOrig}}},
		"Scheme.Add":             {},
		"Scheme.Remove":          {stores: map[string][]string{nm.keys: {heldKeys}}},
		"Scheme.GetCurrentKeys":  {result: []string{heldKeys}},
		"Scheme.GetOriginalKeys": {result: []string{heldOrig}},
		"MakeScheme":             {},
	}
	var roots []*ssa.Function
	for _, f := range p.exported() {
		if recvName(f) == "Scheme" || f.Name() == "MakeScheme" {
			roots = append(roots, f)
		}
	}
	seenRoot := map[string]bool{}
	p.eachRoot(r, roots, func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		name := fnName(f)
		seenRoot[name] = true
		w := wants[name]
		arg := func(i int) string {
			if i < len(f.Params) {
				return "argument " + f.Params[i].Name() + " of " + name
			}
			return "?"
		}
		switch name {
		case "Scheme.Add":
			w.stores = map[string][]string{nm.keys: {heldKeys, arg(1)}}
		case "MakeScheme":
			w.stores = map[string][]string{nm.keys: {arg(0) + "[]"}, nm.orig: {arg(0) + "[]"}}
		}
		where := p.pos(f.Pos()) + " " + name
		stored := map[string]ptSet{}
		values := map[string]map[ssa.Value]bool{}
		for _, rt := range a.retain {
			if !live[rt.fn] || rt.fld != nm.keys && rt.fld != nm.orig {
				continue
			}
			if stored[rt.fld] == nil {
				stored[rt.fld] = ptSet{}
				values[rt.fld] = map[ssa.Value]bool{}
			}
			for o := range rt.dst.set {
				stored[rt.fld][o] = true
			}
			listSources(rt.in.(*ssa.Store).Val, values[rt.fld])
		}
		for _, fld := range []string{nm.keys, nm.orig} {
			_, may := w.stores[fld]
			set, does := stored[fld]
			r.add("list-is-changed-by-its-methods", name+"/"+fld, where, does == may, noteIf(does && !may, "changes "+fld)+noteIf(may && !does, "does not change "+fld))
			if !does {
				continue
			}
			var bad []*Obj
			for _, o := range sortedObjs(set) {
				if o.kind != oAlloc && !(o.kind == oHeld && o.field == fld) || sharedSite(o) {
					bad = append(bad, o)
				}
			}
			r.add("list-is-its-own-memory", name+"/"+fld, where, len(bad) == 0, noteIf(len(bad) > 0, "stores "+ptList(bad)))
			if may {
				got := a.elemNames(set)
				if reused(a, live, fld) && name != "Scheme.Remove" && name != "Scheme.Add" {
					delete(got, "memory held by "+fld+"[]") // only its capacity is used again
				}
				r.add("list-has-the-right-keys", name+"/"+fld, where, sameNames(got, w.stores[fld]...), "filled from "+sortedNames(got))
			}
		}
		if len(values) == 2 {
			shared := ""
			for v := range values[nm.keys] {
				if values[nm.orig][v] {
					if _, c := v.(*ssa.Const); !c {
						shared = v.Name()
					}
				}
			}
			r.add("lists-are-apart", name, where, shared == "", noteIf(shared != "", "both lists are made of "+shared))
		}
		if w.result != nil {
			set := a.ret(f, 0).set
			var bad []*Obj
			for _, o := range sortedObjs(set) {
				if o.kind != oAlloc || sharedSite(o) {
					bad = append(bad, o)
				}
			}
			r.add("list-handed-out-is-new", name, where, len(bad) == 0, ptList(bad))
			got := a.elemNames(set)
			r.add("list-has-the-right-keys", name+"/result", where, sameNames(got, w.result...), "filled from "+sortedNames(got))
		}
	})
	for n := range wants {
		if !seenRoot[n] {
			r.add("list-is-changed-by-its-methods", n, "make.go", false, "function is gone")
		}
	}
	k := strings.TrimPrefix(nm.keys, "Scheme.")
	specs := []specFn{
		{key: "Scheme.MakeJson", recv: "Scheme", name: "MakeJson", spec: "verifReferenceMJ", rule: "builder-uses-current-keys",
			src: fmt.Sprintf("func verifReferenceMJ(s *Scheme, values ...interface{}) []byte { return MakeJson(s.%s, values) }\n", k)},
		{key: "Scheme.MakeJsonString", recv: "Scheme", name: "MakeJsonString", spec: "verifReferenceMJS", rule: "builder-uses-current-keys",
			src: fmt.Sprintf("func verifReferenceMJS(s *Scheme, values ...string) []byte { return MakeJsonString(s.%s, values) }\n", k)},
	}
	compareSpecs(p, r, specs, nil)
	r.floor("list-is-changed-by-its-methods", 20)
	r.floor("list-is-its-own-memory", 6)
	r.floor("list-has-the-right-keys", 8)
	r.floor("list-handed-out-is-new", 2)
	r.floor("lists-are-apart", 1)
	r.floor("builder-uses-current-keys", 2)
}

// reused: what is stored in the list is append(list[:0], ...).
func reused(a *PTS, live map[*ssa.Function]bool, fld string) bool {
	n := 0
	for _, rt := range a.retain {
		if !live[rt.fn] || rt.fld != fld {
			continue
		}
		c, ok := rt.in.(*ssa.Store).Val.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			return false
		}
		sl, ok := c.Call.Args[0].(*ssa.Slice)
		if !ok || sl.High == nil {
			return false
		}
		h, ok := sl.High.(*ssa.Const)
		if !ok || h.Int64() != 0 {
			return false
		}
		n++
	}
	return n > 0
}
