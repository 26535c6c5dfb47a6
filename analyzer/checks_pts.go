package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = checkInputsUntouched
	checks["C07"] = checkFreshResults
	checks["C08"] = checkStringCopies
	checks["C09"] = checkNoSharedState
	checks["C10"] = checkFailedEdit
	checks["C20"] = checkCapabilities
}

// --- what the API is ---------------------------------------------------------------------------------------

var editPrefixes = []string{"Add", "Insert", "Set", "Store", "Delete"}

func hasEditName(n string) bool {
	for _, p := range editPrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return typeName(derefType(r.Type()))
	}
	return ""
}

// editFuncs: exported functions that take a document and give the edited one.
func (p *Program) editFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.exported() {
		r := f.Signature.Results()
		if recvName(f) == "" && hasEditName(f.Name()) && r.Len() == 2 && isBytes(r.At(0).Type()) && isErrorType(r.At(1).Type()) &&
			len(f.Params) > 0 && isBytes(f.Params[0].Type()) {
			out = append(out, f)
		}
	}
	return out
}

// mutator: a method that exists to change its receiver.
func mutator(f *ssa.Function) bool {
	switch recvName(f) {
	case "Parser", "JO":
		return hasEditName(f.Name())
	case "Scheme":
		return f.Name() == "Add" || f.Name() == "Remove" || f.Name() == "Save" || f.Name() == "Restore"
	}
	return false
}

func builder(f *ssa.Function) bool {
	n := f.Name()
	return recvName(f) == "" && strings.HasPrefix(n, "Make") || n == "Flatten" || n == "Indent" ||
		recvName(f) == "Scheme" && (strings.HasPrefix(n, "Make") || strings.HasPrefix(n, "Mutate"))
}

// --- one obligation per construct, over all roots ------------------------------------------------------------

type agg struct {
	r    *Report
	at   map[[2]string]*aggSite
	keys [][2]string
}

type aggSite struct {
	where string
	roots map[string]bool
	bad   map[string][]string
}

func newAgg(r *Report) *agg { return &agg{r: r, at: map[[2]string]*aggSite{}} }

func (g *agg) put(rule, key, where, bad, root string) {
	k := [2]string{rule, key + "\x00" + where}
	s := g.at[k]
	if s == nil {
		s = &aggSite{where: where, roots: map[string]bool{}, bad: map[string][]string{}}
		g.at[k] = s
		g.keys = append(g.keys, k)
	}
	s.roots[root] = true
	if bad != "" {
		s.bad[bad] = append(s.bad[bad], root)
	}
}

func (g *agg) flush() {
	for _, k := range g.keys {
		s := g.at[k]
		key := strings.SplitN(k[1], "\x00", 2)[0]
		if len(s.bad) == 0 {
			g.r.add(k[0], key, s.where, true, fmt.Sprintf("holds when reached from each of %d exported functions", len(s.roots)))
			continue
		}
		var notes []string
		for b, rs := range s.bad {
			sort.Strings(rs)
			if len(rs) > 4 {
				rs = append(rs[:4:4], fmt.Sprintf("%d more", len(rs)-4))
			}
			notes = append(notes, b+"; reached from "+strings.Join(rs, ", "))
		}
		sort.Strings(notes)
		g.r.add(k[0], key, s.where, false, strings.Join(notes, " | "))
	}
}

// eachRoot analyses every given function as called with any arguments.
func (p *Program) eachRoot(r *Report, roots []*ssa.Function, visit func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool)) {
	nodes, facts, writes, unknown := 0, 0, 0, map[string]bool{}
	for _, f := range roots {
		a := p.rooted(f)
		live := a.reachableFrom(f)
		for _, v := range a.nodes {
			facts += len(v.set)
		}
		nodes += len(a.nodes)
		for _, w := range a.writes {
			if live[w.fn] {
				writes++
			}
		}
		for _, ci := range a.unknown {
			if live[ci.Parent()] {
				k := fnName(ci.Parent()) + "/" + ci.Common().String()
				if !unknown[k] {
					unknown[k] = true
					r.add("call-is-modelled", k, p.pos(ci.Pos()), false,
						"effects of this library function are not modelled, nothing can be said about the memory it is given")
				}
			}
		}
		visit(f, a, live)
	}
	r.Stats["roots_analysed"] = len(roots)
	r.Stats["pointer_nodes"] = nodes
	r.Stats["points_to_facts"] = facts
	r.Stats["writes_seen"] = writes
}

func ptList(os []*Obj) string {
	var l []string
	for _, o := range os {
		n := o.name
		if i := strings.Index(n, "#"); i >= 0 {
			n = n[:i]
		}
		l = append(l, n)
	}
	if len(l) > 4 {
		l = append(l[:4], fmt.Sprintf("%d more", len(l)-4))
	}
	return strings.Join(l, "; ")
}

// ownField: memory a Parser or a Scheme owns, as opposed to documents and key lists it was given.
func (n names) ownField(f string) bool {
	return f == n.dn || !strings.HasPrefix(f, "JO.") && !strings.HasPrefix(f, "Parser.") && !strings.HasPrefix(f, n.node+".")
}

// --- C06 ---------------------------------------------------------------------------------------------------

func checkInputsUntouched(p *Program, r *Report) {
	r.Expl = "Whole-package points-to analysis: every instruction reachable from an exported function that writes to memory (element store, append into existing capacity, copy, map update, library call) is listed with the memory it may write. None may be the memory behind an argument, a document a Parser or JO holds, or a part of one. What Parser and Scheme keep is listed the same way: a Scheme keeps no array of an argument."
	r.Assume = []string{"the caller's callback is the caller's: what it writes to the slices it is handed is not counted",
		"Parse and New adopt the document they are given, as documented; it is never written"}
	nm := p.names()
	g := newAgg(r)
	p.eachRoot(r, p.exported(), func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		for _, w := range a.writes {
			if !live[w.fn] {
				continue
			}
			var bad []*Obj
			for _, o := range sortedObjs(w.dst.set) {
				switch o.kind {
				case oParam:
					if w.fld != "" && o.depth == 0 {
						continue // a field of the receiver
					}
					bad = append(bad, o)
				case oHeld:
					if w.fld != "" || nm.ownField(o.field) {
						continue
					}
					bad = append(bad, o)
				}
			}
			g.put("no-write-to-inputs", fnName(w.fn)+"/"+w.what, p.pos(w.pos)+" "+fnName(w.fn), noteIf(len(bad) > 0, "may write to "+ptList(bad)), fnName(f))
		}
		// what is kept beyond the call is not the caller's array
		for _, w := range a.retain {
			if !live[w.fn] {
				continue
			}
			var bad []*Obj
			for _, o := range sortedObjs(w.dst.set) {
				if o.kind != oParam || f.Name() == "Parse" || f.Name() == "New" {
					continue
				}
				if isStringType(o.typ) || isStruct(derefType(o.typ)) {
					continue // strings cannot be changed by their owner; the receiver itself
				}
				if recvName(f) == "" && o.param == 0 && isBytes(o.typ) {
					continue // the document, handed on by a function of the package
				}
				bad = append(bad, o)
			}
			g.put("keeps-no-input", fnName(w.fn)+"/"+w.what, p.pos(w.pos)+" "+fnName(w.fn), noteIf(len(bad) > 0, "keeps "+ptList(bad)), fnName(f))
		}
	})
	g.flush()
	r.floor("no-write-to-inputs", 60)
	r.floor("keeps-no-input", 10)
}

// --- C08 ---------------------------------------------------------------------------------------------------

// stringRoots lists the nodes of all strings a result can show.
func (a *PTS) stringObjs(n *ptNode, t types.Type, seen map[*ptNode]bool, out map[*Obj]bool) {
	if seen[n] {
		return
	}
	seen[n] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			for o := range n.set {
				out[o] = true
			}
		}
	case *types.Slice:
		for o := range n.set {
			a.stringObjs(a.elem(o), u.Elem(), seen, out)
		}
	case *types.Map:
		for o := range n.set {
			a.stringObjs(a.elem(o), u.Elem(), seen, out)
			if isStringType(u.Key()) {
				seen[a.elem(o)] = false
				a.stringObjs(a.elem(o), u.Key(), seen, out)
			}
		}
	}
}

func hasString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return hasString(u.Elem())
	case *types.Map:
		return hasString(u.Elem()) || hasString(u.Key())
	}
	return false
}

// showsBytes: a string pointing to this object shows memory that can still change.
func showsBytes(o *Obj) bool {
	if o.typ == nil {
		return false
	}
	switch u := o.typ.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Basic:
		return u.Kind() == types.Byte
	}
	return false
}

func checkStringCopies(p *Program, r *Report) {
	r.Expl = "Points-to sets of every string an exported function returns, on its own, in a slice or in a map. A string made by copying points to nothing; one made by reinterpreting bytes points to their array. No returned string may point to a byte array of an argument, of a Parser or of a JO, or to any other array."
	p.eachRoot(r, p.exported(), func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if !hasString(t) {
				continue
			}
			out := map[*Obj]bool{}
			a.stringObjs(a.ret(f, i), t, map[*ptNode]bool{}, out)
			var bad []*Obj
			for o := range out {
				if showsBytes(o) {
					bad = append(bad, o)
				}
			}
			sort.Slice(bad, func(i, j int) bool { return bad[i].id < bad[j].id })
			r.add("returned-string-is-a-copy", fmt.Sprintf("%s/%d", fnName(f), i), p.pos(f.Pos())+" "+fnName(f), len(bad) == 0, ptList(bad))
			// the container itself must be new too
			if _, basic := t.Underlying().(*types.Basic); !basic {
				var shared []*Obj
				for _, o := range sortedObjs(a.ret(f, i).set) {
					if o.kind == oParam || o.kind == oHeld || o.kind == oGlobal || o.kind == oAlloc && sharedSite(o) {
						shared = append(shared, o)
					}
				}
				r.add("returned-collection-is-new", fmt.Sprintf("%s/%d", fnName(f), i), p.pos(f.Pos())+" "+fnName(f), len(shared) == 0, ptList(shared))
			}
		}
	})
	r.floor("returned-string-is-a-copy", 20)
}

// sharedSite: held by a package variable, so shared by all calls.
func sharedSite(o *Obj) bool { return o.shared }

// --- C09 ---------------------------------------------------------------------------------------------------

// pureCallees: library packages whose functions keep no state a caller can see.
var purePackages = map[string]bool{"strconv": true, "fmt": true, "strings": true, "bytes": true, "errors": true, "unicode": true, "unicode/utf8": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true, "unsafe": true}

func calleePackage(name string) string {
	n := strings.TrimPrefix(name, "invoke ")
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	if i := strings.Index(n, ")"); i >= 0 {
		n = n[:i]
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		// "(*strings.Builder" and "strings.Builder.Write"
		slash := strings.LastIndex(n, "/")
		dot := strings.Index(n[slash+1:], ".")
		return n[:slash+1+dot]
	}
	return n
}

func checkNoSharedState(p *Program, r *Report) {
	r.Expl = "Effects of the whole package. Outside initialisation no instruction stores to a package variable or to memory one holds. Every write reachable from an operation that is not an edit of its receiver goes to memory that operation allocated. Library callees are stateless. No goroutines, channels, locks; no iteration in map order decides a result, except for the builder that takes a map."
	r.Assume = []string{"standard library functions of strconv, fmt, strings, bytes, sort and the like are safe for concurrent use"}
	nglob := 0
	for _, m := range p.SSA.Members {
		g, ok := m.(*ssa.Global)
		if !ok || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		nglob++
	}
	r.Stats["package_variables"] = nglob
	g := newAgg(r)
	p.eachRoot(r, p.exported(), func(root *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		for _, w := range a.writes {
			if !live[w.fn] {
				continue
			}
			where := p.pos(w.pos) + " " + fnName(w.fn)
			key := fnName(w.fn) + "/" + w.what
			var glob, outer []*Obj
			for _, o := range sortedObjs(w.dst.set) {
				if o.kind == oGlobal || o.kind == oAlloc && sharedSite(o) {
					glob = append(glob, o)
				}
				if o.kind == oParam || o.kind == oHeld {
					outer = append(outer, o)
				}
			}
			g.put("no-package-state", key, where, noteIf(len(glob) > 0, "may write to "+ptList(glob)), fnName(root))
			if !mutator(root) {
				g.put("reads-write-only-their-own-memory", key, where, noteIf(len(outer) > 0, "may write to "+ptList(outer)), fnName(root))
			}
		}
		for name, cs := range a.external {
			for _, ci := range cs {
				f := ci.Parent()
				if !live[f] {
					continue
				}
				ok := purePackages[calleePackage(name)] || strings.HasPrefix(name, "invoke ") || fileReader(root, name)
				g.put("callee-is-stateless", fnName(f)+"/"+name, p.pos(ci.Pos())+" "+fnName(f), noteIf(!ok, name), fnName(root))
			}
		}
		for f := range live {
			g.put("sequential", fnName(f), p.pos(f.Pos()), "", fnName(root))
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go:
						g.put("sequential", fnName(f)+"/go", p.pos(in.Pos()), "starts a goroutine", fnName(root))
					case *ssa.Select, *ssa.Send, *ssa.MakeChan:
						g.put("sequential", fnName(f)+"/chan", p.pos(in.Pos()), "uses a channel", fnName(root))
					case *ssa.Range:
						if _, ok := in.X.Type().Underlying().(*types.Map); ok {
							g.put("order-is-fixed", fnName(f)+"/range", p.pos(in.Pos())+" "+fnName(f),
								noteIf(root.Name() != "MakeJsonWithMap", "iterates over a map, in no fixed order"), fnName(root))
						}
					}
				}
			}
		}
	})
	g.flush()
	r.floor("reads-write-only-their-own-memory", 40)
	r.floor("callee-is-stateless", 60)
}

func fileReader(f *ssa.Function, name string) bool {
	return (f.Name() == "ReadFile" || f.Name() == "ReadJSONFile") && (name == "io/ioutil.ReadFile" || name == "os.ReadFile")
}

// --- C20 ---------------------------------------------------------------------------------------------------

func checkCapabilities(p *Program, r *Report) {
	r.Expl = "The library functions reachable from each exported function and from package initialisation. Only functions that compute are reachable; the two functions that read a file reach the library's ReadFile, and give it exactly the path they were given."
	g := newAgg(r)
	roots := p.exported()
	if init := p.SSA.Func("init"); init != nil {
		roots = append(roots, init)
	}
	p.eachRoot(r, roots, func(root *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		reader := root.Name() == "ReadFile" || root.Name() == "ReadJSONFile"
		for n, cs := range a.external {
			for _, ci := range cs {
				f := ci.Parent()
				if !live[f] {
					continue
				}
				key := fnName(f) + "/" + n
				where := p.pos(ci.Pos()) + " " + fnName(f)
				if n == "io/ioutil.ReadFile" || n == "os.ReadFile" {
					g.put("file-read-only-by-file-readers", key, where, noteIf(!reader, "reads a file"), fnName(root))
					g.put("reads-the-path-given", key, where, noteIf(!isOwnPath(p, a, ci.Common().Args[0], live), "reads another path than the one given"), fnName(root))
					continue
				}
				if strings.HasPrefix(n, "invoke ") {
					ok := strings.HasSuffix(n, ".Error") || strings.HasSuffix(n, ".String")
					g.put("reachable-callee-only-computes", key, where, noteIf(!ok, n), fnName(root))
					continue
				}
				g.put("reachable-callee-only-computes", key, where, noteIf(!purePackages[calleePackage(n)] || doesIO(n), "calls "+n), fnName(root))
			}
		}
		for f := range live {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
							g.put("reachable-callee-only-computes", fnName(f)+"/"+bi.Name(), p.pos(in.Pos())+" "+fnName(f), "prints", fnName(root))
						}
					}
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Function)
						if !ok || h.Package() == p.SSA {
							continue
						}
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == h {
							continue
						}
						n := stdName(h)
						g.put("reachable-callee-only-computes", fnName(f)+"/value "+n, p.pos(in.Pos()), noteIf(!purePackages[calleePackage(n)] || doesIO(n), "takes "+n), fnName(root))
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if v, ok := u.X.(*ssa.Global); ok && v.Pkg != p.SSA && !isErrorType(u.Type()) {
							g.put("reachable-callee-only-computes", fnName(f)+"/variable "+v.String(), p.pos(in.Pos()), "reads "+v.String(), fnName(root))
						}
					}
				}
			}
		}
	})
	g.flush()
	r.floor("reachable-callee-only-computes", 60)
	r.floor("reads-the-path-given", 1)
}

func doesIO(n string) bool {
	if calleePackage(n) != "fmt" {
		return false
	}
	base := n[strings.LastIndex(n, ".")+1:]
	return !(strings.HasPrefix(base, "Sprint") || base == "Errorf" || strings.HasPrefix(base, "Append"))
}

// isOwnPath: the value is the parameter of an exported reader, possibly passed down by helpers.
func isOwnPath(p *Program, a *PTS, v ssa.Value, live map[*ssa.Function]bool) bool {
	prm, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := prm.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == prm {
			idx = i
		}
	}
	if f.Name() == "ReadFile" || f.Name() == "ReadJSONFile" {
		return idx == len(f.Params)-1
	}
	n := 0
	for ci, gs := range a.calls {
		if !gs[f] || !live[ci.Parent()] {
			continue
		}
		n++
		if !isOwnPath(p, a, ci.Common().Args[idx], live) {
			return false
		}
	}
	return n > 0
}

// --- C07, C10: what an edit returns ------------------------------------------------------------------------

// outcome is one way a function returns a document and an error.
type outcome struct {
	doc, err ssa.Value
	blk      *ssa.BasicBlock // where both values hold
	ret      *ssa.Return
	facts    map[ssa.Value]bool // error value -> known non-nil
}

// outcomes splits the returns of f by the values that flow into them.
func outcomes(f *ssa.Function, di, ei int) []outcome {
	var out []outcome
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		splitPhi(ret.Results[di], ret.Results[ei], b, ret, map[ssa.Value]bool{}, map[[3]interface{}]bool{}, &out)
	}
	return out
}

func splitPhi(doc, err ssa.Value, b *ssa.BasicBlock, ret *ssa.Return, facts map[ssa.Value]bool, seen map[[3]interface{}]bool, out *[]outcome) {
	k := [3]interface{}{doc, err, b}
	if seen[k] {
		return
	}
	seen[k] = true
	dp, _ := doc.(*ssa.Phi)
	ep, _ := err.(*ssa.Phi)
	var at *ssa.BasicBlock
	switch {
	case dp != nil && ep != nil:
		// the later of the two is undone first
		at = dp.Block()
		if ep.Block() != at && at.Dominates(ep.Block()) {
			at = ep.Block()
		}
	case dp != nil:
		at = dp.Block()
	case ep != nil:
		at = ep.Block()
	}
	if at == nil {
		*out = append(*out, outcome{doc, err, b, ret, facts})
		return
	}
	// what is known about the error on the way from at to b is kept for the values it stands for
	nf := facts
	if known, nonnil := errFact(err, b); known {
		nf = map[ssa.Value]bool{}
		for k, v := range facts {
			nf[k] = v
		}
		nf[err] = nonnil
	}
	for i, pred := range at.Preds {
		d, e := doc, err
		if dp != nil && dp.Block() == at {
			d = dp.Edges[i]
		}
		nf2 := nf
		if ep != nil && ep.Block() == at {
			e = ep.Edges[i]
			if v, ok := nf[err]; ok {
				nf2 = map[ssa.Value]bool{}
				for k, x := range nf {
					nf2[k] = x
				}
				nf2[e] = v
				if c, isc := e.(*ssa.Const); isc && c.IsNil() && v {
					continue // this edge cannot carry a non-nil error
				}
			}
		}
		// an edge out of a branch on the error itself
		splitPhi(d, e, pred, ret, nf2, seen, out)
	}
}

// errFact: is err known to be nil or not in block b, by the branches above it?
func errFact(err ssa.Value, b *ssa.BasicBlock) (known, nonnil bool) {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, f := id.Succs[0], id.Succs[1]
		if t == f {
			continue
		}
		for _, side := range []struct {
			s    *ssa.BasicBlock
			cond bool
		}{{t, true}, {f, false}} {
			if side.s == d && len(side.s.Preds) == 1 || side.s != id && side.s.Dominates(d) && len(side.s.Preds) == 1 {
				if k, v := condFact(ifi.Cond, side.cond, err); k {
					return true, v
				}
			}
		}
	}
	return false, false
}

func condFact(c ssa.Value, truth bool, err ssa.Value) (known, nonnil bool) {
	switch c := c.(type) {
	case *ssa.BinOp:
		var other ssa.Value
		if c.X == err {
			other = c.Y
		} else if c.Y == err {
			other = c.X
		} else {
			return false, false
		}
		if k, ok := other.(*ssa.Const); !ok || !k.IsNil() {
			return false, false
		}
		if c.Op == token.NEQ {
			return true, truth
		}
		if c.Op == token.EQL {
			return true, !truth
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return condFact(c.X, !truth, err)
		}
	case *ssa.Call:
		// ErrEqual(err, code) is false for nil
		if g := c.Call.StaticCallee(); g != nil && g.Name() == "ErrEqual" && len(c.Call.Args) > 0 && c.Call.Args[0] == err && truth {
			return true, true
		}
	}
	return false, false
}

type errState int

const (
	errNil errState = iota
	errSet
	errUnknown
)

func (a *PTS) errOf(o outcome, depth int) errState {
	if c, ok := o.err.(*ssa.Const); ok && c.IsNil() {
		return errNil
	}
	if v, ok := o.facts[o.err]; ok {
		if v {
			return errSet
		}
		return errNil
	}
	if k, nn := errFact(o.err, o.blk); k {
		if nn {
			return errSet
		}
		return errNil
	}
	return a.errValue(o.err, depth)
}

func (a *PTS) errValue(v ssa.Value, depth int) errState {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return errSet
	case *ssa.ChangeInterface:
		return a.errValue(v.X, depth)
	case *ssa.Const:
		if v.IsNil() {
			return errNil
		}
	case *ssa.UnOp:
		// a package error variable
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && g.Pkg == a.p.SSA {
			return errSet
		}
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return errUnknown
		}
		n := stdName(g)
		if n == "fmt.Errorf" || n == "errors.New" {
			return errSet
		}
		if g.Package() != a.p.SSA || depth > 6 || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return errUnknown
		}
		st := errState(-1)
		for _, o := range outcomes(g, 0, 0) {
			s := a.errOf(o, depth+1)
			if st == -1 {
				st = s
			} else if st != s {
				return errUnknown
			}
		}
		if st == -1 {
			return errUnknown
		}
		return st
	}
	return errUnknown
}

// sameCall: document and error are the two results of one call of a function with the same contract, given the same document.
func (a *PTS) sameCall(o outcome, doc ssa.Value) (*ssa.Function, bool) {
	d, ok1 := o.doc.(*ssa.Extract)
	e, ok2 := o.err.(*ssa.Extract)
	if !ok1 || !ok2 || d.Tuple != e.Tuple {
		return nil, false
	}
	c, ok := d.Tuple.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Package() != a.p.SSA {
		return nil, false
	}
	res := g.Signature.Results()
	if d.Index != 0 || e.Index != res.Len()-1 {
		return nil, false
	}
	di := docParam(g)
	if di < 0 || c.Call.Args[di] != doc {
		return g, false
	}
	return g, true
}

// docParam: the first []byte parameter.
func docParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isBytes(p.Type()) {
			return i
		}
	}
	return -1
}

// editReturns lists the returns of f and of every function it delegates to.
func (a *PTS) editReturns(f *ssa.Function, seen map[*ssa.Function]bool, visit func(g *ssa.Function, o outcome, st errState, deleg *ssa.Function, ok bool)) {
	if seen[f] {
		return
	}
	seen[f] = true
	di := docParam(f)
	if di < 0 {
		return
	}
	for _, o := range outcomes(f, 0, f.Signature.Results().Len()-1) {
		if g, ok := a.sameCall(o, f.Params[di]); g != nil {
			st := a.errOf(o, 0)
			if ok {
				visit(f, o, st, g, true)
				a.editReturns(g, seen, visit)
				continue
			}
			if st == errUnknown {
				visit(f, o, st, g, false)
				continue
			}
			visit(f, o, st, nil, true)
			continue
		}
		visit(f, o, a.errOf(o, 0), nil, true)
	}
}

// existing: memory that was there before the call.
func existing(n *ptNode) []*Obj {
	var bad []*Obj
	for _, o := range sortedObjs(n.set) {
		if o.kind != oAlloc || sharedSite(o) {
			bad = append(bad, o)
		}
	}
	return bad
}

func checkFreshResults(p *Program, r *Report) {
	r.Expl = "Every return of the edit functions, and of the functions they delegate to, split by the values that reach it. Where the error is nil the points-to set of the returned document holds only memory allocated by the call. The same for every return of the builders and formatters."
	var roots []*ssa.Function
	edits := map[*ssa.Function]bool{}
	for _, f := range p.editFuncs() {
		roots = append(roots, f)
		edits[f] = true
	}
	r.Stats["edit_functions"] = len(roots)
	for _, f := range p.exported() {
		if builder(f) && f.Signature.Results().Len() > 0 && isBytes(f.Signature.Results().At(0).Type()) || recvName(f) == "JO" && mutator(f) {
			roots = append(roots, f)
		}
	}
	g := newAgg(r)
	p.eachRoot(r, roots, func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		where := p.pos(f.Pos()) + " " + fnName(f)
		switch {
		case edits[f]:
			i := 0
			a.editReturns(f, map[*ssa.Function]bool{}, func(h *ssa.Function, o outcome, st errState, deleg *ssa.Function, ok bool) {
				i++
				key := fmt.Sprintf("%s/return of %s", fnName(h), describe(o.doc))
				where := p.pos(o.ret.Pos()) + " " + fnName(h)
				if deleg != nil {
					g.put("success-returns-new-memory", key, where, noteIf(!ok, "hands "+fnName(deleg)+" another document"), fnName(f))
					return
				}
				if st == errSet {
					return // C10
				}
				bad := existing(a.val(o.doc))
				g.put("success-returns-new-memory", key, where, noteIf(len(bad) > 0, "the error may be nil and the document may share "+ptList(bad)), fnName(f))
			})
		case recvName(f) == "JO":
			// what the object holds afterwards is its document or new memory
			for _, w := range a.retain {
				if !live[w.fn] || w.fld != a.nm.body {
					continue
				}
				var bad []*Obj
				for _, o := range sortedObjs(w.dst.set) {
					if o.kind != oAlloc && !(o.kind == oHeld && o.field == a.nm.body) || sharedSite(o) {
						bad = append(bad, o)
					}
				}
				g.put("object-holds-new-memory", fnName(w.fn)+"/"+w.what, p.pos(w.pos)+" "+fnName(w.fn), noteIf(len(bad) > 0, "stores "+ptList(bad)), fnName(f))
			}
		default:
			bad := existing(a.ret(f, 0))
			r.add("builder-returns-new-memory", fnName(f), where, len(bad) == 0, ptList(bad))
		}
	})
	g.flush()
	r.floor("success-returns-new-memory", 40)
	r.floor("builder-returns-new-memory", 12)
	r.floor("object-holds-new-memory", 15)
}

func noteIf(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

func checkFailedEdit(p *Program, r *Report) {
	r.Expl = "Every return of the edit functions, and of the functions they delegate to, split by the values that reach it. Where the error is not nil the returned document is the document parameter itself, unchanged in length. Where the error may be either, both values are the results of one call with the same contract on the same document. With C06, which shows the document's bytes are never written, a failed edit returns what it was given."
	g := newAgg(r)
	var roots []*ssa.Function
	edits := map[*ssa.Function]bool{}
	for _, f := range p.editFuncs() {
		roots = append(roots, f)
		edits[f] = true
	}
	for _, f := range p.exported() {
		if recvName(f) == "JO" && mutator(f) {
			roots = append(roots, f)
		}
	}
	p.eachRoot(r, roots, func(f *ssa.Function, a *PTS, live map[*ssa.Function]bool) {
		if edits[f] {
			a.editReturns(f, map[*ssa.Function]bool{}, func(h *ssa.Function, o outcome, st errState, deleg *ssa.Function, ok bool) {
				key := fmt.Sprintf("%s/return with %s", fnName(h), describe(o.err))
				where := p.pos(o.ret.Pos()) + " " + fnName(h)
				if deleg != nil {
					g.put("failure-returns-the-document", key, where, noteIf(!ok, "hands "+fnName(deleg)+" another document"), fnName(f))
					return
				}
				if st == errNil {
					return
				}
				doc := h.Params[docParam(h)]
				g.put("failure-returns-the-document", key, where, noteIf(o.doc != doc, "the error may be set and the document returned is "+describe(o.doc)), fnName(f))
			})
		}
		// the document's bytes are not written on the way
		for _, w := range a.writes {
			if !live[w.fn] {
				continue
			}
			var bad []*Obj
			for _, o := range sortedObjs(w.dst.set) {
				if o.kind == oParam && isBytes(o.typ) || o.kind == oHeld && o.field == a.nm.body && w.fld == "" {
					bad = append(bad, o)
				}
			}
			g.put("document-bytes-not-written", fnName(w.fn)+"/"+w.what, p.pos(w.pos)+" "+fnName(w.fn), noteIf(len(bad) > 0, "may write to "+ptList(bad)), fnName(f))
		}
	})
	g.flush()
	r.floor("failure-returns-the-document", 60)
	checkObjectEdits(p, r)
}

func describe(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return fmt.Sprintf("%s (%s)", v.Name(), v.String())
}
