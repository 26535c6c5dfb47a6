package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Invariants the package keeps about its own data: slices of pointers hold no nil pointer, and linear relations
// between the fields of a struct. They are guessed from the declarations and kept when every place that writes
// such data preserves them, given all of them held before.

// structsOf lists the struct types of the package some function of it stores to.
func (e *back) structsOf() []types.Type {
	var out []types.Type
	sc := e.p.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok {
			out = append(out, tn.Type())
		}
	}
	return out
}

// openStruct: code outside of the package can write the fields.
func openStruct(t types.Type) bool {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (e *back) candidatesOf(t types.Type) []inv {
	s := t.Underlying().(*types.Struct)
	var nums []invTerm
	var out []inv
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			if affineInt(ft) {
				nums = append(nums, invTerm{i, aVal, 1})
				out = append(out, inv{st: t, terms: []invTerm{{i, aVal, -1}}})
			}
		case *types.Slice:
			nums = append(nums, invTerm{i, aLen, 1})
		case *types.Pointer, *types.Map:
			_ = u
			out = append(out, inv{st: t, terms: []invTerm{{i, aNN, -1}}, c: -1})
		}
	}
	for i, a := range nums {
		for j, b := range nums {
			if i != j && (a.kind == aVal || b.kind == aVal) {
				b.k = -1
				out = append(out, inv{st: t, terms: []invTerm{a, b}})
			}
		}
	}
	return out
}

// badInv is the failure of an invariant for the object at base.
func (e *back) badInv(fr *bframe, v inv, base mval, b *ssa.BasicBlock, at int) con {
	l := linC(-v.c)
	for _, t := range v.terms {
		m := e.m.at(cellKey{base, v.st, t.field}, b, at)
		switch t.kind {
		case aLen:
			l = l.add(e.length(fr, m), t.k)
		case aNN:
			l = l.add(e.nonnil(fr, m), t.k)
		default:
			l = l.add(e.val(fr, m), t.k)
		}
	}
	return con{l: l, op: cLE}.neg()[0]
}

// learn finds the invariants.
func (e *back) learn(budget int) {
	// slices of pointers
	kinds := map[string]types.Type{}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
						if pt, ok := derefType2(ia.Type()).Underlying().(*types.Pointer); ok && localType(e.p, pt.Elem()) {
							kinds[pt.String()] = pt
						}
					}
				}
			}
		}
	}
	for k := range kinds {
		e.elemNN[k] = true
	}
	// fields
	for _, t := range e.structsOf() {
		if !openStruct(t) {
			e.invs[typeName(t)] = e.candidatesOf(t)
		}
	}
	e.ctr = e.guessContracts()
	for round := 0; round < 12; round++ {
		drop := e.settle(150)
		e.reset()
		for k := range kinds {
			if e.elemNN[k] && !e.elemsHold(k, budget) {
				delete(e.elemNN, k)
				drop = true
			}
		}
		for _, t := range e.structsOf() {
			n := typeName(t)
			var keep []inv
			for _, v := range e.invs[n] {
				if e.invHolds(v, budget) {
					keep = append(keep, v)
				} else {
					drop = true
				}
			}
			e.invs[n] = keep
		}
		if !drop {
			break
		}
	}
	e.reset()
}

// reset forgets what was derived under invariants that may not hold.
func (e *back) reset() {
	e.atoms = map[atomKey]*atom{}
	e.facts = map[atomKey][]con{}
	e.cfacts = map[atomKey][]gcon{}
	e.proven = map[atomKey][][]con{}
	e.failed = map[string]bool{}
	e.unsatMemo = map[string]bool{}
}

func derefType2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func localType(p *Program, t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == p.Pkg.Types
}

// elemsHold: every element written to or made is not nil.
func (e *back) elemsHold(kind string, budget int) bool {
	for _, f := range e.p.Funcs {
		if !e.live[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || x.Val.Type().String() != kind {
						continue
					}
					_ = ia
					if ok, why := e.prove(x, []con{lt(e.nonnil(e.root(f), x.Val), linC(1))}, budget); !ok {
						e.note("dropped elements of %s: %s: %s", kind, e.p.pos(posOf(x)), why)
						return false
					}
				case *ssa.MakeSlice:
					if st, ok := x.Type().Underlying().(*types.Slice); ok && st.Elem().String() == kind {
						if n, c := constInt(x.Len); !c || n != 0 {
							return false
						}
					}
				case *ssa.Alloc:
					// an array that is filled before it is used
					at, ok := derefType2(x.Type()).Underlying().(*types.Array)
					if !ok || at.Elem().String() != kind {
						continue
					}
					if x.Comment != "varargs" && x.Comment != "slicelit" {
						return false
					}
				}
			}
		}
	}
	return true
}

// invHolds: functions that write the fields leave the objects, and hand them out, with the relation intact.
func (e *back) invHolds(v inv, budget int) bool {
	uses := map[int]bool{}
	for _, t := range v.terms {
		uses[t.field] = true
	}
	for _, f := range e.p.Funcs {
		if !e.live[f] {
			continue
		}
		fr := e.root(f)
		// the objects whose fields it writes
		var bases []mval
		seen := map[mval]bool{}
		put := func(b mval) {
			if !seen[b] {
				seen[b] = true
				bases = append(bases, b)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), v.st) && uses[fa.Field] {
						put(e.m.canon(fa.X))
					}
					if t := derefType(x.Addr.Type()); t != nil && types.Identical(t, v.st) {
						put(e.m.canon(x.Addr))
					}
				case *ssa.Alloc:
					if types.Identical(derefType2(x.Type()), v.st) {
						put(x)
					}
				case *ssa.FieldAddr:
					// a field whose address goes elsewhere
					if types.Identical(derefType(x.X.Type()), v.st) && uses[x.Field] {
						for _, r := range *x.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if r.Addr != ssa.Value(x) {
									e.note("dropped %s: %s address of a field", v, e.p.pos(posOf(r)))
									return false
								}
							default:
								e.note("dropped %s: %s address of a field", v, e.p.pos(posOf(r)))
								return false
							}
						}
					}
				}
			}
		}
		if len(bases) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Return, *ssa.Panic:
				case ssa.CallInstruction:
					if _, bi := x.Common().Value.(*ssa.Builtin); bi {
						continue
					}
					if g := x.Common().StaticCallee(); g != nil && g.Package() != e.p.SSA {
						continue
					}
				default:
					continue
				}
				for _, base := range bases {
					if !e.definedBefore(base, b, i) {
						continue
					}
					if al, ok := base.(*ssa.Alloc); ok && !e.seenBy(al, in) {
						continue
					}
					if ok, why := e.prove(in, []con{e.badInv(fr, v, base, b, i)}, budget); !ok {
						e.note("dropped %s: %s %s base %s: %s", v, e.p.pos(posOf(in)), in, mname(base), why)
						return false
					}
				}
			}
		}
	}
	return true
}

// seenBy: a new object may be known outside of the function once in is executed.
func (e *back) seenBy(al *ssa.Alloc, in ssa.Instruction) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
			continue
		case *ssa.Store:
			if r.Addr == ssa.Value(al) {
				continue
			}
		}
		// r lets it out
		if r == in || r.Block() == in.Block() && indexIn(r) < indexIn(in) || r.Block() != in.Block() && blockReaches(r.Block(), in.Block()) || r.Block() == in.Block() && onCycle(r.Block()) {
			return true
		}
	}
	return false
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(a)
}

func onCycle(b *ssa.BasicBlock) bool { return blockReaches(b, b) }

func (e *back) note(f string, a ...interface{}) {
	if os.Getenv("BACKNOTE") != "" {
		fmt.Printf(f+"\n", a...)
	}
}
