package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// names are the unexported parts the rules speak of, found by their role.
type names struct {
	body                 string // JO: the document
	json, core           string // Parser: the document, the tree
	node                 string // type of a tree element
	value, label, up, dn string // node
	keys, orig           string // Scheme
}

func (p *Program) structOf(name string) (*types.Struct, types.Type) {
	tn, ok := p.Pkg.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil, nil
	}
	st, _ := tn.Type().Underlying().(*types.Struct)
	return st, tn.Type()
}

func (p *Program) names() names {
	var n names
	if st, _ := p.structOf("JO"); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if isBytes(st.Field(i).Type()) {
				n.body = "JO." + st.Field(i).Name()
			}
		}
	}
	if st, _ := p.structOf("Parser"); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isBytes(f.Type()) {
				n.json = "Parser." + f.Name()
			}
			if pt, ok := f.Type().(*types.Pointer); ok && isStruct(pt.Elem()) {
				n.core = "Parser." + f.Name()
				n.node = typeName(pt.Elem())
			}
		}
	}
	if st, t := p.structOf(n.node); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := n.node + "." + f.Name()
			switch u := f.Type().(type) {
			case *types.Pointer:
				if types.Identical(u.Elem(), t) {
					n.up = k
				}
			case *types.Slice:
				if isBytes(u) {
					n.value = k
				} else {
					n.dn = k
				}
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					n.label = k
				}
			}
		}
	}
	// the list GetCurrentKeys shows is the one in use
	if st, _ := p.structOf("Scheme"); st != nil {
		var lists []string
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				lists = append(lists, "Scheme."+st.Field(i).Name())
			}
		}
		if len(lists) == 2 {
			cur := fieldsRead(p.lookup("Scheme", "GetCurrentKeys"))
			org := fieldsRead(p.lookup("Scheme", "GetOriginalKeys"))
			for i, k := range lists {
				if org[k] && !org[lists[1-i]] || cur[lists[1-i]] && !cur[k] {
					n.orig, n.keys = k, lists[1-i]
				}
			}
			// otherwise fall back on the names of the pinned version
			for i, k := range lists {
				if n.orig == "" && k == "Scheme.originalKeys" {
					n.orig, n.keys = k, lists[1-i]
				}
			}
		}
	}
	return n
}

func fieldsRead(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	if f == nil {
		return out
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				out[fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)] = true
			}
		}
	}
	return out
}
