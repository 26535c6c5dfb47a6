package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C00"] = func(p *Program, r *Report) { checkPanics(p, r, p.exported(), 900) } // everything at once, for development
	checks["C01"] = func(p *Program, r *Report) { checkPanics(p, r, p.group("read"), 200) }
	checks["C02"] = func(p *Program, r *Report) { checkPanics(p, r, p.group("edit"), 120) }
	checks["C03"] = func(p *Program, r *Report) { checkPanics(p, r, p.group("build"), 200) }
	checks["C04"] = func(p *Program, r *Report) { checkPanics(p, r, p.group("parser"), 250) }
}

// group lists the part of the API a property speaks of.
func (p *Program) group(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.exported() {
		if apiGroup(f) == name {
			out = append(out, f)
		}
	}
	return out
}

func apiGroup(f *ssa.Function) string {
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		switch typeName(derefPtr(r.Type())) {
		case "Parser":
			return "parser"
		case "Scheme":
			return "build"
		}
	}
	if n == "Parse" {
		return "parser"
	}
	for _, x := range []string{"Add", "Insert", "Set", "Store", "Delete"} {
		if strings.HasPrefix(n, x) {
			return "edit"
		}
	}
	for _, x := range []string{"Make", "Flatten", "Indent", "ParseArray", "ErrEqual", "New", "ReadFile", "ReadJSONFile", "JSON", "String"} {
		if n == x || x == "Make" && strings.HasPrefix(n, x) {
			return "build"
		}
	}
	return "read"
}

type obligation struct {
	in   ssa.Instruction
	o    bobl
	ok   bool
	why  string
	took time.Duration
	skip bool // not decided
}

// proveAll decides the obligations of the functions the roots may run. Every obligation is decided on its own,
// so that the outcome does not depend on the order.
func proveAll(p *Program, roots []*ssa.Function, want func(f *ssa.Function) bool) (*back, []*obligation) {
	end := time.Now().Add(8 * time.Minute)
	first := newBack(p, roots)
	first.learn(1500)
	first.learnContents(1500)
	first.dbgContents()
	first.reset()
	var todo []*obligation
	for _, f := range p.Funcs {
		if !first.live[f] || !want(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range first.obligations(in) {
					todo = append(todo, &obligation{in: in, o: o})
				}
			}
		}
	}
	first.workers(len(todo), func(e *back, i int) {
		o := todo[i]
		t0 := time.Now()
		defer func() {
			if x := recover(); x != nil {
				o.skip, o.why = true, fmt.Sprint("the analysis stopped: ", x)
			}
		}()
		if time.Now().After(end) {
			o.skip, o.why = true, "out of time"
			return
		}
		if l := os.Getenv("BACKLINE"); l != "" && !strings.HasSuffix(p.pos(posOf(o.in)), l) {
			return
		}
		e.trace = os.Getenv("BACKTRACE") != ""
		for _, n := range []int{3000, 15000} {
			o.ok, o.why = e.prove(o.in, o.o.bad(e, e.root(o.in.Parent())), n)
			if o.ok || !e.gaveUp || time.Now().After(end) {
				break
			}
		}
		o.took = time.Since(t0)
	})
	return first, todo
}

func checkPanics(p *Program, r *Report, roots []*ssa.Function, floor int) {
	only := os.Getenv("BACKFN")
	e, todo := proveAll(p, roots, func(f *ssa.Function) bool { return only == "" || fnName(f) == only })
	if debug := os.Getenv("BACKDEBUG") != ""; debug {
		for k := range e.elemNN {
			fmt.Println("elements not nil:", k)
		}
		for _, vs := range e.invs {
			for _, v := range vs {
				fmt.Println(v)
			}
		}
		for _, ct := range e.ctr.all {
			if !ct.dead {
				fmt.Println("contract", ct)
			}
		}
		for _, o := range todo {
			if !o.ok || o.took > 500*time.Millisecond {
				fmt.Printf("  %s %s %s %s %s %s %v\n", map[bool]string{true: "ok", false: "FAIL"}[o.ok], fnName(o.in.Parent()), p.pos(posOf(o.in)), o.in, o.o.kind, o.why, o.took)
			}
		}
	}
	skipped := 0
	fns := map[string]bool{}
	for _, o := range todo {
		fns[fnName(o.in.Parent())] = true
		if o.skip {
			skipped++
			continue
		}
		r.add(o.o.kind, fnName(o.in.Parent())+" "+oblKey(o), p.pos(posOf(o.in)), o.ok, o.why)
	}
	r.floorAll = floor
	learned := 0
	for _, ct := range e.ctr.all {
		if !ct.dead {
			learned++
		}
	}
	invs := []string{}
	for _, vs := range e.invs {
		for _, v := range vs {
			invs = append(invs, v.String())
		}
	}
	sort.Strings(invs)
	names := []string{}
	for _, f := range roots {
		names = append(names, fnName(f))
	}
	r.Stats["entry_points"] = len(names)
	r.Stats["entry_point_names"] = names
	r.Stats["functions_with_obligations"] = len(fns)
	r.Stats["undecided"] = skipped
	r.Stats["contracts_learned_and_proved"] = learned
	r.Stats["struct_invariants_proved"] = invs
	r.Expl = "Every instruction that can panic (index, slice, make, nil pointer or function, nil map write, division, type assertion, panic) in every function the entry points may run is an obligation. " +
		"Each is decided by backward propagation of its failure condition over the SSA control flow graph with linear integer arithmetic: through branches, joins, callers and callees, with loop heads closed by induction, " +
		"under function contracts and loop invariants that are guessed and then proved by the same engine."
	r.Assume = append(r.Assume,
		"arguments are any values of their types, but callbacks and receivers are not nil and receivers come from the package's constructors",
		"integers do not overflow; memory suffices; the stack suffices (termination of recursion is another property)",
		"library functions do not panic on the arguments they are given",
		"a callback does not modify the document it is shown while the operation runs")
}

func oblKey(o *obligation) string { return o.o.kind + " " + o.in.String() }

func posOf(in ssa.Instruction) (pos token.Pos) {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return in.Pos()
}
