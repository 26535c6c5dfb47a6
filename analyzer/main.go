package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

type checkFn func(p *Program, r *Report)

var checks = map[string]checkFn{}

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings are")
	id := flag.String("check", "", "property")
	flag.Parse()
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	debug.SetGCPercent(400)
	f, ok := checks[*id]
	if !ok {
		fmt.Println("unknown check", *id)
		os.Exit(2)
	}
	r := newReport(*id)
	p, err := loadProgram(*repo, nil)
	if err != nil {
		r.Expl = "the package could not be loaded"
		r.add("load", "package jin", *repo, false, err.Error())
		os.Exit(r.finish(*verif, start))
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.add("analysis", "internal", *repo, false, fmt.Sprintf("the analysis stopped: %v\n%s", x, debug.Stack()))
			}
		}()
		f(p, r)
	}()
	r.Stats["functions_in_package"] = len(p.Funcs)
	pprof.StopCPUProfile()
	os.Exit(r.finish(*verif, start))
}
