package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The properties decided by following a function along all texts of a grammar (tx_*.go).

const txAssume = "A document is any text of the JSON grammar with any white space, any length and any depth; what stands inside nested containers is any sequence of strings, brackets and other bytes, balanced in depth."

// textual explores every driver and reports what it finds. What the exploration cannot follow is listed in the
// evidence and is not an alarm: only a state in which the result is definitely another one is.
func (p *Program) textual(r *Report, rule string, max int, drivers []*tdrv) {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(6 << 30)
	p.positions()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	res := make([]txOut, len(drivers))
	for i, d := range drivers {
		wg.Add(1)
		go func(i int, d *tdrv) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			o := p.explore(d, max, 400)
			mu.Lock()
			res[i] = o
			mu.Unlock()
		}(i, d)
	}
	done := make(chan bool)
	go watchMemory(done)
	wg.Wait()
	close(done)
	decided, states, ends := 0, 0, 0
	var open []string
	for i, o := range res {
		d := drivers[i]
		states += o.nst
		ends += o.ends
		for _, f := range o.fails {
			r.add(rule, d.name, f.where, false, f.msg+"; on the text: "+strings.Join(f.trail, "; "))
		}
		switch {
		case len(o.fails) > 0:
		case len(o.und) > 0:
			sort.Strings(o.und)
			open = append(open, d.name+": "+o.und[0])
			r.add(rule, d.name, "", true, fmt.Sprintf("not decided: %d open questions, first: %s", len(o.und), o.und[0]))
		default:
			decided++
			r.add(rule, d.name, "", true, fmt.Sprintf("decided: %d states, %d ends", o.nst, o.ends))
		}
	}
	n := func(k string, v int) {
		if x, ok := r.Stats[k].(int); ok {
			v += x
		}
		r.Stats[k] = v
	}
	n("explorations", len(res))
	n("decided_in_full", decided)
	n("abstract_states", states)
	n("ends_checked", ends)
	if len(open) > 0 {
		old, _ := r.Stats["not_decided"].([]string)
		r.Stats["not_decided"] = append(old, open...)
	}
	r.floor(rule, len(drivers))
}

// txFull is set when the explorations need too much memory: they end as not decided.
var txFull int32

func watchMemory(done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(100 * time.Millisecond):
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapInuse > 9<<30 {
			atomic.StoreInt32(&txFull, 1)
			return
		}
	}
}

func init() {
	checks["C15"] = func(p *Program, r *Report) {
		r.Expl = "IterateArray and IterateKeyValue are followed in an abstract domain of texts along all documents of the JSON grammar, generated on demand; every call of the callback is compared with the next member of the document, and every return with what remains and with what the callback said."
		r.Assume = []string{txAssume, "core returns the position of a value of the document or an error (C23 decides that)."}
		p.textual(r, "callback-protocol", 300000, p.iterDrivers())

	}
	checks["C16"] = func(p *Program, r *Report) {
		r.Expl = "GetKeys, GetValues, GetKeysValues and GetMap are followed along all documents of the JSON grammar; everything they append or store is compared with the next member of the document, and what they return with everything handed out."
		r.Assume = []string{txAssume, "core returns the position of a value of the document or an error (C23 decides that)."}
		p.textual(r, "all-members", 400000, p.memberDrivers())
	}
	checks["C19"] = func(p *Program, r *Report) {
		r.Expl = "Length is followed along all documents of the JSON grammar; the result is compared with the number of members the grammar made."
		r.Assume = []string{txAssume, "core returns the position of a value of the document or an error (C23 decides that)."}
		p.textual(r, "number-of-members", 400000, p.lengthDrivers())
	}
	checks["C24"] = func(p *Program, r *Report) {
		r.Expl = "Every edit is followed on documents that consist of the member or container it names, with any white space, first, last or in between, of every kind of value, at the root or deep inside, and of any other bytes around it; the text returned is brought into the form document up to a, inserted text, document from b, and a, b and the inserted text are compared with what the edit is for."
		r.Assume = []string{"core finds the member the path names (C23 decides that); what is inside of values and around the container is any text."}
		p.textual(r, "one-place-changed", 100000, p.editDrivers())
	}
	checks["C26"] = func(p *Program, r *Report) {
		r.Expl = "ParseArray and the typed array getters are followed along all arrays of the JSON grammar; every element they append is compared with the next element of the array, every conversion with the next element's text, and the list returned with everything handed out."
		r.Assume = []string{txAssume, "core returns the position of a value of the document or an error (C23 decides that).", "A boolean list is read from an array without strings."}
		p.textual(r, "all-elements", 200000, p.arrayDrivers())
	}
	checks["C18"] = func(p *Program, r *Report) {
		r.Expl = "Flatten and Indent are followed along all sequences of tokens with balanced brackets, generated on demand; every byte they put out is compared with the next byte of the document that is not white space outside of strings, and every line Indent begins with the number of containers open there."
		r.Assume = []string{"Indent is followed on what Flatten returns; Flatten is decided on its own."}
		p.textual(r, "bytes-kept", 100000, p.formatDrivers())
	}
	checks["C27"] = func(p *Program, r *Report) {
		r.Expl = "Walk, the function below it that calls itself and the functions that one gives to the iterators are followed with every kind of value at the path, every answer of the callback, the recursion, the iteration and the getter, and any number of members; every call of the callback and every recursive call is compared with the path at hand, and every return with what the callback said last."
		r.Assume = []string{"A recursive call does for the path it is given what the function is shown to do for its own (its depth is that of the document).", "GetType, Get, IterateArray and IterateKeyValue do what C25, C04 and C15 say."}
		p.textual(r, "every-leaf-once", 100000, p.walkDrivers())
		if w := p.walker(p.fn("Walk")); w != nil {
			p.pathsStay(r, w)
		}
	}
	checks["C17"] = func(p *Program, r *Report) {
		r.Expl = "Every builder is followed with lists and maps of any length, generated element by element; every byte and text it puts out is compared with what is due next: the opening bracket, the next element's key and value in the right notation, a comma, the closing bracket after the last."
		r.Assume = []string{"A map hands out each of its keys once, in some order.", "fmt and strconv write values as they are documented to."}
		p.textual(r, "elements-in-order", 2000, p.builderDrivers())
	}
	checks["C25"] = func(p *Program, r *Report) {
		r.Expl = "The type queries and the calls that take one kind of value are followed on documents with a value of each kind at the root or at a path: objects and arrays, empty or not, strings (also such that look like a container or a literal), both booleans, null and every form of a JSON number."
		r.Assume = []string{"core finds the value the path names (C23 decides that); what is inside of values and around them is any text."}
		p.textual(r, "kind-of-value", 100000, p.kindDrivers())
	}
	checks["C23"] = func(p *Program, r *Report) {
		r.Expl = "The path search is followed along all documents of the JSON grammar for paths of one and two elements before objects and arrays; for every key the grammar makes it is open whether it is the one searched, and every number is open; the positions returned are compared with where the grammar put the value."
		r.Assume = []string{txAssume, "Path elements are any strings; a comparison of one with a range of the document that is not a key comes out false for some name, and that outcome is followed.",
			"Longer paths repeat the outer loop, whose state after one element is the state after any number."}
		p.textual(r, "path-search", 600000, p.searchDrivers())
	}
}
