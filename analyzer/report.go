package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obl is one obligation of a rule at one construct of the code.
type Obl struct {
	Rule  string // the rule applied
	Key   string // construct, without positions: it survives edits elsewhere
	Where string // file:line, function
	OK    bool
	Note  string
}

// Report collects the obligations of one property.
type Report struct {
	ID     string
	Obls   []Obl
	Stats  map[string]interface{}
	Floors map[string]int
	Assume []string
	Expl   string

	floorAll int // least number of obligations in all
}

func newReport(id string) *Report {
	return &Report{ID: id, Stats: map[string]interface{}{}, Floors: map[string]int{}}
}

func (r *Report) add(rule, key, where string, ok bool, note string) {
	r.Obls = append(r.Obls, Obl{rule, key, where, ok, note})
}

func (r *Report) floor(rule string, n int) { r.Floors[rule] = n }

// known reads the findings recorded for a property: lines "finding: property=<id> rule=<rule> key=<key> <text>".
func knownFindings(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		fs := strings.Fields(l)
		var rule, key string
		for _, x := range fs {
			if strings.HasPrefix(x, "rule=") {
				rule = x[5:]
			}
			if strings.HasPrefix(x, "key=") {
				key = x[4:]
			}
		}
		if rule != "" && key != "" {
			out[rule+"|"+key] = l
		}
	}
	return out
}

// finish prints the outcome, writes the evidence and returns the exit status.
func (r *Report) finish(verif string, start time.Time) int {
	counts := map[string]int{}
	for _, o := range r.Obls {
		counts[o.Rule]++
	}
	rules := []string{}
	for k := range counts {
		rules = append(rules, k)
	}
	for k, n := range r.Floors {
		if _, ok := counts[k]; !ok {
			rules = append(rules, k)
		}
		if counts[k] < n {
			r.Obls = append(r.Obls, Obl{"instance-floor", k, "package jin", false,
				fmt.Sprintf("rule %s was applied to %d constructs, at least %d are expected: the analysis no longer sees what it has to decide", k, counts[k], n)})
		}
	}
	if n := len(r.Obls); n < r.floorAll {
		r.Obls = append(r.Obls, Obl{"instance-floor", "all", "package jin", false,
			fmt.Sprintf("%d constructs were analysed, at least %d are expected: the analysis no longer sees what it has to decide", n, r.floorAll)})
	}
	sort.Strings(rules)
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), r.ID)
	sort.SliceStable(r.Obls, func(i, j int) bool {
		if r.Obls[i].Rule != r.Obls[j].Rule {
			return r.Obls[i].Rule < r.Obls[j].Rule
		}
		return r.Obls[i].Key < r.Obls[j].Key
	})
	viol, findings, discharged := 0, 0, 0
	var samples []string
	var vtext []string
	perRule := map[string]int{}
	seenV := map[string]bool{}
	for _, o := range r.Obls {
		if o.OK {
			discharged++
			if perRule[o.Rule] < 3 && len(samples) < 40 {
				perRule[o.Rule]++
				samples = append(samples, fmt.Sprintf("%s: %s (%s) %s", o.Rule, o.Key, o.Where, o.Note))
			}
			continue
		}
		k := o.Rule + "|" + strings.ReplaceAll(o.Key, " ", "_")
		if l, ok := known[k]; ok {
			findings++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, l)
			continue
		}
		viol++
		line := fmt.Sprintf("%s at %s: %s: %s", o.Rule, o.Where, o.Key, o.Note)
		if !seenV[line] {
			seenV[line] = true
			vtext = append(vtext, line)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, r.ID+".violations.txt")
	os.Remove(replay)
	if viol > 0 {
		os.WriteFile(replay, []byte(strings.Join(vtext, "\n")+"\n"), 0o644)
		for i, l := range vtext {
			if i >= 25 {
				fmt.Printf("  ... %d more in %s\n", len(vtext)-i, replay)
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	}
	cov := map[string]interface{}{
		"explanation":         r.Expl,
		"obligations":         len(r.Obls),
		"discharged":          discharged,
		"obligations_by_rule": counts,
		"rules":               rules,
		"samples":             samples,
		"known_findings":      findings,
	}
	for k, v := range r.Stats {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	doc := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, r.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", r.ID, len(r.Obls), discharged, findings, viol, time.Since(start).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}
