package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// checks.json: property -> what to run per tier.
type checkRun struct {
	H    string           `json:"h"`    // harness function
	Args map[string]int64 `json:"args"` // bounds
	T    int              `json:"t"`    // seconds
	Dec  int              `json:"dec"`  // most symbolic decisions on a path
}

type checkSpec struct {
	Quick       []checkRun `json:"quick"`
	Thorough    []checkRun `json:"thorough"` // replaces quick when given
	Bounds      string     `json:"bounds"`
	Assumptions []string   `json:"assumptions"`
}

type finding struct {
	prop, match, text string
}

func loadFindings(verif string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		// known: property=ID match="text" description
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "match=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		m, _ := strconv.Unquote(q)
		out = append(out, finding{id, m, strings.TrimSpace(rest[len(q):])})
	}
	return out
}

func vkey(v *Violation) string { return v.Harness + ": " + v.Msg }

func cmdReplay(args []string) int {
	verif, repo := dirs()
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c replayCase
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := NewReplayer(repo, verif, pkgsFor(c.Harness))
	defer r.Close()
	o := r.Run(c, 60*time.Second)
	j, _ := json.MarshalIndent(o, "", " ")
	fmt.Println(string(j))
	if len(o.Fails) > 0 || o.Panic != "" || o.Hang {
		return 1
	}
	return 0
}

func cmdCheck(args []string) int {
	start := time.Now()
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo check PROPERTY")
		return 2
	}
	prop := args[0]
	verif, repo := dirs()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var specs map[string]*checkSpec
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &specs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo: checks.json:", err)
		return 2
	}
	spec := specs[prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "symgo: no check for", prop)
		return 2
	}
	budget := 420 * time.Second
	runs := spec.Quick
	if tier == "thorough" {
		budget = 3 * time.Hour
		if len(spec.Thorough) > 0 {
			runs = spec.Thorough
		}
	}
	if s := os.Getenv("SYMGO_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	end := start.Add(budget)

	var names []string
	for _, r := range runs {
		names = append(names, r.H)
	}
	pkgs := pkgsFor(names...)
	rp := NewReplayer(repo, verif, pkgs)
	defer rp.Close()
	p := loadFor(pkgs)
	loadSec := time.Since(start).Seconds()

	nw := runtime.NumCPU()
	type hres struct {
		run  checkRun
		name string
		e    *Engine
		sec  float64
	}
	var res []hres
	funcs := map[string]bool{}
	known := loadFindings(verif)
	isKnown := func(v *Violation) bool {
		for _, k := range known {
			if k.prop == prop && strings.Contains(vkey(v), k.match) {
				return true
			}
		}
		return false
	}
	limit := 20 * time.Second
	grace := 12 * time.Second
	if tier == "thorough" {
		grace = 60 * time.Second
	}
	t0 := time.Now()
	for _, r := range runs {
		h := &Harness{Name: r.H, Prop: prop, Func: r.H, Args: r.Args, MaxDec: r.Dec}
		if len(r.Args) > 0 {
			j, _ := json.Marshal(r.Args)
			h.Name = r.H + string(j)
		}
		run := func(grace time.Duration) *Engine {
			e := NewEngine(p, nw)
			e.grace, e.known = grace, isKnown
			t := time.Duration(r.T) * time.Second
			if t == 0 {
				t = 60 * time.Second
				if tier == "thorough" {
					t = 20 * time.Minute
				}
			}
			if left := time.Until(end); t > left {
				t = left
			}
			if t <= 0 {
				t = time.Millisecond
			}
			e.deadline = time.Now().Add(t)
			e.Run([]*Harness{h})
			return e
		}
		// once a violation is confirmed by a native run there is no need to go on for long
		ht := time.Now()
		e := run(grace)
		var cs []replayCase
		for _, k := range sortedKeys(e.viols) {
			if v := e.viols[k]; !isKnown(v) {
				cs = append(cs, replayCase{r.H, prop, r.Args, v.Vars})
			}
		}
		found := false
		if len(cs) > 0 && rp.Wait() == nil {
			for _, o := range rp.RunAll(cs, limit, nw, time.Now().Add(120*time.Second)) {
				found = found || len(o.Fails) > 0 || o.Panic != "" || o.Hang
			}
			if !found && e.grace == 0 {
				e = run(0)
			}
		}
		for f := range e.funcs {
			funcs[f] = true
		}
		res = append(res, hres{r, h.Name, e, time.Since(ht).Seconds()})
		if found {
			break
		}
	}
	symSec := time.Since(t0).Seconds()

	// counterexamples are replayed against the real code
	if err := rp.Wait(); err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
	}
	var unconfirmed []map[string]any
	confirmed := 0
	knownSeen := map[string]bool{}
	repDir := filepath.Join(verif, "evidence", "replays")
	printed := map[string]bool{}
	viol := func(h hres, v *Violation, o replayOut, c replayCase) {
		for _, k := range known {
			if k.prop == prop && strings.Contains(vkey(v), k.match) {
				if !knownSeen[k.match] {
					knownSeen[k.match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
				return
			}
		}
		confirmed++
		if printed[vkey(v)] || len(printed) >= 10 {
			return
		}
		printed[vkey(v)] = true
		os.MkdirAll(repDir, 0o755)
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, len(printed)))
		j, _ := json.MarshalIndent(map[string]any{"harness": c.Harness, "prop": c.Prop, "args": c.Args, "vars": c.Vars,
			"message": v.Msg, "where": v.Where, "trace": v.Trace, "native": o,
			"rerun": "symgo replay " + f}, "", " ")
		os.WriteFile(f, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Fprintf(os.Stderr, "  %s (%s)\n", v.Msg, v.Where)
	}
	replayed, matched, mismatched := 0, 0, 0
	again := 30 // native runs to repeat
	var mism []string
	var samples []any
	var paths, decisions, asserts, queries, unknowns, undecided, unexplored int
	var solver time.Duration
	reach := map[string]int{}
	undec := map[string]int{}
	asserted := map[string]int{}
	var hinfo []map[string]any
	for _, h := range res {
		var vs []*Violation
		for _, k := range sortedKeys(h.e.viols) {
			vs = append(vs, h.e.viols[k])
		}
		var cs []replayCase
		for _, v := range vs {
			cs = append(cs, replayCase{h.run.H, prop, h.run.Args, v.Vars})
		}
		outs := rp.RunAll(cs, limit, nw, time.Now().Add(120*time.Second))
		for i, v := range vs {
			o := outs[i]
			ok := o.Panic != "" || o.Hang
			for _, m := range o.Fails {
				if m == v.Msg {
					ok = true
				}
			}
			if !ok && len(o.Fails) > 0 {
				ok = true // another assertion of the property failed on the way
			}
			if ok {
				viol(h, v, o, cs[i])
			} else {
				unconfirmed = append(unconfirmed, map[string]any{"message": v.Msg, "where": v.Where, "harness": h.name, "vars": v.Vars, "native": o})
				fmt.Fprintf(os.Stderr, "unconfirmed: %s %s %s: native run disagrees (%+v) vars %v\n", h.name, v.Msg, v.Where, o, v.Vars)
			}
		}
		// models of explored paths are executed too: the encoding is validated on every run
		for hn, ss := range h.e.samples {
			max := 48
			if tier == "thorough" {
				max = 400
			}
			step := 1
			if len(ss) > max {
				step = len(ss) / max
			}
			var pick []*Sample
			for i := seed % step; i < len(ss) && len(pick) < max; i += step {
				pick = append(pick, ss[i])
			}
			cs = nil
			for _, s := range pick {
				cs = append(cs, replayCase{h.run.H, prop, h.run.Args, s.Vars})
			}
			if len(cs) == 0 {
				continue
			}
			outs := rp.RunAll(cs, limit, nw, time.Now().Add(60*time.Second))
			for i, s := range pick {
				o := outs[i]
				if o.Err != "" {
					mism = append(mism, "error: "+o.Err)
					continue
				}
				replayed++
				// the solver found that the path holds: a native run that fails counts if it does so again and again, by itself
				sure := true
				for n := 0; n < 3 && (len(o.Fails) > 0 || o.Panic != "" || o.Hang); n++ {
					if again--; again < 0 {
						sure = false
						break
					}
					o = rp.Run(cs[i], limit)
				}
				if o.Err != "" {
					mism = append(mism, "error: "+o.Err)
					continue
				}
				if len(o.Fails) > 0 || o.Panic != "" || o.Hang {
					msg := "native: " + strings.Join(o.Fails, "; ") + o.Panic
					if o.Hang {
						msg = "native: no answer within the limit"
					}
					mismatched++
					mism = append(mism, fmt.Sprintf("%s: symbolic path holds but %s with %v", hn, msg, s.Vars))
					if sure && (len(o.Fails) > 0 || o.Panic != "") {
						// a failing execution of the real code, found from a solver model
						viol(h, &Violation{Harness: hn, Prop: prop, Msg: msg, Vars: s.Vars}, o, cs[i])
					}
					continue
				}
				a, b := strings.Join(s.Obs, " "), strings.Join(o.Obs, " ")
				if a != b || o.Stopped {
					mismatched++
					if len(mism) < 20 {
						mism = append(mism, fmt.Sprintf("%s: symbolic [%s] native [%s] stopped=%v vars %v", hn, a, b, o.Stopped, s.Vars))
					}
					continue
				}
				matched++
				if len(samples) < 6 && i%7 == 0 {
					samples = append(samples, s)
				}
			}
		}
		for hn, s := range h.e.stats {
			paths += s.Paths
			decisions += s.Decisions
			asserts += s.Asserts
			undecided += s.Undecided
			unexplored += s.Unexplored
			for k, v := range s.Reach {
				reach[k] += v
			}
			for k, v := range s.Undec {
				undec[k] += v
			}
			for k, v := range s.AssertMsgs {
				asserted[k] += v
			}
			hinfo = append(hinfo, map[string]any{"harness": hn, "paths": s.Paths, "infeasible": s.Infeasible, "undecided": s.Undecided,
				"unexplored": s.Unexplored, "seconds": round(h.sec), "queries": h.e.queries, "solver_unknown": h.e.unknowns})
		}
		queries += h.e.queries
		unknowns += h.e.unknowns
		solver += h.e.stime
	}
	for _, m := range mism {
		fmt.Fprintln(os.Stderr, "model mismatch:", m)
	}
	for _, k := range sortedKeys(undec) {
		fmt.Fprintf(os.Stderr, "undecided: %s (%d)\n", k, undec[k])
	}
	if unexplored > 0 {
		fmt.Fprintf(os.Stderr, "out of time: %d subtrees not explored\n", unexplored)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	var fl []string
	for _, f := range sortedKeys(funcs) {
		if !strings.Contains(f, "/zzverif/") {
			fl = append(fl, f)
		}
	}
	var mine []string
	for _, f := range fl {
		if strings.Contains(f, "hyperonym/ratus") {
			mine = append(mine, strings.ReplaceAll(f, "github.com/hyperonym/ratus", "ratus"))
		}
	}
	sort.Strings(mine)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": decisions, "traces_validated_against_impl": matched, "samples": samples,
			"meaning":                      "states: symbolic paths explored to the end; transitions: branch decisions settled by the solver; traces: solver models of such paths run natively against the real code with identical observations",
			"exhaustive_within_bounds":     undecided == 0 && unexplored == 0 && unknowns == 0 && len(undec) == 0,
			"bounds":                       spec.Bounds,
			"assertions_checked":           asserts,
			"assertions":                   asserted,
			"queries":                      queries,
			"solver_seconds":               round(solver.Seconds()),
			"solver_unknown":               unknowns,
			"paths_undecided":              undecided,
			"undecided_reasons":            undec,
			"subtrees_unexplored":          unexplored,
			"reached":                      reach,
			"harnesses":                    hinfo,
			"repository_functions_encoded": mine,
			"dependency_functions_encoded": len(fl) - len(mine),
			"native_runs_of_models":        replayed,
			"native_mismatches":            mismatched,
			"unconfirmed_counterexamples":  unconfirmed,
			"seconds":                      map[string]any{"load": round(loadSec), "symbolic": round(symSec), "native_build": round(rp.sec)},
		},
		"assumptions": spec.Assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  confirmed,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries, %d undecided, %d unexplored, %d native runs match, %d mismatch, %d violations, %.1fs\n",
		prop, tier, paths, asserts, queries, undecided, unexplored, matched, mismatched, confirmed, time.Since(start).Seconds())
	if confirmed > 0 {
		return 1
	}
	return 0
}

func round(x float64) float64 { return float64(int64(x*10+0.5)) / 10 }
