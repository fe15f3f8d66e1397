package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run": // symgo run [-j n] [-t secs] Harness [arg=val...]
		cmdRun(os.Args[2:])
	case "check": // symgo check PROPERTY
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay": // symgo replay FILE
		os.Exit(cmdReplay(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func dirs() (verif, repo string) {
	verif = os.Getenv("SYMGO_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo = os.Getenv("SYMGO_REPO")
	if repo == "" {
		repo = "/repo"
	}
	return
}

func loadFor(pkgs []string) *Program {
	verif, repo := dirs()
	t0 := time.Now()
	var pats []string
	for _, h := range pkgs {
		pats = append(pats, "./"+vDir+"/"+h)
	}
	p, err := Load(repo, verif, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo: load:", err)
		os.Exit(2)
	}
	if os.Getenv("SYMGO_V") != "" {
		fmt.Fprintf(os.Stderr, "loaded %d packages in %.1fs\n", len(p.pkgs), time.Since(t0).Seconds())
	}
	return p
}

func pkgsFor(names ...string) []string {
	verif, _ := dirs()
	ps, err := harnessPkgs(verif, names)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		os.Exit(2)
	}
	return ps
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	j := fs.Int("j", runtime.NumCPU(), "workers")
	tm := fs.Int("t", 60, "seconds")
	dbg := fs.Bool("d", false, "debug")
	fs.Parse(args)
	os.Setenv("SYMGO_V", "1")
	p := loadFor(pkgsFor(fs.Arg(0)))
	h := &Harness{Name: fs.Arg(0), Func: fs.Arg(0), Args: map[string]int64{}}
	if f := os.Getenv("SYMGO_FIX"); f != "" {
		b, _ := os.ReadFile(f)
		var c replayCase
		json.Unmarshal(b, &c)
		h.Fix = c.Vars
		h.Args = c.Args
		for _, d := range strings.Split(os.Getenv("SYMGO_UNFIX"), ",") {
			delete(h.Fix, d)
		}
	}
	for _, a := range fs.Args()[1:] {
		k, v, _ := strings.Cut(a, "=")
		var n int64
		fmt.Sscan(v, &n)
		h.Args[k] = n
	}
	e := NewEngine(p, *j)
	e.Debug = *dbg
	e.deadline = time.Now().Add(time.Duration(*tm) * time.Second)
	t0 := time.Now()
	e.Run([]*Harness{h})
	fmt.Printf("time %.2fs queries %d solver %.2fs unknown %d errors %d terms %d\n", time.Since(t0).Seconds(), e.queries, e.stime.Seconds(), e.unknowns, e.serrors, e.terms)
	s := e.stats[h.Name]
	fmt.Printf("paths %d infeasible %d undecided %d unexplored %d asserts %d decisions %d steps %d\n", s.Paths, s.Infeasible, s.Undecided, s.Unexplored, s.Asserts, s.Decisions, s.Steps)
	for _, k := range sortedKeys(s.Reach) {
		fmt.Printf("  reach %-40s %d\n", k, s.Reach[k])
	}
	for _, k := range sortedKeys(s.AssertMsgs) {
		fmt.Printf("  assert %-60s %d\n", k, s.AssertMsgs[k])
	}
	for _, k := range sortedKeys(s.Undec) {
		fmt.Printf("  UNDEC %s: %d\n", k, s.Undec[k])
	}
	fmt.Println("violations:", e.nviol)
	for _, k := range sortedKeys(e.viols) {
		v := e.viols[k]
		fmt.Println("  VIOL", v.Msg, v.Where)
		var ks []string
		for x := range v.Vars {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		for _, x := range ks {
			fmt.Printf("     %s=%s", x, v.Vars[x])
		}
		fmt.Println()
		for _, n := range v.Trace {
			fmt.Println("     |", n)
		}
	}
	if f := os.Getenv("SYMGO_FUNCS"); f != "" {
		b, _ := json.MarshalIndent(sortedKeys(e.funcs), "", " ")
		os.WriteFile(f, b, 0o644)
	}
}
