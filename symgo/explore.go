package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- path control signals (Go panics) ----

type unsupported struct{ msg string }

func unsup(f string, a ...any) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

type pathEnd struct{ why string } // infeasible / killed by an assumption
type pathKill struct{}

type Decision struct {
	n      int32
	forced bool
	w      uint64 // hash used to detect replay divergence
}

type Item struct {
	h      *Harness
	prefix []Decision
	model  map[string]uint64
}

// Violation is a failed assertion with its solver assignment.
type Violation struct {
	Harness string            `json:"harness"`
	Prop    string            `json:"property"`
	Msg     string            `json:"message"`
	Where   string            `json:"where"`
	Vars    map[string]string `json:"vars"`  // nondet values (decimal, or hex:... for strings)
	Trace   []string          `json:"trace"` // notes
	Path    string            `json:"path"`
	Key     string            `json:"key"`
}

type Sample struct {
	Harness string            `json:"harness"`
	Vars    map[string]string `json:"vars"`
	Reached []string          `json:"reached"`
	Asserts []string          `json:"asserts"`
	Obs     []string          `json:"observations,omitempty"`
}

type HStats struct {
	Paths, Infeasible, Undecided int
	Asserts                      int
	Decisions, Forced            int
	Reach                        map[string]int
	Undec                        map[string]int
	AssertMsgs                   map[string]int
	Unexplored                   int
	Steps                        int64
}

type Engine struct {
	P        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Item
	active   int
	stopped  bool
	deadline time.Time
	grace    time.Duration         // how long to go on after the first violation
	known    func(*Violation) bool // violations that do not count for that
	stats    map[string]*HStats
	viols    map[string]*Violation
	nviol    int
	samples  map[string][]*Sample
	funcs    map[string]bool
	queries  int
	unknowns int
	serrors  int
	stime    time.Duration
	nworkers int
	maxPaths map[string]int
	terms    int
	Debug    bool
	possible map[string]string // what some execution must make true -> where, "" once one did
}

type Harness struct {
	Name   string
	Prop   string
	Func   string // function name in the harness package
	Args   map[string]int64
	MaxDec int
	Steps  int64
	Fix    map[string]string // concrete values for some nondeterministic inputs (debugging)
}

func (h *Harness) fixStr(n string) (string, bool) {
	v, ok := h.Fix[n]
	if !ok {
		return "", false
	}
	b, _ := hex.DecodeString(strings.TrimPrefix(v, "hex:"))
	return string(b), true
}

// owns reports whether an assertion ("C01,C14: text") belongs to the checked property.
func (h *Harness) owns(msg string) bool {
	if h.Prop == "" {
		return true
	}
	tags, _, ok := strings.Cut(msg, ":")
	if !ok || !strings.HasPrefix(tags, "C") {
		return true
	}
	for _, t := range strings.Split(tags, ",") {
		if strings.TrimSpace(t) == h.Prop {
			return true
		}
	}
	return false
}

func NewEngine(p *Program, nworkers int) *Engine {
	e := &Engine{P: p, stats: map[string]*HStats{}, viols: map[string]*Violation{}, samples: map[string][]*Sample{}, funcs: map[string]bool{}, nworkers: nworkers}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Engine) st(h string) *HStats {
	s := e.stats[h]
	if s == nil {
		s = &HStats{Reach: map[string]int{}, Undec: map[string]int{}, AssertMsgs: map[string]int{}}
		e.stats[h] = s
	}
	return s
}

func (e *Engine) push(it Item) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped || (!e.deadline.IsZero() && time.Now().After(e.deadline)) {
			if !e.stopped {
				e.stopped = true
				for _, it := range e.stack {
					e.st(it.h.Name).Unexplored++
				}
			}
			e.cond.Broadcast()
			return Item{}, false
		}
		if n := len(e.stack); n > 0 {
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Engine) Run(hs []*Harness) {
	for i := len(hs) - 1; i >= 0; i-- {
		e.stack = append(e.stack, Item{h: hs[i]})
		e.st(hs[i].Name)
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	go func() { // wake waiters at the deadline
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
				e.cond.Broadcast()
			}
		}
	}()
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := NewWorker(e, i)
			defer w.close()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				w.runPath(it)
				e.done()
			}
		}(i)
	}
	wg.Wait()
	close(stop)
	if len(hs) == 1 {
		e.impossible(hs[0])
	}
}

// ---- worker path state ----

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

type nondet struct {
	name string
	kind string // bv, bool, str, choice
	t    *Term
	sgn  bool
	s    *SStr
	k    int
}

func (w *Worker) logUndo(f func()) {
	if w.initDepth == 0 {
		w.undo = append(w.undo, undoRec{f: f})
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		w.undo[i] = undoRec{}
	}
	w.undo = w.undo[:0]
}

func (w *Worker) runPath(it Item) {
	w.h = it.h
	w.prefix = it.prefix
	w.trail = w.trail[:0]
	w.facts = map[*Term]bool{}
	w.nd = w.nd[:0]
	w.ndCount = map[string]int{}
	w.reached = nil
	w.notes = nil
	w.obs = nil
	w.assertsSeen = nil
	w.steps = 0
	w.ndefs = 0
	w.depth = 0
	w.ndecide = 0
	w.sol.Reset()
	w.model = Model{}
	w.modelOK = true
	w.pendingModel = it.model
	w.tc.epoch++
	w.resetPathEnv()
	maxSteps := it.h.Steps
	if maxSteps == 0 {
		maxSteps = 40_000_000
	}
	w.maxSteps = maxSteps
	w.maxDec = it.h.MaxDec
	if w.maxDec == 0 {
		w.maxDec = 3000
	}
	end := ""
	undec := ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case pathEnd:
				end = x.why
			case unsupported:
				undec = "unsupported: " + x.msg
				if w.e.Debug {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.msg, "\n", w.stackString())
				}
			case targetPanic:
				w.panicViolation(x)
				end = "panic"
				if w.e.Debug {
					fmt.Fprintln(os.Stderr, "PANIC", w.showPanic(x), "\n", x.where)
				}
			default:
				undec = fmt.Sprintf("internal error: %v", r)
				if w.e.Debug {
					fmt.Fprintln(os.Stderr, undec, "\n", w.stackString(), string(debug.Stack()))
				}
			}
		}()
		w.mainThread()
	}()
	w.killThreads()
	if w.e.Debug && len(w.notes) > 0 && os.Getenv("SYMGO_NOTES") != "" {
		fmt.Fprintln(os.Stderr, "notes:", w.notes)
	}
	var smp *Sample
	if end == "" && undec == "" {
		smp = w.sampleOf()
	}
	w.rollback()

	e := w.e
	e.mu.Lock()
	s := e.st(it.h.Name)
	s.Steps += w.steps
	s.Decisions += w.ndecide
	if end != "" {
		s.Infeasible++
		if end != "assume" && end != "panic" {
			s.Undec["end: "+end]++
		}
	} else if undec != "" {
		s.Undecided++
		s.Undec[undec]++
	} else {
		s.Paths++
		if smp != nil {
			e.samples[it.h.Name] = append(e.samples[it.h.Name], smp)
		}
	}
	for _, r := range w.reached {
		s.Reach[r]++
	}
	for _, a := range w.assertsSeen {
		s.AssertMsgs[a]++
	}
	for f := range w.newFuncs {
		e.funcs[f] = true
	}
	w.newFuncs = map[string]bool{}
	e.mu.Unlock()
}

// ---- decisions ----

func (w *Worker) addPC(t *Term) {
	if t.isConst() {
		return
	}
	w.sol.Assert(t)
	w.learn(t)
}

func (w *Worker) learn(t *Term) {
	if t.op == OBAnd {
		w.learn(t.a)
		w.learn(t.b)
	}
	w.facts[t] = true
	w.facts[w.tc.Not(t)] = false
}

func (w *Worker) known(t *Term) (bool, bool) {
	if t.isConst() {
		return t.v == 1, true
	}
	if v, ok := w.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case OBAnd:
		a, ok1 := w.known(t.a)
		b, ok2 := w.known(t.b)
		if ok1 && !a || ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OBOr:
		a, ok1 := w.known(t.a)
		b, ok2 := w.known(t.b)
		if ok1 && a || ok2 && b {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	case OBNot:
		a, ok := w.known(t.a)
		return !a, ok
	}
	return false, false
}

func (w *Worker) vars() []*Term { return w.tc.varSeq }

func (w *Worker) setModel(m Model) {
	w.model = m
	w.modelOK = true
	w.tc.epoch++
}

func (w *Worker) ensureModel() {
	if w.modelOK {
		return
	}
	if w.pendingModel != nil {
		m := Model{}
		for n, v := range w.pendingModel {
			if t, ok := w.tc.vars[n]; ok {
				m[t] = v
			}
		}
		w.pendingModel = nil
		w.setModel(m)
		return
	}
	r, m := w.sol.Check(nil, w.vars())
	switch r {
	case Sat:
		w.setModel(m)
	case Unsat:
		panic(pathEnd{"assume"})
	default:
		panic(unsup("solver gave no answer for the path condition"))
	}
}

func (w *Worker) exportModel(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for t, v := range m {
		r[t.name] = v
	}
	return r
}

func (w *Worker) replaying() bool { return len(w.trail) < len(w.prefix) }

// decide returns the truth value of t on this path, forking when both are possible.
func (w *Worker) decide(t *Term) bool {
	if t.w != 0 {
		panic("decide on non-boolean")
	}
	if t.isConst() {
		return t.v == 1
	}
	if w.initDepth > 0 {
		panic(unsup("symbolic branch during package initialisation"))
	}
	if v, ok := w.known(t); ok {
		return v
	}
	if w.replaying() {
		d := w.prefix[len(w.trail)]
		w.trail = append(w.trail, d)
		b := d.n == 1
		lit := t
		if !b {
			lit = w.tc.Not(t)
		}
		if d.forced {
			w.learn(lit)
		} else {
			w.addPC(lit)
		}
		if !w.replaying() {
			w.modelOK = false
		}
		return b
	}
	w.ndecide++
	if w.ndecide > w.maxDec {
		panic(unsup("more than %d symbolic decisions on one path", w.maxDec))
	}
	w.ensureModel()
	b := w.tc.Eval(t, w.model) != 0
	lit, opp := t, w.tc.Not(t)
	if !b {
		lit, opp = opp, lit
	}
	r, m := w.sol.Check(opp, w.vars())
	if r == Unknown && w.sol.dead {
		panic(unsup("solver died"))
	}
	n := int32(0)
	if b {
		n = 1
	}
	if r == Unsat {
		w.trail = append(w.trail, Decision{n: n, forced: true})
		w.learn(lit)
		return b
	}
	alt := append(append([]Decision{}, w.trail...), Decision{n: 1 - n})
	var em map[string]uint64
	if r == Sat {
		em = w.exportModel(m)
	}
	w.e.push(Item{h: w.h, prefix: alt, model: em})
	w.trail = append(w.trail, Decision{n: n})
	w.addPC(lit)
	return b
}

// choose picks one of n alternatives (all explored).
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.replaying() {
		d := w.prefix[len(w.trail)]
		w.trail = append(w.trail, d)
		if !w.replaying() {
			w.modelOK = false
		}
		return int(d.n)
	}
	w.ndecide++
	if w.ndecide > w.maxDec {
		panic(unsup("more than %d decisions on one path", w.maxDec))
	}
	w.ensureModel()
	em := w.exportModel(w.model)
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]Decision{}, w.trail...), Decision{n: int32(i)})
		w.e.push(Item{h: w.h, prefix: alt, model: em})
	}
	w.trail = append(w.trail, Decision{n: 0})
	return 0
}

func (w *Worker) assume(t *Term) {
	if v, ok := w.known(t); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if w.replaying() {
		w.addPC(t)
		return
	}
	w.ensureModel()
	if w.tc.Eval(t, w.model) != 0 {
		w.addPC(t)
		return
	}
	r, m := w.sol.Check(t, w.vars())
	switch r {
	case Unsat:
		panic(pathEnd{"assume"})
	case Sat:
		w.setModel(m)
		w.addPC(t)
	default:
		panic(unsup("solver gave no answer for an assumption"))
	}
}

func (w *Worker) assert(t *Term, msg, where string) {
	w.assertsSeen = append(w.assertsSeen, msg)
	if w.replaying() {
		// already checked by the path that created this prefix
		w.addPC(t)
		if t == w.tc.False {
			panic(pathEnd{"assume"})
		}
		return
	}
	w.e.mu.Lock()
	w.e.st(w.h.Name).Asserts++
	w.e.mu.Unlock()
	if v, ok := w.known(t); ok && v {
		return
	}
	r, m := w.sol.Check(w.tc.Not(t), w.vars())
	switch r {
	case Unsat:
		w.learn(t)
		return
	case Sat:
		w.report(msg, where, m)
	default:
		w.e.mu.Lock()
		w.e.st(w.h.Name).Undec["assertion not decided by the solver: "+msg]++
		w.e.mu.Unlock()
	}
	w.assume(t)
}

// possible asks whether some execution on this path makes t true; one path on which it is so is enough.
func (w *Worker) possible(t *Term, msg, where string) {
	e := w.e
	e.mu.Lock()
	if e.possible == nil {
		e.possible = map[string]string{}
	}
	old, seen := e.possible[msg]
	if !seen {
		e.possible[msg] = where
		e.st(w.h.Name).Asserts++
	}
	e.mu.Unlock()
	if seen && old == "" || w.replaying() {
		return
	}
	ok, known := w.known(t)
	if !known {
		r, _ := w.sol.Check(t, w.vars())
		ok = r == Sat
	}
	if ok {
		e.mu.Lock()
		e.possible[msg] = ""
		e.mu.Unlock()
	}
}

// impossible reports what no execution made true, when all of them were explored.
func (e *Engine) impossible(h *Harness) {
	s := e.st(h.Name)
	if e.stopped || s.Undecided > 0 || s.Unexplored > 0 || len(s.Undec) > 0 || e.unknowns > 0 {
		return
	}
	for _, m := range sortedKeys(e.possible) {
		if w := e.possible[m]; w != "" && e.nviol < 8 {
			k := fmt.Sprintf("%s|%s|0", h.Name, m)
			e.viols[k] = &Violation{Harness: h.Name, Prop: h.Prop, Msg: m, Where: w, Vars: map[string]string{"zz.sweep": "1"}, Key: k}
			e.nviol++
		}
	}
}

func (w *Worker) valueUnder(m Model) map[string]string {
	old, oldOK := w.model, w.modelOK
	w.setModel(m)
	defer func() { w.setModel(old); w.modelOK = oldOK }()
	out := map[string]string{}
	for _, n := range w.nd {
		out[n.name] = w.ndValue(n, m)
	}
	return out
}

func (w *Worker) ndValue(n nondet, m Model) string {
	switch n.kind {
	case "bv":
		v := w.tc.Eval(n.t, m)
		if n.sgn {
			return fmt.Sprint(sext64(v, n.t.w))
		}
		return fmt.Sprint(v)
	case "bool":
		return fmt.Sprint(w.tc.Eval(n.t, m))
	case "str":
		l := int(w.tc.Eval(n.s.n, m))
		var sb strings.Builder
		sb.WriteString("hex:")
		for i := 0; i < l && i < len(n.s.b); i++ {
			fmt.Fprintf(&sb, "%02x", w.tc.Eval(n.s.b[i], m))
		}
		return sb.String()
	case "choice":
		return fmt.Sprint(n.k)
	}
	return "?"
}

func (w *Worker) report(msg, where string, m Model) {
	v := &Violation{Harness: w.h.Name, Prop: w.h.Prop, Msg: msg, Where: where, Vars: w.valueUnder(m), Trace: append([]string{}, w.notes...)}
	w.e.mu.Lock()
	defer w.e.mu.Unlock()
	w.e.nviol++
	// keep a few per (harness, message)
	for k := 0; k < 3; k++ {
		key := fmt.Sprintf("%s|%s|%d", w.h.Name, msg, k)
		if w.e.viols[key] == nil {
			v.Key = key
			w.e.viols[key] = v
			if w.e.grace > 0 && (w.e.known == nil || !w.e.known(v)) {
				if d := time.Now().Add(w.e.grace); w.e.deadline.IsZero() || d.Before(w.e.deadline) {
					w.e.deadline = d
				}
				w.e.grace = 0
			}
			break
		}
	}
}

// panicViolation reports a panic of the code under test that nothing recovered.
func (w *Worker) panicViolation(x targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			w.e.mu.Lock()
			w.e.st(w.h.Name).Undec["panic on a path the solver could not confirm"]++
			w.e.mu.Unlock()
		}
	}()
	w.ensureModel()
	where, _, _ := strings.Cut(x.where, "\n")
	w.report("panic: "+w.showPanic(x), where, w.model)
}

func (w *Worker) sampleOf() (s *Sample) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	w.e.mu.Lock()
	n := len(w.e.samples[w.h.Name])
	w.e.mu.Unlock()
	if n >= 400 {
		return nil
	}
	if !w.modelOK {
		w.ensureModel()
	}
	s = &Sample{Harness: w.h.Name, Vars: w.valueUnder(w.model), Reached: append([]string{}, w.reached...), Asserts: append([]string{}, w.assertsSeen...)}
	for _, o := range w.obs {
		s.Obs = append(s.Obs, o.show(w))
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
