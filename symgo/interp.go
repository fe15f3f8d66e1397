package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- worker ----

type fnInfo struct {
	fn    *ssa.Function
	name  string
	slots map[ssa.Value]int
	n     int
	intr  Intrinsic
	redir *ssa.Function
	repo  bool
}

type Worker struct {
	e   *Engine
	P   *Program
	id  int
	tc  *TCtx
	sol *Solver

	fns     map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	gobTypes map[types.Type]bool // registered with encoding/gob
	consts  map[*ssa.Const]Value
	canonC  map[types.Type]types.Type
	asserts map[[2]types.Type]bool
	mcache  map[methKey]*ssa.Function

	initDepth int

	// path state
	h            *Harness
	prefix       []Decision
	trail        []Decision
	facts        map[*Term]bool
	model        Model
	modelOK      bool
	pendingModel map[string]uint64
	undo         []undoRec
	nd           []nondet
	ndCount      map[string]int
	reached      []string
	notes        []string
	obs          []obsRec
	assertsSeen  []string
	steps        int64
	maxSteps     int64
	maxDec       int
	ndecide      int
	ndefs        int
	depth        int
	newFuncs     map[string]bool

	sched
	env
}

type methKey struct {
	t types.Type
	n string
	p *types.Package
}

func NewWorker(e *Engine, id int) *Worker {
	w := &Worker{e: e, P: e.P, id: id, tc: NewTCtx(), fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]int{}, gobTypes: map[types.Type]bool{}, consts: map[*ssa.Const]Value{}, canonC: map[types.Type]types.Type{},
		asserts: map[[2]types.Type]bool{}, mcache: map[methKey]*ssa.Function{}, newFuncs: map[string]bool{}}
	w.sol = NewSolver(w.tc, 2000)
	return w
}

func (w *Worker) close() {
	w.e.mu.Lock()
	w.e.queries += w.sol.Queries
	w.e.unknowns += w.sol.Unknowns
	w.e.serrors += w.sol.Errors
	w.e.stime += w.sol.Time
	w.e.terms += int(w.tc.next)
	w.e.mu.Unlock()
	w.sol.Close()
}

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
)

func (w *Worker) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := w.canonC[t]; ok {
		return c
	}
	canonMu.Lock()
	c, _ := canonMap.At(types.Unalias(t)).(types.Type)
	if c == nil {
		c = types.Unalias(t)
		canonMap.Set(c, c)
	}
	canonMu.Unlock()
	w.canonC[t] = c
	return c
}

func (w *Worker) sameType(a, b types.Type) bool {
	return a == b || w.canon(a) == w.canon(b)
}

type Frame struct {
	w             *Worker
	fn            *ssa.Function
	info          *fnInfo
	regs          []Value
	env           []Value
	block         *ssa.BasicBlock
	prev          *ssa.BasicBlock
	defers        []*deferRec
	result        Value
	panicking     bool
	panic         targetPanic
	caller        *Frame
	pos           token.Pos
	runningDefers bool
}

type deferRec struct {
	fn   Value
	args []Value
	intf func()
}

type targetPanic struct {
	v     Value
	where string
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.fns[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, name: fn.String(), slots: map[ssa.Value]int{}}
	w.fns[fn] = i
	name := i.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if r := w.P.redirects[name]; r != nil && r != fn {
		i.redir = r
	}
	if it, ok := intrinsics[name]; ok {
		i.intr = it
	} else if it, ok := intrinsics[i.name]; ok {
		i.intr = it
	}
	i.repo = fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), w.P.Module)
	if i.intr == nil && i.redir == nil {
		w.P.ensureBuilt(fn)
	}
	add := func(v ssa.Value) {
		i.slots[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	return i
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.w.constant(x)
	case *ssa.Global:
		return fr.w.global(x)
	case *ssa.Function:
		return fr.w.funcVal(x)
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.env[i]
			}
		}
	}
	if s, ok := fr.info.slots[v]; ok {
		return fr.regs[s]
	}
	panic(unsup("no value for %s in %s", v.Name(), fr.fn))
}

func (w *Worker) funcVal(f *ssa.Function) *Closure {
	if c, ok := w.P.fnClosure.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := w.P.fnClosure.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.slots[v]] = x }

func (w *Worker) constant(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	v := w.constant1(c)
	switch v.(type) {
	case Struct, Array:
		return v // fresh each time
	}
	w.consts[c] = v
	return v
}

func (w *Worker) constant1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if wd, signed, ok := intInfo(t); ok {
		if signed {
			v := constant.ToInt(c.Value)
			i, _ := constant.Int64Val(v)
			return w.tc.BV(uint64(i), wd)
		}
		v := constant.ToInt(c.Value)
		u, _ := constant.Uint64Val(v)
		return w.tc.BV(u, wd)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsup("constant of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(unsup("constant %v", c))
}

// ---- memory ----

func (w *Worker) setCell(p *Value, v Value) {
	if w.initDepth == 0 {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range d {
				w.store(&d[i], x[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range d {
				w.store(&d[i], x[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
		return
	}
	w.setCell(p, v)
}

func (fr *Frame) storeTo(ptr, v Value) {
	w := fr.w
	switch p := fr.force(ptr).(type) {
	case *Value:
		if p == nil {
			fr.nilDeref()
		}
		w.store(p, v)
	case *ElemPtr:
		for i := range p.arr {
			k := w.tc.Eq(p.idx, w.tc.BV(uint64(i), p.idx.w))
			if k == w.tc.False {
				continue
			}
			w.store(&p.arr[i], w.ite(k, v, p.arr[i]))
		}
	case Poison:
		panic(unsup("store through poisoned value: %s", p.why))
	default:
		panic(unsup("store to %T", ptr))
	}
}

func (fr *Frame) loadFrom(ptr Value) Value {
	w := fr.w
	switch p := fr.force(ptr).(type) {
	case *Value:
		if p == nil {
			fr.nilDeref()
		}
		return copyVal(*p)
	case *ElemPtr:
		var r Value
		for i := len(p.arr) - 1; i >= 0; i-- {
			k := w.tc.Eq(p.idx, w.tc.BV(uint64(i), p.idx.w))
			if k == w.tc.False {
				continue
			}
			if r == nil {
				r = copyVal(p.arr[i])
			} else {
				r = w.ite(k, copyVal(p.arr[i]), r)
			}
		}
		if r == nil {
			panic(pathEnd{"empty symbolic element"})
		}
		return r
	case Poison:
		return p
	default:
		panic(unsup("load from %T", ptr))
	}
}

func (fr *Frame) nilDeref() {
	fr.rtPanic("invalid memory address or nil pointer dereference")
}

func (fr *Frame) rtPanic(msg string) {
	w := fr.w
	panic(targetPanic{v: Iface{T: w.P.rtErrType, V: msg}, where: w.stackOf(fr)})
}

// force resolves a Choice by forking.
func (fr *Frame) force(v Value) Value {
	c, ok := v.(*Choice)
	if !ok {
		return v
	}
	return fr.w.pick(c)
}

func (w *Worker) pick(c *Choice) Value {
	for i, a := range c.alts {
		if i == len(c.alts)-1 {
			// exhaustive by construction; still record the condition
			if !w.decide(a.cond) {
				panic(pathEnd{"assume"})
			}
			return a.v
		}
		if w.decide(a.cond) {
			return a.v
		}
	}
	panic(pathEnd{"empty choice"})
}

// concInt makes an integer concrete by forking over its feasible values.
func (w *Worker) concInt(t *Term) int64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return sext64(t.v, t.w)
		}
		if w.initDepth > 0 {
			panic(unsup("symbolic integer during init"))
		}
		if t.hi-t.lo <= 16 {
			for v := t.lo; ; v++ {
				k := w.tc.BV(v, t.w)
				if v == t.hi {
					w.assume(w.tc.Eq(t, k))
					return sext64(v, t.w)
				}
				if w.decide(w.tc.Eq(t, k)) {
					return sext64(v, t.w)
				}
			}
		}
		if n > 64 {
			panic(unsup("too many values for a symbolic integer"))
		}
		// The value tried must not depend on the worker's model: derive it from a
		// binary search of the range so that replays agree.
		lo, hi := t.slo, t.shi
		for hi-lo > 0 || lo != hi {
			mid := lo + int64((uint64(hi)-uint64(lo))/2)
			if w.decide(w.tc.Sle(t, w.tc.BV(uint64(mid), t.w))) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		w.assume(w.tc.Eq(t, w.tc.BV(uint64(lo), t.w)))
		return lo
	}
}

// ---- calls ----

func (w *Worker) call(caller *Frame, f Value, args []Value) Value {
	switch c := f.(type) {
	case *Closure:
		if c == nil {
			if caller == nil {
				panic(unsup("call of nil function"))
			}
			caller.nilDeref()
		}
		if c.nat != nil {
			return c.nat(caller, args)
		}
		return w.callFn(caller, c.fn, args, c.env)
	case *Choice:
		return w.call(caller, w.pick(c), args)
	case Poison:
		if w.initDepth > 0 {
			return c
		}
		panic(unsup("call of poisoned function: %s", c.why))
	}
	panic(unsup("call of %T", f))
}

func (w *Worker) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) (res Value) {
	info := w.info(fn)
	if info.redir != nil {
		return w.callFn(caller, info.redir, args, nil)
	}
	if info.intr != nil {
		fr := caller
		if fr == nil {
			fr = &Frame{w: w, fn: fn, info: info}
		}
		r, ok := info.intr(fr, fn, args)
		if ok {
			return r
		}
		w.P.ensureBuilt(fn)
		if info.n == 0 && len(fn.Params) > 0 {
			delete(w.fns, fn)
			info = w.info(fn)
		}
	}
	if fn.Blocks == nil {
		panic(unsup("no body: %s", fn))
	}
	if info.n == 0 && (len(fn.Params) > 0) || len(info.slots) == 0 && len(fn.Blocks) > 0 {
		// built after info was made
		info.slots = map[ssa.Value]int{}
		info.n = 0
		for _, p := range fn.Params {
			info.slots[p] = info.n
			info.n++
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					info.slots[v] = info.n
					info.n++
				}
			}
		}
	}
	if info.repo {
		w.newFuncs[info.name] = true
	} else if !w.newFuncs[info.name] {
		w.newFuncs[info.name] = true
	}
	w.depth++
	if w.depth > 3000 {
		panic(unsup("call depth limit"))
	}
	defer func() { w.depth-- }()
	fr := &Frame{w: w, fn: fn, info: info, env: env, caller: caller, regs: make([]Value, info.n)}
	for i, p := range fn.Params {
		fr.regs[info.slots[p]] = args[i]
	}
	w.curFrame = fr
	defer func() { w.curFrame = caller }()
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

// run executes the frame until return, handling target panics through deferred calls.
func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if r == nil {
				return
			}
			panic(r)
		}
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results: return zero values
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = fr.w.zero(res.At(0).Type())
			default:
				fr.result = fr.w.zero(res)
			}
		}
	}()
	for {
		blk := fr.block
		for _, in := range blk.Instrs {
			switch fr.exec(in) {
			case kNext:
			case kReturn:
				return
			case kJump:
				goto jumped
			}
		}
	jumped:
	}
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panic = tp
				}
			}()
			fr.runningDefers = true
			if d.intf != nil {
				d.intf()
			} else {
				fr.doCall(d.fn, d.args)
			}
		}()
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (w *Worker) posOf(fr *Frame) string {
	if fr == nil {
		return "?"
	}
	p := w.P.Prog.Fset.Position(fr.pos)
	if !p.IsValid() {
		return fr.fn.String()
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, w.P.RepoDir+"/"), p.Line)
}

func (w *Worker) stackOf(fr *Frame) string {
	var sb strings.Builder
	for f, n := fr, 0; f != nil && n < 12; f, n = f.caller, n+1 {
		fmt.Fprintf(&sb, "%s at %s\n", f.fn, w.posOf(f))
	}
	return sb.String()
}

func (w *Worker) stackString() string { return w.stackOf(w.curFrame) }

var traceOn = os.Getenv("SYMGO_TRACE") != ""

func (fr *Frame) exec(in ssa.Instruction) cont {
	w := fr.w
	w.steps++
	if w.steps > w.maxSteps {
		panic(unsup("instruction budget exhausted"))
	}
	if p := in.Pos(); p.IsValid() {
		fr.pos = p
	}
	if traceOn {
		fmt.Fprintf(os.Stderr, "%s: %v\n", fr.fn.Name(), in)
	}
	if w.initDepth > 0 {
		return fr.execInit(in)
	}
	return fr.exec1(in)
}

// execInit runs an instruction of package initialisation; what cannot be
// executed yields a poisoned value, an error only if the value is later used.
func (fr *Frame) execInit(in ssa.Instruction) (k cont) {
	v, isVal := in.(ssa.Value)
	if !isVal {
		return fr.exec1(in)
	}
	switch in.(type) {
	case *ssa.Call, *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.IndexAddr, *ssa.Extract, *ssa.Slice, *ssa.Lookup:
	default:
		return fr.exec1(in)
	}
	depth, cur := w0(fr).depth, w0(fr).curFrame
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case unsupported:
				why = x.msg
			case targetPanic:
				if fr.fn.Synthetic == "" {
					panic(r)
				}
				why = "panic: " + fr.w.showPanic(x)
			default:
				if fr.fn.Synthetic == "" {
					panic(r)
				}
				why = fmt.Sprint(r)
			}
			fr.w.depth, fr.w.curFrame = depth, cur
			fr.set(v, Poison{why})
			k = kNext
		}
	}()
	return fr.exec1(in)
}

func w0(fr *Frame) *Worker { return fr.w }

func (fr *Frame) exec1(in ssa.Instruction) cont {
	w := fr.w
	c := w.tc
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		cell := new(Value)
		*cell = w.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, cell)
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, fr.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepCall(&x.Call)
		fr.set(x, fr.doCall(fn, args))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, fr.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, fr.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	case *ssa.MakeInterface:
		v := fr.get(x.X)
		fr.set(x, Iface{T: x.X.Type(), V: copyVal(v)})
	case *ssa.Extract:
		v := fr.force(fr.get(x.Tuple))
		if p, ok := v.(Poison); ok {
			fr.set(x, p)
		} else {
			fr.set(x, v.(Tuple)[x.Index])
		}
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(x.X)
		panic(targetPanic{v: v, where: w.stackOf(fr)})
	case *ssa.Send:
		w.chanSend(fr, fr.force(fr.get(x.Chan)), fr.get(x.X))
	case *ssa.Store:
		fr.storeTo(fr.get(x.Addr), fr.get(x.Val))
	case *ssa.If:
		i := 1
		v := fr.get(x.Cond)
		t, ok := v.(*Term)
		if !ok {
			if p, isP := v.(Poison); isP {
				panic(unsup("branch on poisoned value: %s", p.why))
			}
			panic(unsup("branch on %T", v))
		}
		if w.decide(t) {
			i = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[i]
		fr.phis()
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return kJump
	case *ssa.Phi:
		// evaluated on block entry
	case *ssa.Defer:
		fn, args := fr.prepCall(&x.Call)
		if x.DeferStack != nil {
			panic(unsup("defer in range-over-func"))
		}
		fr.defers = append(fr.defers, &deferRec{fn: fn, args: args})
	case *ssa.Go:
		fn, args := fr.prepCall(&x.Call)
		w.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := w.concInt(fr.get(x.Size).(*Term))
		w.nchan++
		fr.set(x, &ChanObj{cap: int(n), elemT: x.Type().Underlying().(*types.Chan).Elem(), id: w.nchan})
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		fr.set(x, newMap(m.Key(), m.Elem()))
	case *ssa.MakeSlice:
		fr.set(x, fr.makeSlice(x))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.FieldAddr:
		p := fr.force(fr.get(x.X))
		switch p := p.(type) {
		case *Value:
			if p == nil {
				fr.nilDeref()
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsup("field address of %T (%v) in %s", *p, x.X.Type(), fr.fn))
			}
			fr.set(x, &s[x.Field])
		case *ElemPtr:
			idx := w.concInt(p.idx)
			s := p.arr[idx].(Struct)
			fr.set(x, &s[x.Field])
		case Poison:
			fr.set(x, p)
		default:
			panic(unsup("field address through %T", p))
		}
	case *ssa.Field:
		switch s := fr.force(fr.get(x.X)).(type) {
		case Struct:
			fr.set(x, copyVal(s[x.Field]))
		case Poison:
			fr.set(x, s)
		default:
			panic(unsup("field of %T", s))
		}
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Index:
		fr.set(x, fr.index(x))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		m, _ := fr.force(fr.get(x.Map)).(*MapObj)
		if m == nil {
			fr.rtPanic("assignment to entry in nil map")
		}
		w.mapSet(m, copyVal(fr.get(x.Key)), copyVal(fr.get(x.Value)))
	case *ssa.Range:
		switch v := fr.force(fr.get(x.X)).(type) {
		case *MapObj:
			fr.set(x, &mapIter{m: v})
		case string, *SStr:
			fr.set(x, &strIter{s: v})
		default:
			panic(unsup("range over %T", v))
		}
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Select:
		fr.set(x, w.selectStmt(fr, x))
	default:
		panic(unsup("instruction %T", in))
	}
	_ = c
	return kNext
}

func (fr *Frame) phis() {
	var vals []Value
	var dst []*ssa.Phi
	idx := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			idx = i
			break
		}
	}
	for _, in := range fr.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.get(p.Edges[idx]))
		dst = append(dst, p)
	}
	for i, p := range dst {
		fr.set(p, vals[i])
	}
}

func (fr *Frame) doCall(fn Value, args []Value) Value {
	if b, ok := fn.(*boundBuiltin); ok {
		return fr.builtin(b, args)
	}
	return fr.w.call(fr, fn, args)
}

type boundBuiltin struct {
	b    *ssa.Builtin
	call *ssa.CallCommon
}

func (fr *Frame) prepCall(cc *ssa.CallCommon) (Value, []Value) {
	w := fr.w
	var args []Value
	var fn Value
	if cc.IsInvoke() {
		recv := fr.force(fr.get(cc.Value))
		if p, ok := recv.(Poison); ok {
			panic(unsup("method call on poisoned value: %s", p.why))
		}
		i, ok := recv.(Iface)
		if !ok {
			panic(unsup("invoke on %T", recv))
		}
		if i.T == nil {
			fr.nilDeref()
		}
		if n, ok := i.V.(nativeIface); ok {
			m := cc.Method.Name()
			for _, a := range cc.Args {
				args = append(args, fr.get(a))
			}
			return &Closure{nat: func(f *Frame, as []Value) Value { return n.invoke(f, m, as) }}, args
		}
		f := w.method(i.T, cc.Method)
		if f == nil {
			panic(unsup("method %s not found on %v", cc.Method.Name(), i.T))
		}
		fn = w.funcVal(f)
		args = append(args, copyVal(i.V))
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		fn = &boundBuiltin{b, cc}
	} else {
		fn = fr.force(fr.get(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, fr.get(a))
	}
	if bb, ok := fn.(*boundBuiltin); ok {
		// wrap for defer / go
		_ = bb
	}
	return fn, args
}

type nativeIface interface {
	invoke(fr *Frame, method string, args []Value) Value
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{w.canon(t), m.Name(), nil}
	if !m.Exported() {
		k.p = m.Pkg()
	}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	f := w.P.lookupMethod(t, m.Pkg(), m.Name())
	w.mcache[k] = f
	return f
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	w := fr.w
	c := w.tc
	v := fr.get(x.X)
	if x.Op == token.MUL {
		return fr.loadFrom(v)
	}
	if x.Op == token.ARROW {
		return w.chanRecv(fr, fr.force(v), x.CommaOk)
	}
	v = fr.force(v)
	switch a := v.(type) {
	case *Term:
		switch x.Op {
		case token.NOT:
			return c.Not(a)
		case token.SUB:
			return c.Bin(OSub, c.BV(0, a.w), a)
		case token.XOR:
			return c.BVNot(a)
		}
	case float64:
		if x.Op == token.SUB {
			return -a
		}
	case SymF:
		if x.Op == token.SUB {
			return SymF{c.Bin(OSub, c.BV(0, 64), a.t), a.den}
		}
	case complex128:
		if x.Op == token.SUB {
			return -a
		}
	case Poison:
		return a
	}
	panic(unsup("unop %v on %T", x.Op, v))
}

func (fr *Frame) binop(op token.Token, t types.Type, xv, yv Value, yt types.Type) Value {
	w := fr.w
	c := w.tc
	if p, ok := xv.(Poison); ok {
		return p
	}
	if p, ok := yv.(Poison); ok {
		return p
	}
	switch op {
	case token.EQL:
		return fr.eqChecked(xv, yv, t)
	case token.NEQ:
		return c.Not(fr.eqChecked(xv, yv, t))
	}
	xv, yv = fr.force(xv), fr.force(yv)
	switch x := xv.(type) {
	case *Term:
		y, ok := yv.(*Term)
		if !ok {
			panic(unsup("binop %v on %T, %T", op, xv, yv))
		}
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(x, y)
			case token.OR, token.LOR:
				return c.Or(x, y)
			}
			panic(unsup("bool binop %v", op))
		}
		_, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, x, y)
		case token.SUB:
			return c.Bin(OSub, x, y)
		case token.MUL:
			return c.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if w.decide(c.Eq(y, c.BV(0, y.w))) {
				fr.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if signed {
					return c.Bin(OSDiv, x, y)
				}
				return c.Bin(OUDiv, x, y)
			}
			if signed {
				return c.Bin(OSRem, x, y)
			}
			return c.Bin(OURem, x, y)
		case token.AND:
			return c.Bin(OAnd, x, y)
		case token.OR:
			return c.Bin(OOr, x, y)
		case token.XOR:
			return c.Bin(OXor, x, y)
		case token.AND_NOT:
			return c.Bin(OAnd, x, c.BVNot(y))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(yt)
			if ys && y.slo < 0 {
				if w.decide(c.Slt(y, c.BV(0, y.w))) {
					fr.rtPanic("negative shift amount")
				}
			}
			y = w.shiftCount(y, x.w)
			if op == token.SHL {
				return c.Bin(OShl, x, y)
			}
			if signed {
				return c.Bin(OAshr, x, y)
			}
			return c.Bin(OLshr, x, y)
		case token.LSS:
			if signed {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if signed {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if signed {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if signed {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	case string, *SStr:
		switch op {
		case token.ADD:
			return w.strConcat(xv, yv)
		case token.LSS:
			return w.strLess(xv, yv)
		case token.GTR:
			return w.strLess(yv, xv)
		case token.LEQ:
			return c.Not(w.strLess(yv, xv))
		case token.GEQ:
			return c.Not(w.strLess(xv, yv))
		}
	case float64:
		y, ok := yv.(float64)
		if !ok {
			if _, ok := yv.(SymF); ok {
				return w.symFloat(op, xv, yv)
			}
			break
		}
		f32 := false
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f32 = true
		}
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	case SymF:
		return w.symFloat(op, x, yv)
	case complex128:
		y := yv.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	panic(unsup("binop %v on %T, %T", op, xv, yv))
}

func (w *Worker) shiftCount(y *Term, wd uint8) *Term {
	c := w.tc
	if y.w == wd {
		return y
	}
	if y.w < wd {
		return c.Zext(y, wd)
	}
	if y.isConst() {
		if y.v >= uint64(wd) {
			return c.BV(uint64(wd), wd)
		}
		return c.BV(y.v, wd)
	}
	big := c.Ule(c.BV(uint64(wd), y.w), y)
	return c.Ite(big, c.BV(uint64(wd), wd), c.Extract(y, wd-1, 0))
}

func (fr *Frame) eqChecked(x, y Value, t types.Type) *Term {
	return fr.w.eq(x, y, t)
}

// eq compares two values of static type t.
func (w *Worker) eq(x, y Value, t types.Type) *Term {
	c := w.tc
	if ch, ok := x.(*Choice); ok {
		r := c.False
		for _, a := range ch.alts {
			r = c.Or(r, c.And(a.cond, w.eq(a.v, y, t)))
		}
		return r
	}
	if _, ok := y.(*Choice); ok {
		return w.eq(y, x, t)
	}
	if p, ok := x.(Poison); ok {
		panic(unsup("comparison of poisoned value: %s", p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsup("comparison of poisoned value: %s", p.why))
	}
	switch a := x.(type) {
	case *Term:
		return c.Eq(a, y.(*Term))
	case string, *SStr:
		return w.strEq(x, y)
	case float64:
		if _, ok := y.(SymF); ok {
			return w.symFloat(token.EQL, x, y).(*Term)
		}
		return c.Bool(a == y.(float64))
	case SymF:
		return w.symFloat(token.EQL, x, y).(*Term)
	case complex128:
		return c.Bool(a == y.(complex128))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			if yi, isI := y.(Iface); isI && yi.T == nil {
				return c.Bool(a == nil)
			}
			panic(unsup("compare pointer with %T", y))
		}
		return c.Bool(a == b)
	case *ElemPtr:
		panic(unsup("compare element pointers"))
	case *Closure:
		b, _ := y.(*Closure)
		if a != nil && b != nil {
			panic(unsup("compare functions"))
		}
		return c.Bool(a == nil && b == nil)
	case *MapObj:
		b, _ := y.(*MapObj)
		return c.Bool(a == b)
	case *ChanObj:
		b, _ := y.(*ChanObj)
		return c.Bool(a == b)
	case []Value:
		b, isS := y.([]Value)
		if isS && a == nil && b == nil {
			return c.True
		}
		if isS && a == nil || isS && b == nil {
			return c.False
		}
		if _, isSym := y.(*SymSlice); isSym {
			return c.False
		}
		panic(unsup("compare slices"))
	case *SymSlice:
		return c.False // compared with nil; a non-nil slice
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsup("compare interface with %T", y))
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !w.sameType(a.T, b.T) {
			return c.False
		}
		if !types.Comparable(a.T) {
			panic(targetPanic{v: Iface{T: w.P.rtErrType, V: "comparing uncomparable type " + a.T.String()}, where: w.stackString()})
		}
		if _, ok := a.V.(nativeIface); ok {
			return c.Bool(a.V == b.V)
		}
		return w.eq(a.V, b.V, a.T)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := c.True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, w.eq(a[i], b[i], st.Field(i).Type()))
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := c.True
		for i := range a {
			r = c.And(r, w.eq(a[i], b[i], et))
		}
		return r
	case RType:
		b, ok := y.(RType)
		return c.Bool(ok && w.sameType(a.t, b.t))
	case RValue:
		panic(unsup("compare reflect.Value"))
	case nil:
		return c.Bool(y == nil)
	}
	panic(unsup("compare %T", x))
}

func (fr *Frame) convert(from, to types.Type, v Value) Value {
	w := fr.w
	c := w.tc
	if p, ok := v.(Poison); ok {
		return p
	}
	v = fr.force(v)
	ut := to.Underlying()
	uf := from.Underlying()
	if tp, ok := ut.(*types.Pointer); ok {
		_ = tp
		return v // unsafe.Pointer -> *T
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if wd, _, ok := intInfo(to); ok {
		switch x := v.(type) {
		case *Term:
			_, fs, _ := intInfo(from)
			if wd == x.w {
				return x
			}
			if wd < x.w {
				return c.Extract(x, wd-1, 0)
			}
			if fs {
				return c.Sext(x, wd)
			}
			return c.Zext(x, wd)
		case float64:
			_, s, _ := intInfo(to)
			if s {
				return c.BV(uint64(int64(x)), wd)
			}
			return c.BV(uint64(x), wd)
		case SymF:
			t := x.t
			if x.den != 1 {
				t = c.Bin(OSDiv, t, c.BV(uint64(x.den), 64))
			}
			if wd < 64 {
				t = c.Extract(t, wd-1, 0)
			}
			return t
		case *Value:
			panic(unsup("pointer to integer"))
		}
	}
	if b, ok := ut.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if b.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case SymF:
				return x
			case *Term:
				_, fs, _ := intInfo(from)
				if !x.isConst() {
					return fr.intToFloat(x, fs)
				}
				var f float64
				if fs {
					f = float64(sext64(x.v, x.w))
				} else {
					f = float64(x.v)
				}
				if b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			}
		case b.Info()&types.IsComplex != 0:
			return v
		case b.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string, *SStr:
				return x
			case *Term:
				if !x.isConst() {
					panic(unsup("symbolic rune to string"))
				}
				return string(rune(sext64(x.v, x.w)))
			case []Value, *SymSlice:
				if isByteSlice(from) {
					return w.bytesToStr(x)
				}
				// runes
				var rs []rune
				for _, e := range v.([]Value) {
					t := e.(*Term)
					if !t.isConst() {
						panic(unsup("symbolic runes to string"))
					}
					rs = append(rs, rune(sext64(t.v, t.w)))
				}
				return string(rs)
			}
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		switch x := v.(type) {
		case string, *SStr:
			if isByteSlice(to) {
				return w.strToBytes(x)
			}
			if eb, ok := st.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				s, ok := x.(string)
				if !ok {
					panic(unsup("symbolic string to runes"))
				}
				var r []Value
				for _, ru := range s {
					r = append(r, c.BV(uint64(ru), 32))
				}
				return r
			}
		case []Value, *SymSlice:
			return x
		}
	}
	if types.Identical(ut, uf) {
		return v
	}
	panic(unsup("convert %v to %v", from, to))
}

func (fr *Frame) makeSlice(x *ssa.MakeSlice) Value {
	w := fr.w
	et := x.Type().Underlying().(*types.Slice).Elem()
	lt := fr.get(x.Len).(*Term)
	ct := fr.get(x.Cap).(*Term)
	n := w.concInt(lt)
	cp := n
	if x.Cap != x.Len {
		cp = w.concInt(ct)
	}
	if n < 0 || n > 1<<22 {
		fr.rtPanic("makeslice: len out of range")
	}
	if cp < n || cp > 1<<22 {
		fr.rtPanic("makeslice: cap out of range")
	}
	return w.newSlice(et, int(n), int(cp))
}

func (w *Worker) newSlice(et types.Type, n, cp int) []Value {
	s := make([]Value, cp)
	if cp > 0 {
		z := w.zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = w.zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

// concSlice decides the length of a symbolic slice.
func (w *Worker) concSlice(s *SymSlice) []Value {
	if !s.set {
		n := int(w.concInt(s.s.n))
		r := make([]Value, n)
		for _, k := range s.s.lf {
			if k.s.n.v == uint64(n) {
				for i := range r {
					r[i] = k.s.b[i]
				}
				s.conc, s.set = r, true
				return r
			}
		}
		for i := range r {
			r[i] = s.s.at(w.tc, i)
		}
		s.conc, s.set = r, true
	}
	return s.conc
}

func (fr *Frame) indexBounds(idx *Term, n int, idxT types.Type) *Term {
	w := fr.w
	c := w.tc
	_, signed, _ := intInfo(idxT)
	if idx.w < 64 {
		if signed {
			idx = c.Sext(idx, 64)
		} else {
			idx = c.Zext(idx, 64)
		}
	}
	ok := c.Ult(idx, c.BV(uint64(n), 64))
	if !w.decide(ok) {
		fr.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return idx
}

func (fr *Frame) elemPtr(arr []Value, idx *Term) Value {
	if idx.isConst() {
		return &arr[idx.v]
	}
	if len(arr) == 1 {
		return &arr[0]
	}
	return &ElemPtr{arr, idx}
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr) Value {
	w := fr.w
	v := fr.force(fr.get(x.X))
	iv := fr.get(x.Index)
	if p, ok := iv.(Poison); ok {
		return p
	}
	idx := iv.(*Term)
	switch a := v.(type) {
	case []Value:
		idx = fr.indexBounds(idx, len(a), x.Index.Type())
		return fr.elemPtr(a, idx)
	case *SymSlice:
		s := w.concSlice(a)
		idx = fr.indexBounds(idx, len(s), x.Index.Type())
		return fr.elemPtr(s, idx)
	case *Value:
		if a == nil {
			fr.nilDeref()
		}
		arr, ok := (*a).(Array)
		if !ok {
			panic(unsup("index of %T", *a))
		}
		idx = fr.indexBounds(idx, len(arr), x.Index.Type())
		return fr.elemPtr([]Value(arr), idx)
	case Poison:
		return a
	}
	panic(unsup("index address of %T", v))
}

func (fr *Frame) index(x *ssa.Index) Value {
	w := fr.w
	v := fr.force(fr.get(x.X))
	idx := fr.get(x.Index).(*Term)
	switch a := v.(type) {
	case Array:
		idx = fr.indexBounds(idx, len(a), x.Index.Type())
		return fr.loadFrom(fr.elemPtr([]Value(a), idx))
	case string:
		idx = fr.indexBounds(idx, len(a), x.Index.Type())
		if idx.isConst() {
			return w.tc.BV(uint64(a[idx.v]), 8)
		}
		return w.strIndex(a, idx)
	case *SStr:
		idx = fr.boundsSym(idx, a.n, x.Index.Type())
		return w.strIndex(a, idx)
	}
	panic(unsup("index of %T", v))
}

func (fr *Frame) boundsSym(idx, n *Term, t types.Type) *Term {
	c := fr.w.tc
	if idx.w < 64 {
		_, signed, _ := intInfo(t)
		if signed {
			idx = c.Sext(idx, 64)
		} else {
			idx = c.Zext(idx, 64)
		}
	}
	if !fr.w.decide(c.Ult(idx, n)) {
		fr.rtPanic("index out of range")
	}
	return idx
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	w := fr.w
	v := fr.force(fr.get(x.X))
	switch m := v.(type) {
	case string, *SStr:
		idx := fr.boundsSym(fr.get(x.Index).(*Term), w.strLen(m), x.Index.Type())
		return w.strIndex(m, idx)
	case *MapObj:
		mt := x.X.Type().Underlying().(*types.Map)
		k := fr.get(x.Index)
		if ch, ok := k.(*Choice); ok {
			k = w.pick(ch)
		}
		i := w.mapFind(m, k, mt.Key())
		var r Value
		if i >= 0 {
			r = copyVal(*m.vals[i])
		} else {
			r = w.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{r, w.tc.Bool(i >= 0)}
		}
		return r
	case Poison:
		return m
	}
	panic(unsup("lookup in %T", v))
}

func (fr *Frame) next(x *ssa.Next) Value {
	w := fr.w
	c := w.tc
	switch it := fr.get(x.Iter).(type) {
	case *mapIter:
		if it.m != nil {
			for it.pos < len(it.m.keys) {
				i := it.pos
				it.pos++
				if it.m.dead[i] {
					continue
				}
				return Tuple{c.True, copyVal(it.m.keys[i]), copyVal(*it.m.vals[i])}
			}
		}
		tt := x.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if t == nil || t == types.Typ[types.Invalid] {
				return nil
			}
			return w.zero(t)
		}
		return Tuple{c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	case *strIter:
		n := w.strLen(it.s)
		i := it.i
		if !w.decide(c.Slt(c.BV(uint64(i), 64), n)) {
			return Tuple{c.False, c.BV(0, 64), c.BV(0, 32)}
		}
		b := w.strIndex(it.s, c.BV(uint64(i), 64)).(*Term)
		if w.decide(c.Ult(b, c.BV(0x80, 8))) {
			it.i++
			return Tuple{c.True, c.BV(uint64(i), 64), c.Zext(b, 32)}
		}
		f := w.P.fn("unicode/utf8", "DecodeRuneInString")
		r := w.callFn(fr, f, []Value{w.strSub(it.s, i, n)}, nil).(Tuple)
		it.i += int(w.concInt(r[1].(*Term)))
		return Tuple{c.True, c.BV(uint64(i), 64), r[0]}
	}
	panic(unsup("next on %T", fr.get(x.Iter)))
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{w.canon(t), w.canon(it)}
	if r, ok := w.asserts[k]; ok {
		return r
	}
	canonMu.Lock()
	m, _ := types.MissingMethod(t, it, true)
	canonMu.Unlock()
	r := m == nil
	w.asserts[k] = r
	return r
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	w := fr.w
	v := fr.force(fr.get(x.X))
	if p, ok := v.(Poison); ok {
		return p
	}
	i, ok := v.(Iface)
	if !ok {
		panic(unsup("type assertion on %T", v))
	}
	if ch, isC := i.V.(*Choice); isC {
		_ = ch
	}
	good := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		good = i.T != nil && w.implements(i.T, it)
		r = i
	} else {
		good = i.T != nil && w.sameType(i.T, x.AssertedType)
		r = i.V
	}
	if !good {
		if !x.CommaOk {
			fr.rtPanic(fmt.Sprintf("interface conversion: %v is not %v", i.T, x.AssertedType))
		}
		r = w.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{copyVal(r), w.tc.Bool(good)}
	}
	return copyVal(r)
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	w := fr.w
	c := w.tc
	v := fr.force(fr.get(x.X))
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		t := fr.get(s).(*Term)
		if t.w < 64 {
			_, sg, _ := intInfo(s.Type())
			if sg {
				t = c.Sext(t, 64)
			} else {
				t = c.Zext(t, 64)
			}
		}
		return t
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	switch a := v.(type) {
	case string, *SStr:
		n := w.strLen(a)
		if lo == nil {
			lo = c.BV(0, 64)
		}
		if hi == nil {
			hi = n
		}
		if !w.decide(c.And(c.Ule(lo, hi), c.Ule(hi, n))) {
			fr.rtPanic("slice bounds out of range")
		}
		return w.strSub(a, int(w.concInt(lo)), hi)
	case *SymSlice:
		if a.set {
			return fr.sliceOf(a.conc, lo, hi, mx)
		}
		n := a.s.n
		if lo == nil {
			lo = c.BV(0, 64)
		}
		if hi == nil {
			hi = n
		}
		if mx == nil && w.decide(c.And(c.Ule(lo, hi), c.Ule(hi, n))) {
			if lo.isConst() && lo.v == 0 && hi == n {
				return a
			}
			return w.strToBytes(w.strSub(a.s, int(w.concInt(lo)), hi))
		}
		return fr.sliceOf(w.concSlice(a), lo, hi, mx)
	case []Value:
		return fr.sliceOf(a, lo, hi, mx)
	case *Value:
		if a == nil {
			fr.nilDeref()
		}
		return fr.sliceOf([]Value((*a).(Array)), lo, hi, mx)
	case Poison:
		return a
	}
	panic(unsup("slice of %T", v))
}

func (fr *Frame) sliceOf(a []Value, lo, hi, mx *Term) Value {
	w := fr.w
	c := w.tc
	if lo == nil {
		lo = c.BV(0, 64)
	}
	if hi == nil {
		hi = c.BV(uint64(len(a)), 64)
	}
	m := c.BV(uint64(cap(a)), 64)
	if mx == nil {
		mx = m
	}
	if !w.decide(c.And(c.And(c.Ule(lo, hi), c.Ule(hi, mx)), c.Ule(mx, m))) {
		fr.rtPanic("slice bounds out of range")
	}
	l, h, x := w.concInt(lo), w.concInt(hi), w.concInt(mx)
	return a[l:h:x]
}

// ---- growth of slices, as the Go runtime does ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	if d := oldCap + oldCap; newLen > d {
		nc = newLen
	} else if oldCap < 256 {
		nc = d
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	b := nc * esz
	if b <= 32768 {
		for _, s := range sizeClasses {
			if s >= b {
				b = s
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / esz
}

var sizes = types.SizesFor("gc", "amd64")

func (w *Worker) appendSlice(s []Value, add []Value, et types.Type) []Value {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			w.setCell(&r[len(s)+i], copyVal(v))
		}
		return r
	}
	nc := growCap(cap(s), n, int(sizes.Sizeof(et)))
	r := w.newSlice(et, nc, nc)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	return r[:n]
}

func (fr *Frame) builtin(bb *boundBuiltin, args []Value) Value {
	w := fr.w
	c := w.tc
	for i := range args {
		if bb.b.Name() != "print" {
			args[i] = fr.force(args[i])
		}
		if p, ok := args[i].(Poison); ok {
			panic(unsup("builtin %s on poisoned value: %s", bb.b.Name(), p.why))
		}
	}
	switch bb.b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		et := bb.call.Args[0].Type().Underlying().(*types.Slice).Elem()
		_, s1 := args[0].(*SymSlice)
		symSecond := false
		switch y := args[1].(type) {
		case *SymSlice:
			symSecond = !y.set
		case *SStr:
			symSecond = !y.n.isConst()
		}
		if s1 && args[0].(*SymSlice).set {
			s1 = false
			args[0] = args[0].(*SymSlice).conc
		}
		if s1 || symSecond {
			var a, b Value
			a = w.bytesToStr(args[0])
			switch y := args[1].(type) {
			case string, *SStr:
				b = y
			default:
				b = w.bytesToStr(y)
			}
			if x, ok := args[0].([]Value); ok && len(x) < cap(x) {
				// in-place append into spare capacity is not modelled for symbolic lengths:
				// decide the length instead
				var add []Value
				switch y := args[1].(type) {
				case *SymSlice:
					add = w.concSlice(y)
				default:
					add = w.concSlice(w.strToBytes(y).(*SymSlice))
				}
				return w.appendSlice(x, add, et)
			}
			return w.strToBytes(w.strConcat(a, b))
		}
		var add []Value
		switch y := args[1].(type) {
		case string, *SStr:
			add = w.strToBytes(y).([]Value)
		case *SymSlice:
			add = y.conc
		case []Value:
			add = y
		default:
			panic(unsup("append of %T", y))
		}
		return w.appendSlice(args[0].([]Value), add, et)
	case "copy":
		var src []Value
		switch y := args[1].(type) {
		case string:
			src = w.strToBytes(y).([]Value)
		case *SStr:
			switch z := w.strToBytes(y).(type) {
			case []Value:
				src = z
			case *SymSlice:
				src = w.concSlice(z)
			}
		case *SymSlice:
			src = w.concSlice(y)
		case []Value:
			src = y
		}
		var dst []Value
		switch x := args[0].(type) {
		case []Value:
			dst = x
		case *SymSlice:
			dst = w.concSlice(x)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			w.store(&dst[i], tmp[i])
		}
		return c.BV(uint64(n), 64)
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return w.strLen(x)
		case []Value:
			return c.BV(uint64(len(x)), 64)
		case *SymSlice:
			if x.set {
				return c.BV(uint64(len(x.conc)), 64)
			}
			return x.s.n
		case *MapObj:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(x.live), 64)
		case *ChanObj:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(len(x.buf)), 64)
		case Array:
			return c.BV(uint64(len(x)), 64)
		case *Value:
			return c.BV(uint64(len((*x).(Array))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return c.BV(uint64(cap(x)), 64)
		case *SymSlice:
			if x.set {
				return c.BV(uint64(cap(x.conc)), 64)
			}
			return x.s.n
		case *ChanObj:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(x.cap), 64)
		case *Value:
			return c.BV(uint64(len((*x).(Array))), 64)
		}
	case "delete":
		if m := args[0].(*MapObj); m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for i := range x.keys {
					if !x.dead[i] {
						w.mapDelete(x, x.keys[i])
					}
				}
			}
		case []Value:
			et := bb.call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], w.zero(et))
			}
		}
		return nil
	case "close":
		w.chanClose(fr, args[0])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], where: w.stackOf(fr)})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if bb.b.Name() == "max" {
				op = token.GTR
			}
			k := fr.binop(op, bb.call.Args[0].Type(), a, r, bb.call.Args[0].Type()).(*Term)
			r = w.ite(k, a, r)
		}
		return r
	case "String": // unsafe.String
		p := args[0]
		n := int(w.concInt(args[1].(*Term)))
		if n == 0 {
			return ""
		}
		if us, ok := p.(*unsafeData); ok {
			switch y := us.v.(type) {
			case string, *SStr:
				return w.strSub(y, 0, c.BV(uint64(n), 64))
			case []Value:
				return w.bytesToStr(y[:n])
			}
		}
	case "SliceData":
		return &unsafeData{args[0]}
	case "StringData":
		return &unsafeData{args[0]}
	case "Slice":
		n := int(w.concInt(args[1].(*Term)))
		if us, ok := args[0].(*unsafeData); ok {
			switch y := us.v.(type) {
			case string, *SStr:
				switch z := w.strToBytes(w.strSub(y, 0, c.BV(uint64(n), 64))).(type) {
				case []Value:
					return z
				}
			case []Value:
				return y[:n]
			}
		}
	}
	panic(unsup("builtin %s on %T", bb.b.Name(), args[0]))
}

type unsafeData struct{ v Value }

func (fr *Frame) doRecover() Value {
	// recover() is called by a deferred function: the panicking frame is its caller
	if fr.caller != nil && fr.caller.panicking && fr.caller.runningDefers {
		fr.caller.panicking = false
		v := fr.caller.panic.v
		return v
	}
	return Iface{}
}

func (w *Worker) showPanic(p targetPanic) string {
	return w.showVal(p.v)
}

func (w *Worker) showVal(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.T, w.showVal(x.V))
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		return x.String()
	case *SStr:
		if w.modelOK {
			return "~" + w.ndValue(nondet{kind: "str", s: x}, w.model)
		}
		return "symstr"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + w.showVal(*x)
	case Struct:
		var p []string
		for _, e := range x {
			if _, isp := e.(*Value); isp {
				p = append(p, "ptr")
			} else {
				p = append(p, w.showVal(e))
			}
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

// ---- globals ----

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	w.initPkg(g.Pkg)
	if p, ok := w.globals[g]; ok {
		return p
	}
	return w.newGlobal(g)
}

func (w *Worker) newGlobal(g *ssa.Global) *Value {
	p := new(Value)
	*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

func (w *Worker) initPkg(pkg *ssa.Package) {
	if w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				w.newGlobal(g)
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	w.P.buildPkg(pkg)
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	w.initDepth++
	steps, depth, cur := w.steps, w.depth, w.curFrame
	w.steps = 0
	oldMax := w.maxSteps
	w.maxSteps = 50_000_000
	defer func() {
		w.initDepth--
		w.steps, w.depth, w.curFrame, w.maxSteps = steps, depth, cur, oldMax
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				if w.e.Debug {
					fmt.Fprintln(os.Stderr, "init", pkg.Pkg.Path(), "stopped:", x.msg)
				}
			case targetPanic:
				if w.e.Debug {
					fmt.Fprintln(os.Stderr, "init", pkg.Pkg.Path(), "panicked:", w.showPanic(x), x.where)
				}
			default:
				panic(r)
			}
		}
	}()
	w.callFn(nil, f, nil, nil)
}
