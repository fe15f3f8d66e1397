package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term (integers, booleans), float64, complex128, string, *SStr,
//	Struct, Array, []Value (slice), *SymSlice, *Value (pointer), *ElemPtr,
//	Iface, Tuple, *Closure, *ssa.Builtin, *MapObj, *ChanObj, *Choice, Native, Poison
type Value any

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	T types.Type // nil for the nil interface
	V Value
}

// SStr is a string of symbolic length; bytes at or beyond n are zero.
type SStr struct {
	n  *Term
	b  []*Term
	cs []strCase // the same string split by the length of a leading part
	lf []strCase // for a variable: itself split by its length
}

// strCase is the string under one guard.
type strCase struct {
	g *Term
	s *SStr
}

// cases lists s by guard.
func (w *Worker) cases(s *SStr) []strCase {
	if s.cs != nil {
		return s.cs
	}
	return []strCase{{w.tc.True, s}}
}

// SymSlice is a byte slice of symbolic length (immutable until concretised).
type SymSlice struct {
	s    *SStr
	conc []Value // set once the length has been decided
	set  bool
}

// ElemPtr points at arr[idx] for a symbolic in-range index.
type ElemPtr struct {
	arr []Value
	idx *Term
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(fr *Frame, args []Value) Value // native closure
}

type Alt struct {
	cond *Term
	v    Value
}

// Choice is a value known only up to mutually exclusive, exhaustive conditions.
type Choice struct{ alts []Alt }

// Native wraps interpreter-level objects (reflect.Value, reflect.Type, ...).
type RValue struct {
	t    types.Type
	v    Value
	addr *Value
	ok   bool
}
type RType struct{ t types.Type }

type Poison struct{ why string }

type MapObj struct {
	keys  []Value
	vals  []*Value
	idx   map[any]int // concrete key -> position
	nsym  int         // number of symbolic keys
	live  int
	dead  []bool
	keyT  types.Type
	elemT types.Type
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	elemT  types.Type
	// rendezvous
	recvWaiting int
	sendQ       []*sendReq
	id          int
}

type sendReq struct {
	v    Value
	done bool
}

type mapIter struct {
	m   *MapObj
	pos int
}
type strIter struct {
	s   Value
	pos *Term
	i   int
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return w.tc.False
		}
		if wd, _, ok := intInfo(u); ok {
			return w.tc.BV(0, wd)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if isNamed(t, "reflect", "Value") {
			return RValue{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := w.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = w.zero(u.At(i).Type())
		}
		return tt
	}
	panic(unsup("zero of %v", t))
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// ---- strings ----

func (w *Worker) sstr(v Value) *SStr {
	switch x := v.(type) {
	case string:
		if len(x) > 1<<16 {
			panic(unsup("long concrete string used symbolically"))
		}
		b := make([]*Term, len(x))
		for i := range b {
			b[i] = w.tc.BV(uint64(x[i]), 8)
		}
		return &SStr{n: w.tc.BV(uint64(len(x)), 64), b: b}
	case *SStr:
		return x
	}
	panic(unsup("not a string: %T", v))
}

// simp turns a fully constant SStr into a native string.
func (w *Worker) simpStr(s *SStr) Value {
	if !s.n.isConst() {
		return s
	}
	n := int(s.n.v)
	for _, b := range s.b[:n] {
		if !b.isConst() {
			if n < len(s.b) {
				return &SStr{n: s.n, b: s.b[:n]}
			}
			return s
		}
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(s.b[i].v)
	}
	return string(r)
}

func (w *Worker) strLen(v Value) *Term {
	switch x := v.(type) {
	case string:
		return w.tc.BV(uint64(len(x)), 64)
	case *SStr:
		return x.n
	}
	panic(unsup("strLen %T", v))
}

func (s *SStr) at(c *TCtx, i int) *Term {
	if i < 0 || i >= len(s.b) {
		return c.BV(0, 8)
	}
	return s.b[i]
}

func (w *Worker) strConcat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	c := w.tc
	a, b := w.sstr(x), w.sstr(y)
	if a.n.isConst() {
		n := int(a.n.v)
		r := append(append([]*Term{}, a.b[:n]...), b.b...)
		return w.simpStr(&SStr{n: c.Bin(OAdd, b.n, a.n), b: r})
	}
	lo, hi := int(a.n.lo), len(a.b)
	if int(a.n.hi) < hi && a.n.hi < 1<<30 {
		hi = int(a.n.hi)
	}
	r := make([]*Term, hi+len(b.b))
	for i := range r {
		t := a.at(c, i)
		for k := hi; k >= lo; k-- {
			if i-k >= 0 && i-k < len(b.b) {
				t = c.Ite(c.Eq(a.n, c.BV(uint64(k), 64)), b.b[i-k], t)
			}
		}
		// positions at or past the end must be zero: a is zero padded and so is b.
		r[i] = t
	}
	res := &SStr{n: c.Bin(OAdd, a.n, b.n), b: r}
	ac := w.cases(a)
	if a.lf != nil {
		ac = a.lf
	}
	if len(ac)*(hi-lo+1) <= 12 {
		for _, x := range ac {
			for k := lo; k <= hi; k++ {
				g := c.And(x.g, c.Eq(x.s.n, c.BV(uint64(k), 64)))
				if g == c.False {
					continue
				}
				m := k
				if len(x.s.b) < m {
					continue
				}
				var bb []*Term
				for i := 0; i < m; i++ {
					bb = append(bb, x.s.b[i])
				}
				res.cs = append(res.cs, strCase{g, &SStr{n: c.Bin(OAdd, b.n, c.BV(uint64(k), 64)), b: append(bb, b.b...)}})
			}
		}
	}
	return w.simpStr(res)
}

// segs cuts positions [0,n) into runs of at most 8 bytes, starting a new run
// where either side starts an 8 byte encoding of one 64-bit term.
func (w *Worker) segs(a, b *SStr, n int) []int {
	top := func(s *SStr, i int) bool {
		if i >= len(s.b) {
			return false
		}
		t := s.b[i]
		if t.op == OXor && t.b.isConst() {
			t = t.a
		}
		return t.op == OExtract && t.a.w == 64 && t.v == 63<<8|56
	}
	var out []int
	last := 0
	for i := 0; i < n; i++ {
		if i == 0 || i-last == 8 || top(a, i) || top(b, i) {
			out = append(out, i)
			last = i
		}
	}
	return append(out, n)
}

func (w *Worker) seg(s *SStr, i, j int) *Term {
	t := s.at(w.tc, i)
	for i++; i < j; i++ {
		t = w.tc.Concat(t, s.at(w.tc, i))
	}
	return t
}

func (w *Worker) strEq(x, y Value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return w.tc.Bool(a == b)
		}
	}
	c := w.tc
	a, b := w.sstr(x), w.sstr(y)
	if a.cs == nil && b.cs == nil {
		return w.strEq1(a, b)
	}
	r := c.False
	for _, p := range w.cases(a) {
		for _, q := range w.cases(b) {
			if g := c.And(p.g, q.g); g != c.False {
				r = c.Or(r, c.And(g, w.strEq1(p.s, q.s)))
			}
		}
	}
	return r
}

func (w *Worker) strEq1(a, b *SStr) *Term {
	c := w.tc
	r := c.Eq(a.n, b.n)
	if r == c.False {
		return r
	}
	n := len(a.b)
	if len(b.b) < n {
		n = len(b.b)
	}
	if a.n.isConst() && int(a.n.v) < n {
		n = int(a.n.v)
	}
	if b.n.isConst() && int(b.n.v) < n {
		n = int(b.n.v)
	}
	if n <= 3 {
		for i := 0; i < n; i++ {
			r = c.And(r, c.Eq(a.b[i], b.b[i]))
		}
		return r
	}
	// compare zero padded runs; both are zero beyond their length
	ps := w.segs(a, b, n)
	for i := 0; i+1 < len(ps); i++ {
		e := c.Eq(w.seg(a, ps[i], ps[i+1]), w.seg(b, ps[i], ps[i+1]))
		if e == c.False {
			return e
		}
		r = c.And(r, e)
	}
	return r
}

func (w *Worker) strLess(x, y Value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return w.tc.Bool(a < b)
		}
	}
	c := w.tc
	a, b := w.sstr(x), w.sstr(y)
	if a.cs == nil && b.cs == nil {
		return w.strLess1(a, b)
	}
	r := c.False
	for _, p := range w.cases(a) {
		for _, q := range w.cases(b) {
			if g := c.And(p.g, q.g); g != c.False {
				r = c.Or(r, c.And(g, w.strLess1(p.s, q.s)))
			}
		}
	}
	return r
}

func (w *Worker) strLess1(a, b *SStr) *Term {
	c := w.tc
	n := len(a.b)
	if len(b.b) > n {
		n = len(b.b)
	}
	ps := w.segs(a, b, n)
	last := len(ps) - 1
	eqs := make([]*Term, len(ps))
	for i := 0; i < last; i++ {
		eqs[i] = c.Eq(w.seg(a, ps[i], ps[i+1]), w.seg(b, ps[i], ps[i+1]))
		if eqs[i] == c.False {
			last = i + 1
		}
	}
	r := c.Ult(a.n, b.n)
	for i := last - 1; i >= 0; i-- {
		lt := c.Ult(w.seg(a, ps[i], ps[i+1]), w.seg(b, ps[i], ps[i+1]))
		r = c.Or(lt, c.And(eqs[i], r))
	}
	return r
}

// strPrefix reports whether p is a prefix of s.
func (w *Worker) strPrefix(s, p Value) *Term {
	if a, ok := s.(string); ok {
		if b, ok := p.(string); ok {
			return w.tc.Bool(strings.HasPrefix(a, b))
		}
	}
	c := w.tc
	a, b := w.sstr(s), w.sstr(p)
	if a.cs == nil && b.cs == nil {
		return w.strPrefix1(a, b)
	}
	r := c.False
	for _, p := range w.cases(a) {
		for _, q := range w.cases(b) {
			if g := c.And(p.g, q.g); g != c.False {
				r = c.Or(r, c.And(g, w.strPrefix1(p.s, q.s)))
			}
		}
	}
	return r
}

func (w *Worker) strPrefix1(a, b *SStr) *Term {
	c := w.tc
	r := c.Ule(b.n, a.n)
	if r == c.False {
		return r
	}
	if b.n.isConst() {
		ps := w.segs(a, b, int(b.n.v))
		for i := 0; i+1 < len(ps); i++ {
			e := c.Eq(w.seg(a, ps[i], ps[i+1]), w.seg(b, ps[i], ps[i+1]))
			if e == c.False {
				return e
			}
			r = c.And(r, e)
		}
		return r
	}
	for i := 0; i < len(b.b); i++ {
		// byte i is relevant when i < len(p)
		in := c.Ult(c.BV(uint64(i), 64), b.n)
		r = c.And(r, c.Or(c.Not(in), c.Eq(a.at(c, i), b.b[i])))
	}
	return r
}

// strSub returns s[i:j] for a concrete i (j symbolic allowed).
func (w *Worker) strSub(v Value, i int, j *Term) Value {
	if s, ok := v.(string); ok && j.isConst() {
		return s[i:int(j.v)]
	}
	c := w.tc
	s := w.sstr(v)
	n := c.Bin(OSub, j, c.BV(uint64(i), 64))
	var b []*Term
	for k := i; k < len(s.b); k++ {
		if j.isConst() && uint64(k) >= j.v {
			break
		}
		t := s.b[k]
		if j != s.n {
			t = c.Ite(c.Ult(c.BV(uint64(k), 64), j), t, c.BV(0, 8))
		}
		b = append(b, t)
	}
	return w.simpStr(&SStr{n: n, b: b})
}

func (w *Worker) strIndex(v Value, idx *Term) Value {
	c := w.tc
	s := w.sstr(v)
	if idx.isConst() {
		return s.at(c, int(idx.v))
	}
	r := c.BV(0, 8)
	for i := len(s.b) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(idx, c.BV(uint64(i), 64)), s.b[i], r)
	}
	return r
}

// bytesToStr reads a byte slice value as a string value.
func (w *Worker) bytesToStr(v Value) Value {
	switch x := v.(type) {
	case []Value:
		b := make([]*Term, len(x))
		allc := true
		for i, e := range x {
			t, ok := e.(*Term)
			if !ok {
				panic(unsup("byte slice element %T", e))
			}
			b[i] = t
			if !t.isConst() {
				allc = false
			}
		}
		if allc {
			r := make([]byte, len(b))
			for i := range r {
				r[i] = byte(b[i].v)
			}
			return string(r)
		}
		return &SStr{n: w.tc.BV(uint64(len(b)), 64), b: b}
	case *SymSlice:
		if x.set {
			return w.bytesToStr(x.conc)
		}
		return w.simpStr(x.s)
	case Array:
		return w.bytesToStr([]Value(x))
	}
	panic(unsup("bytesToStr %T", v))
}

func (w *Worker) strToBytes(v Value) Value {
	switch x := v.(type) {
	case string:
		r := make([]Value, len(x))
		for i := range r {
			r[i] = w.tc.BV(uint64(x[i]), 8)
		}
		return r
	case *SStr:
		if x.n.isConst() {
			n := int(x.n.v)
			r := make([]Value, n)
			for i := range r {
				r[i] = x.b[i]
			}
			return r
		}
		return &SymSlice{s: x}
	}
	panic(unsup("strToBytes %T", v))
}

// ---- merge ----

func (w *Worker) ite(k *Term, x, y Value) Value {
	if k == w.tc.True {
		return x
	}
	if k == w.tc.False {
		return y
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.w == b.w {
			return w.tc.Ite(k, a, b)
		}
	case string, *SStr:
		switch y.(type) {
		case string, *SStr:
			if xs, ok := x.(string); ok {
				if ys, ok := y.(string); ok && xs == ys {
					return x
				}
			}
			s, t := w.sstr(x), w.sstr(y)
			n := len(s.b)
			if len(t.b) > n {
				n = len(t.b)
			}
			b := make([]*Term, n)
			for i := range b {
				b[i] = w.tc.Ite(k, s.at(w.tc, i), t.at(w.tc, i))
			}
			return w.simpStr(&SStr{n: w.tc.Ite(k, s.n, t.n), b: b})
		}
	case Struct:
		if b, ok := y.(Struct); ok && len(a) == len(b) {
			r := make(Struct, len(a))
			for i := range a {
				r[i] = w.ite(k, a[i], b[i])
			}
			return r
		}
	case Array:
		if b, ok := y.(Array); ok && len(a) == len(b) {
			r := make(Array, len(a))
			for i := range a {
				r[i] = w.ite(k, a[i], b[i])
			}
			return r
		}
	case *Value:
		if b, ok := y.(*Value); ok && a == b {
			return x
		}
	case Iface:
		if b, ok := y.(Iface); ok && a.T == nil && b.T == nil {
			return x
		}
		if b, ok := y.(Iface); ok && a.T != nil && b.T != nil && w.sameType(a.T, b.T) {
			return Iface{a.T, w.ite(k, a.V, b.V)}
		}
	case float64:
		if b, ok := y.(float64); ok && a == b {
			return x
		}
	case *Closure:
		if b, ok := y.(*Closure); ok && a == b {
			return x
		}
	case *MapObj:
		if b, ok := y.(*MapObj); ok && a == b {
			return x
		}
	case []Value:
		if b, ok := y.([]Value); ok && a == nil && b == nil {
			return x
		}
	}
	c := &Choice{}
	add := func(cond *Term, v Value) {
		if ch, ok := v.(*Choice); ok {
			for _, al := range ch.alts {
				if cc := w.tc.And(cond, al.cond); cc != w.tc.False {
					c.alts = append(c.alts, Alt{cc, al.v})
				}
			}
			return
		}
		c.alts = append(c.alts, Alt{cond, v})
	}
	add(k, x)
	add(w.tc.Not(k), y)
	// merge identical pointers
	var out []Alt
outer:
	for _, a := range c.alts {
		for i := range out {
			if samePtr(a.v, out[i].v) {
				out[i].cond = w.tc.Or(out[i].cond, a.cond)
				continue outer
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0].v
	}
	c.alts = out
	return c
}

func samePtr(a, b Value) bool {
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *ChanObj:
		y, ok := b.(*ChanObj)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return x.T == y.T && samePtr(x.V, y.V)
	}
	return false
}

// ---- maps ----

func newMap(k, e types.Type) *MapObj {
	return &MapObj{idx: map[any]int{}, keyT: k, elemT: e}
}

// ckey returns a comparable Go key for a concrete value.
func (w *Worker) ckey(v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return [2]uint64{uint64(x.w), x.v}, true
		}
	case string:
		return x, true
	case float64:
		return x, true
	case *Value:
		return x, true
	case *ChanObj:
		return x, true
	case RType:
		return w.canon(x.t), true
	case Iface:
		if x.T == nil {
			return "nil-iface\x00", true
		}
		k, ok := w.ckey(x.V)
		if ok {
			return [2]any{w.canon(x.T), k}, true
		}
	case Struct:
		return w.ckeys([]Value(x))
	case Array:
		return w.ckeys([]Value(x))
	}
	return nil, false
}

func (w *Worker) ckeys(xs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range xs {
		k, ok := w.ckey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return "struct\x00" + sb.String(), true
}

func (w *Worker) mapFind(m *MapObj, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	ck, ok := w.ckey(k)
	if ok {
		if i, found := m.idx[ck]; found {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if ok {
			if _, conc := w.ckey(m.keys[i]); conc {
				continue
			}
		}
		if w.decide(w.eq(m.keys[i], k, m.keyT)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapObj, k, v Value) {
	if i := w.mapFind(m, k, m.keyT); i >= 0 {
		w.store(m.vals[i], v)
		return
	}
	cell := new(Value)
	*cell = v
	n := len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, cell)
	m.dead = append(m.dead, false)
	m.live++
	ck, ok := w.ckey(k)
	if ok {
		m.idx[ck] = n
	} else {
		m.nsym++
	}
	w.logUndo(func() {
		m.keys, m.vals, m.dead = m.keys[:n], m.vals[:n], m.dead[:n]
		m.live--
		if ok {
			delete(m.idx, ck)
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	i := w.mapFind(m, k, m.keyT)
	if i < 0 {
		return
	}
	m.dead[i] = true
	m.live--
	ck, ok := w.ckey(m.keys[i])
	if ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	w.logUndo(func() {
		m.dead[i] = false
		m.live++
		if ok {
			m.idx[ck] = i
		} else {
			m.nsym++
		}
	})
}
