package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A small subset of reflect, enough for the field indexers and simple encoders.

func (RType) dummy() {}

func (t RType) invoke(fr *Frame, m string, args []Value) Value {
	w := fr.w
	switch m {
	case "Kind":
		return w.tc.BV(uint64(kindOf(t.t)), 64)
	case "Elem":
		switch u := t.t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		}
	case "String", "Name":
		return types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
	case "Comparable":
		return w.tc.Bool(types.Comparable(t.t))
	case "NumField":
		return w.tc.BV(uint64(t.t.Underlying().(*types.Struct).NumFields()), 64)
	case "PkgPath":
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Key":
		return w.rtype(t.t.Underlying().(*types.Map).Key())
	case "Field":
		st := t.t.Underlying().(*types.Struct)
		i := int(cint(args[0]))
		f := st.Field(i)
		sft := w.P.pkgs["reflect"].Type("StructField").Type()
		s := w.zero(sft).(Struct)
		us := sft.Underlying().(*types.Struct)
		for k := 0; k < us.NumFields(); k++ {
			switch us.Field(k).Name() {
			case "Name":
				s[k] = f.Name()
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					s[k] = f.Pkg().Path()
				}
			case "Type":
				s[k] = w.rtype(f.Type())
			case "Tag":
				s[k] = st.Tag(i)
			case "Index":
				s[k] = []Value{w.tc.BV(uint64(i), 64)}
			case "Anonymous":
				s[k] = w.tc.Bool(f.Embedded())
			}
		}
		return s
	case "Implements":
		it, ok := fr.w.iface(args[0]).V.(RType)
		if ok {
			return w.tc.Bool(w.implements(t.t, it.t.Underlying().(*types.Interface)))
		}
	case "NumMethod":
		return w.tc.BV(0, 64)
	}
	panic(unsup("reflect.Type.%s", m))
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (w *Worker) rtype(t types.Type) Value {
	rp := w.P.pkgs["reflect"]
	if rp == nil {
		panic(unsup("reflect not loaded"))
	}
	return Iface{T: types.NewPointer(rp.Type("rtype").Type()), V: RType{w.canon(t)}}
}

func (w *Worker) rval(v RValue) Value {
	if v.addr != nil {
		return *v.addr
	}
	return v.v
}

func reflectIntrinsics(I map[string]Intrinsic) {
	type vf func(fr *Frame, v RValue, a []Value) Value
	meth := func(name string, f vf) {
		I["(reflect.Value)."+name] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			v, ok := fr.force(a[0]).(RValue)
			if !ok {
				panic(unsup("reflect.Value is %T", a[0]))
			}
			return f(fr, v, a[1:]), true
		}
	}
	I["reflect.ValueOf"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := fr.w.iface(a[0])
		if i.T == nil {
			return RValue{}, true
		}
		return RValue{t: i.T, v: fr.force(i.V), ok: true}, true
	}
	I["reflect.TypeOf"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := fr.w.iface(a[0])
		if i.T == nil {
			return Iface{}, true
		}
		return fr.w.rtype(i.T), true
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	elem := func(fr *Frame, v RValue) RValue {
		switch u := v.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := fr.force(fr.w.rval(v)).(*Value)
			if !ok {
				panic(unsup("reflect Elem of %T", fr.w.rval(v)))
			}
			if p == nil {
				return RValue{}
			}
			return RValue{t: u.Elem(), addr: p, ok: true}
		case *types.Interface:
			i := fr.w.iface(fr.w.rval(v))
			if i.T == nil {
				return RValue{}
			}
			return RValue{t: i.T, v: i.V, ok: true}
		}
		fr.plainPanic("reflect: call of reflect.Value.Elem on " + v.t.String() + " Value")
		return RValue{}
	}
	I["reflect.Indirect"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		v := a[0].(RValue)
		if !v.ok {
			return v, true
		}
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			return elem(fr, v), true
		}
		return v, true
	}
	meth("Elem", func(fr *Frame, v RValue, a []Value) Value { return elem(fr, v) })
	meth("IsValid", func(fr *Frame, v RValue, a []Value) Value { return fr.w.tc.Bool(v.ok) })
	meth("Kind", func(fr *Frame, v RValue, a []Value) Value {
		if !v.ok {
			return fr.w.tc.BV(0, 64)
		}
		return fr.w.tc.BV(uint64(kindOf(v.t)), 64)
	})
	meth("Type", func(fr *Frame, v RValue, a []Value) Value { return fr.w.rtype(v.t) })
	field := func(fr *Frame, v RValue, i int) RValue {
		st := v.t.Underlying().(*types.Struct)
		if v.addr != nil {
			s := (*v.addr).(Struct)
			return RValue{t: st.Field(i).Type(), addr: &s[i], ok: true}
		}
		return RValue{t: st.Field(i).Type(), v: v.v.(Struct)[i], ok: true}
	}
	meth("FieldByName", func(fr *Frame, v RValue, a []Value) Value {
		if !v.ok {
			fr.plainPanic("reflect: FieldByName on zero Value")
		}
		st, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			fr.plainPanic("reflect: FieldByName on non-struct")
		}
		n := fr.cstr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(fr, v, i)
			}
		}
		return RValue{}
	})
	meth("Field", func(fr *Frame, v RValue, a []Value) Value { return field(fr, v, int(cint(a[0]))) })
	meth("NumField", func(fr *Frame, v RValue, a []Value) Value {
		return fr.w.tc.BV(uint64(v.t.Underlying().(*types.Struct).NumFields()), 64)
	})
	meth("IsNil", func(fr *Frame, v RValue, a []Value) Value {
		switch x := fr.force(fr.w.rval(v)).(type) {
		case *Value:
			return fr.w.tc.Bool(x == nil)
		case Iface:
			return fr.w.tc.Bool(x.T == nil)
		case []Value:
			return fr.w.tc.Bool(x == nil)
		case *SymSlice:
			return fr.w.tc.False
		case *MapObj:
			return fr.w.tc.Bool(x == nil)
		case *Closure:
			return fr.w.tc.Bool(x == nil)
		case *ChanObj:
			return fr.w.tc.Bool(x == nil)
		}
		fr.plainPanic("reflect: call of reflect.Value.IsNil on non-nillable")
		return nil
	})
	meth("String", func(fr *Frame, v RValue, a []Value) Value {
		if !v.ok {
			return "<invalid Value>"
		}
		switch x := fr.force(fr.w.rval(v)).(type) {
		case string, *SStr:
			return x
		}
		return "<" + v.t.String() + " Value>"
	})
	meth("Int", func(fr *Frame, v RValue, a []Value) Value {
		t, ok := fr.force(fr.w.rval(v)).(*Term)
		if !ok {
			fr.plainPanic("reflect: call of reflect.Value.Int")
		}
		return fr.w.tc.Sext(t, 64)
	})
	meth("Uint", func(fr *Frame, v RValue, a []Value) Value {
		return fr.w.tc.Zext(fr.force(fr.w.rval(v)).(*Term), 64)
	})
	meth("Bool", func(fr *Frame, v RValue, a []Value) Value { return fr.force(fr.w.rval(v)) })
	meth("Interface", func(fr *Frame, v RValue, a []Value) Value {
		if _, ok := v.t.Underlying().(*types.Interface); ok {
			return fr.w.rval(v)
		}
		return Iface{T: v.t, V: copyVal(fr.w.rval(v))}
	})
	meth("CanInterface", func(fr *Frame, v RValue, a []Value) Value { return fr.w.tc.True })
	meth("Len", func(fr *Frame, v RValue, a []Value) Value {
		switch x := fr.force(fr.w.rval(v)).(type) {
		case []Value:
			return fr.w.tc.BV(uint64(len(x)), 64)
		case string, *SStr:
			return fr.w.strLen(x)
		case *SymSlice:
			return x.s.n
		case *MapObj:
			if x == nil {
				return fr.w.tc.BV(0, 64)
			}
			return fr.w.tc.BV(uint64(x.live), 64)
		case Array:
			return fr.w.tc.BV(uint64(len(x)), 64)
		}
		panic(unsup("reflect Len"))
	})
	meth("Index", func(fr *Frame, v RValue, a []Value) Value {
		i := int(fr.w.concInt(a[0].(*Term)))
		switch x := fr.force(fr.w.rval(v)).(type) {
		case []Value:
			return RValue{t: v.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ok: true}
		}
		panic(unsup("reflect Index"))
	})
	meth("IsZero", func(fr *Frame, v RValue, a []Value) Value {
		x := fr.w.rval(v)
		return fr.w.eq(x, fr.w.zero(v.t), v.t)
	})
	meth("CanSet", func(fr *Frame, v RValue, a []Value) Value { return fr.w.tc.Bool(v.addr != nil) })
	meth("CanAddr", func(fr *Frame, v RValue, a []Value) Value { return fr.w.tc.Bool(v.addr != nil) })
	meth("Set", func(fr *Frame, v RValue, a []Value) Value {
		x := a[0].(RValue)
		val := copyVal(fr.w.rval(x))
		if types.IsInterface(v.t) && !types.IsInterface(x.t) {
			val = Iface{T: x.t, V: val}
		}
		fr.w.store(v.addr, val)
		return nil
	})
	set := func(name string) {
		meth(name, func(fr *Frame, v RValue, a []Value) Value {
			x := a[0]
			if t, ok := x.(*Term); ok {
				if wd, _, ok := intInfo(v.t); ok && wd < t.w {
					x = fr.w.tc.Extract(t, wd-1, 0)
				}
			}
			fr.w.store(v.addr, x)
			return nil
		})
	}
	set("SetInt")
	set("SetUint")
	set("SetString")
	set("SetBool")
	set("SetFloat")
	meth("Float", func(fr *Frame, v RValue, a []Value) Value { return fr.force(fr.w.rval(v)) })
	meth("OverflowInt", func(fr *Frame, v RValue, a []Value) Value {
		wd, _, _ := intInfo(v.t)
		c := fr.w.tc
		if wd == 64 {
			return c.False
		}
		x := a[0].(*Term)
		return c.Not(c.Eq(c.Sext(c.Extract(x, wd-1, 0), 64), x))
	})
	meth("Addr", func(fr *Frame, v RValue, a []Value) Value {
		if v.addr == nil {
			fr.plainPanic("reflect.Value.Addr of unaddressable value")
		}
		return RValue{t: types.NewPointer(v.t), v: v.addr, ok: true}
	})
	meth("Pointer", func(fr *Frame, v RValue, a []Value) Value { return fr.w.tc.BV(1, 64) })
	I["reflect.MakeSlice"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := fr.w.iface(a[0]).V.(RType)
		return RValue{t: t.t, v: fr.w.newSlice(t.t.Underlying().(*types.Slice).Elem(), int(cint(a[1])), int(cint(a[2]))), ok: true}, true
	}
	I["reflect.Zero"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := fr.w.iface(a[0]).V.(RType)
		return RValue{t: t.t, v: fr.w.zero(t.t), ok: true}, true
	}
	I["reflect.New"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := fr.w.iface(a[0]).V.(RType)
		p := new(Value)
		*p = fr.w.zero(t.t)
		return RValue{t: types.NewPointer(t.t), v: p, ok: true}, true
	}
	I["reflect.DeepEqual"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.deepEq(a[0], a[1]), true
	}
}

func (w *Worker) deepEq(x, y Value) *Term {
	c := w.tc
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.False
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !w.sameType(a.T, b.T) {
			return c.False
		}
		return w.deepEq(a.V, b.V)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return c.False
		}
		if a == b {
			return c.True
		}
		if a == nil || b == nil {
			return c.False
		}
		return w.deepEq(*a, *b)
	case Struct:
		b := y.(Struct)
		r := c.True
		for i := range a {
			r = c.And(r, w.deepEq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.True
		for i := range a {
			r = c.And(r, w.deepEq(a[i], b[i]))
		}
		return r
	case []Value:
		b, ok := y.([]Value)
		if !ok {
			return c.False
		}
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return c.False
		}
		r := c.True
		for i := range a {
			r = c.And(r, w.deepEq(a[i], b[i]))
		}
		return r
	case *MapObj:
		b, ok := y.(*MapObj)
		if !ok {
			return c.False
		}
		if a == b {
			return c.True
		}
		if a == nil || b == nil || a.live != b.live {
			return c.False
		}
		r := c.True
		for i := range a.keys {
			if a.dead[i] {
				continue
			}
			j := w.mapFind(b, a.keys[i], b.keyT)
			if j < 0 {
				return c.False
			}
			r = c.And(r, w.deepEq(*a.vals[i], *b.vals[j]))
		}
		return r
	case *Choice:
		r := c.False
		for _, al := range a.alts {
			r = c.Or(r, c.And(al.cond, w.deepEq(al.v, y)))
		}
		return r
	}
	if ch, ok := y.(*Choice); ok {
		return w.deepEq(ch, x)
	}
	return w.eq(x, y, nil)
}
