package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The gob model. Encoding walks the value as encoding/gob does into a tree whose leaves may be
// symbolic: zero fields are left out, pointers are followed, interfaces carry a registered type, empty
// slices decode as nil. The message is a handle {G<n>} for the tree; the model package mg frames it.

type gnode struct {
	k     byte // v basic, t time, s struct, l list, m map, i interface, n nil interface
	v     Value
	t     types.Type
	names []string
	keys  []Value
	elems []*gnode
}

func (fr *Frame) gobErr(format string, a ...any) Value {
	return fr.w.callFn(fr, fr.w.P.fn("errors", "New"), []Value{"gob: " + fmt.Sprintf(format, a...)}, nil)
}

func isGobZero(fr *Frame, v Value, t types.Type) bool {
	w := fr.w
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := fr.force(v).([]Value)
		return ok && len(s) == 0
	case *types.Map:
		m, ok := fr.force(v).(*MapObj)
		return ok && (m == nil || m.live == 0)
	case *types.Struct:
		return false
	case *types.Basic:
		return w.decide(w.eq(fr.force(v), w.zero(u), u))
	}
	return false
}

var gobBasic = map[types.BasicKind]bool{}

func init() {
	for k := types.Bool; k <= types.String; k++ {
		gobBasic[k] = true
	}
}

func (fr *Frame) gobEnc(v Value, t types.Type, depth int) (*gnode, Value) {
	w := fr.w
	if depth > 30 {
		panic(unsup("deep gob value"))
	}
	for {
		u, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		p, ok := fr.force(v).(*Value)
		if !ok {
			panic(unsup("gob of pointer %T", v))
		}
		if p == nil {
			return nil, nil // left out
		}
		v, t = *p, u.Elem()
	}
	if isNamed(t, "time", "Time") {
		r := fr.force(w.callFn(fr, w.methodByName(t, "MarshalBinary"), []Value{copyVal(v)}, nil)).(Tuple)
		if e := w.iface(r[1]); e.T != nil {
			return nil, e
		}
		x := w.callFn(fr, w.methodByName(t, "Round"), []Value{copyVal(v), w.tc.BV(0, 64)}, nil) // drops the monotonic clock
		return &gnode{k: 't', v: x, t: t}, nil
	}
	for _, m := range []string{"GobEncode", "MarshalBinary"} {
		if w.methodByName(t, m) != nil || w.methodByName(types.NewPointer(t), m) != nil {
			panic(unsup("gob of %s", t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if !gobBasic[u.Kind()] {
			return nil, fr.gobErr("type not supported")
		}
		return &gnode{k: 'v', v: fr.force(v), t: t}, nil
	case *types.Struct:
		n := &gnode{k: 's', t: t}
		s := fr.force(v).(Struct)
		sent := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if ft := f.Type().Underlying(); true {
				switch ft.(type) {
				case *types.Chan, *types.Signature:
					continue
				}
			}
			sent++
			if _, b := f.Type().Underlying().(*types.Basic); !b && isGobZero(fr, s[i], f.Type()) {
				continue
			}
			e, err := fr.gobEnc(s[i], f.Type(), depth+1)
			if err != nil {
				return nil, err
			}
			if e == nil || e.k == 'n' {
				continue
			}
			n.names = append(n.names, f.Name())
			n.elems = append(n.elems, e)
		}
		if sent == 0 {
			return nil, fr.gobErr("type %s has no exported fields", t)
		}
		return n, nil
	case *types.Slice:
		return fr.gobEncList(fr.force(v).([]Value), u.Elem(), t, depth)
	case *types.Array:
		return fr.gobEncList(fr.force(v).(Array), u.Elem(), t, depth)
	case *types.Map:
		n := &gnode{k: 'm', t: t}
		m := fr.force(v).(*MapObj)
		if m == nil {
			return n, nil
		}
		type kv struct {
			k string
			i int
		}
		var ks []kv
		for i, k := range m.keys {
			if m.dead[i] {
				continue
			}
			s, ok := k.(string)
			if !ok {
				panic(unsup("gob map key %T", k))
			}
			ks = append(ks, kv{s, i})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
		for _, k := range ks {
			e, err := fr.gobEnc(*m.vals[k.i], u.Elem(), depth+1)
			if err != nil {
				return nil, err
			}
			if e == nil {
				return nil, fr.gobErr("encodeReflectValue: nil element")
			}
			n.keys = append(n.keys, k.k)
			n.elems = append(n.elems, e)
		}
		return n, nil
	case *types.Interface:
		i := w.iface(v)
		if i.T == nil {
			return &gnode{k: 'n', t: t}, nil
		}
		if b, ok := i.T.(*types.Basic); !ok || !gobBasic[b.Kind()] {
			if !w.gobTypes[w.canon(i.T)] {
				return nil, fr.gobErr("type not registered for interface: %s", i.T)
			}
		}
		e, err := fr.gobEnc(fr.force(i.V), i.T, depth+1)
		if err != nil {
			return nil, err
		}
		if e == nil {
			return nil, fr.gobErr("gob: cannot encode nil pointer of type %s inside interface", i.T)
		}
		return &gnode{k: 'i', t: i.T, elems: []*gnode{e}}, nil
	}
	return nil, fr.gobErr("type not supported: %s", t)
}

func (fr *Frame) gobEncList(s []Value, et, t types.Type, depth int) (*gnode, Value) {
	n := &gnode{k: 'l', t: t}
	for _, x := range s {
		e, err := fr.gobEnc(x, et, depth+1)
		if err != nil {
			return nil, err
		}
		if e == nil {
			return nil, fr.gobErr("encodeReflectValue: nil element")
		}
		n.elems = append(n.elems, e)
	}
	return n, nil
}

// gobDec stores n at p. zeros says that zero values are sent, as they are outside of structs.
func (fr *Frame) gobDec(n *gnode, p *Value, t types.Type, zeros bool) Value {
	w := fr.w
	for {
		u, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, ok := fr.force(*p).(*Value)
		if !ok {
			panic(unsup("gob into pointer %T", *p))
		}
		if q == nil {
			q = new(Value)
			*q = w.zero(u.Elem())
			w.store(p, q)
		}
		p, t = q, u.Elem()
	}
	bad := func() Value { return fr.gobErr("decoding into local type %s, received remote type %s", t, n.t) }
	if n.k == 't' {
		if !isNamed(t, "time", "Time") {
			return bad()
		}
		w.store(p, copyVal(n.v))
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		nb, ok := n.t.Underlying().(*types.Basic)
		if n.k != 'v' || !ok {
			return bad()
		}
		const kinds = types.IsBoolean | types.IsString | types.IsFloat | types.IsComplex | types.IsUnsigned
		if nb.Info()&kinds != u.Info()&kinds {
			return bad()
		}
		v := n.v
		if x, ok := v.(*Term); ok && u.Info()&types.IsInteger != 0 {
			b1, sg, _ := intInfo(nb)
			b2, _, _ := intInfo(u)
			if b2 < b1 {
				panic(unsup("gob into a narrower integer"))
			}
			if sg {
				v = w.tc.Sext(x, uint8(b2))
			} else {
				v = w.tc.Zext(x, uint8(b2))
			}
		}
		if !zeros {
			// a zero field is not sent: what is there stays
			cur := w.eq(fr.force(*p), w.zero(u), u)
			if !(cur.isConst() && cur.v == 1) && w.decide(w.eq(v, w.zero(u), u)) {
				return nil
			}
		}
		w.store(p, v)
		return nil
	case *types.Struct:
		if n.k != 's' {
			return bad()
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsup("gob into struct %T", *p))
		}
		found := 0
		for i, name := range n.names {
			for j := 0; j < u.NumFields(); j++ {
				f := u.Field(j)
				if f.Name() != name || !f.Exported() {
					continue
				}
				found++
				if err := fr.gobDec(n.elems[i], &s[j], f.Type(), false); err != nil {
					return err
				}
			}
		}
		if found == 0 && len(n.names) > 0 {
			return fr.gobErr("type mismatch: no fields matched compiling decoder for %s", t)
		}
		return nil
	case *types.Slice:
		if n.k != 'l' {
			return bad()
		}
		old, _ := fr.force(*p).([]Value)
		var s []Value
		if len(n.elems) > 0 {
			s = make([]Value, len(n.elems))
		} else if old != nil {
			s = old[:0]
		}
		for i, e := range n.elems {
			s[i] = w.zero(u.Elem())
			if i < len(old) {
				s[i] = copyVal(old[i])
			}
			if err := fr.gobDec(e, &s[i], u.Elem(), true); err != nil {
				return err
			}
		}
		w.store(p, s)
		return nil
	case *types.Map:
		if n.k != 'm' {
			return bad()
		}
		m, _ := fr.force(*p).(*MapObj)
		if m == nil {
			m = newMap(u.Key(), u.Elem())
			w.store(p, m)
		}
		for i, k := range n.keys {
			q := new(Value)
			*q = w.zero(u.Elem())
			if err := fr.gobDec(n.elems[i], q, u.Elem(), true); err != nil {
				return err
			}
			w.mapSet(m, k, *q)
		}
		return nil
	case *types.Interface:
		if n.k == 'n' {
			w.store(p, Iface{})
			return nil
		}
		if n.k != 'i' {
			return bad()
		}
		if u.NumMethods() > 0 {
			panic(unsup("gob into interface %s", t))
		}
		q := new(Value)
		*q = w.zero(n.t)
		if err := fr.gobDec(n.elems[0], q, n.t, true); err != nil {
			return err
		}
		w.store(p, Iface{T: n.t, V: *q})
		return nil
	}
	return bad()
}

func gobIntrinsics(I map[string]Intrinsic) {
	register := func(fr *Frame, v Value) {
		if i := fr.w.iface(v); i.T != nil {
			fr.w.gobTypes[fr.w.canon(i.T)] = true
		}
	}
	I["encoding/gob.Register"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		register(fr, a[0])
		return nil, true
	}
	I["encoding/gob.RegisterName"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		register(fr, a[1])
		return nil, true
	}
	I[rtPkg+".GobEncode"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		for _, k := range sortedKeys(w.P.pkgs) {
			if k+"/" == modPath || strings.HasPrefix(k, modPath+"internal/engine/memdb") {
				w.initPkg(w.P.pkgs[k]) // may register types
			}
		}
		i := w.iface(a[0])
		if i.T == nil {
			return Tuple{[]Value(nil), fr.gobErr("cannot encode nil value")}, true
		}
		n, err := fr.gobEnc(fr.force(i.V), i.T, 0)
		if err != nil {
			return Tuple{[]Value(nil), err}, true
		}
		if n == nil {
			panic(unsup("gob of a nil pointer"))
		}
		w.gobDocs = append(w.gobDocs, n)
		return Tuple{w.strToBytes("{G" + strconv.Itoa(len(w.gobDocs)) + "}"), Iface{}}, true
	}
	I[rtPkg+".GobTypes"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		seen := map[string]bool{}
		var walk func(t types.Type)
		walk = func(t types.Type) {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				walk(p.Elem())
				return
			}
			k := types.TypeString(t, nil)
			if seen[k] {
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Struct:
				seen[k] = true
				if isNamed(t, "time", "Time") {
					return
				}
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Exported() {
						walk(u.Field(i).Type())
					}
				}
			case *types.Slice:
				if !isByteSlice(t) {
					seen[k] = true
					walk(u.Elem())
				}
			case *types.Array:
				seen[k] = true
				walk(u.Elem())
			case *types.Map:
				seen[k] = true
				walk(u.Key())
				walk(u.Elem())
			}
		}
		if i := fr.w.iface(a[0]); i.T != nil {
			walk(i.T)
		}
		return fr.w.tc.BV(uint64(len(seen)), 64), true
	}
	I[rtPkg+".GobDecode"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		s := fr.concBytes(a[0])
		k := 0
		if _, err := fmt.Sscanf(s, "{G%d}", &k); err != nil || k < 1 || k > len(w.gobDocs) {
			return fr.gobErr("corrupted data"), true
		}
		i := w.iface(a[1])
		if i.T == nil {
			return Iface{}, true // skips a value
		}
		u, ok := i.T.Underlying().(*types.Pointer)
		p, isP := fr.force(i.V).(*Value)
		if !ok || !isP || p == nil {
			return fr.gobErr("attempt to decode into a non-pointer"), true
		}
		if err := fr.gobDec(w.gobDocs[k-1], p, u.Elem(), true); err != nil {
			return err, true
		}
		return Iface{}, true
	}
}
