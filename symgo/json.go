package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The JSON model. Encoding walks the value by its type and struct tags, as encoding/json does, into
// a tree whose leaves may be symbolic; the text is a handle {J<n>} for the tree. Decoding a handle
// walks the tree into the target with encoding/json's rules. Other text is concrete and is parsed by
// the real encoding/json first, so that malformed documents give the real errors.

var minYear0 = int64(-62167219200)

type jnode struct {
	k     byte // n b i f s t a o
	v     Value
	uns   bool // i: unsigned
	keys  []string
	elems []*jnode
}

type jsonErr struct {
	typ string // type of the error in package encoding/json, or "" for errors.New
	msg string
	val Value // finished error value
}

func (fr *Frame) jsonErrVal(e *jsonErr) Value {
	w := fr.w
	if e.val != nil {
		return e.val
	}
	jp := w.P.pkgs["encoding/json"]
	mk := func(name string, set map[string]Value) Value {
		t := jp.Type(name).Type()
		s := w.zero(t).(Struct)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if v, ok := set[st.Field(i).Name()]; ok {
				s[i] = v
			}
		}
		p := new(Value)
		*p = s
		return Iface{T: types.NewPointer(t), V: p}
	}
	switch e.typ {
	case "SyntaxError":
		return mk("SyntaxError", map[string]Value{"msg": e.msg, "Offset": w.tc.BV(1, 64)})
	case "UnmarshalTypeError":
		i := strings.Index(e.msg, "\x00")
		return mk("UnmarshalTypeError", map[string]Value{"Value": e.msg[:i], "Type": w.rtype(types.Typ[types.String]), "Offset": w.tc.BV(1, 64), "Field": e.msg[i+1:]})
	case "EOF":
		return *w.global(w.P.pkgs["io"].Members["EOF"].(*ssa.Global))
	case "ErrUnexpectedEOF":
		return *w.global(w.P.pkgs["io"].Members["ErrUnexpectedEOF"].(*ssa.Global))
	}
	return w.callFn(fr, w.P.fn("errors", "New"), []Value{e.msg}, nil)
}

type jfield struct {
	name      string
	omit      bool
	path      []int
	typ       types.Type
	tagged    bool
	omitStr   bool
	ambiguous bool
}

func jsonFields(t *types.Struct, path []int, out []jfield, depth int) []jfield {
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		p := append(append([]int{}, path...), i)
		if f.Anonymous() && name == "" {
			if st, ok := f.Type().Underlying().(*types.Struct); ok {
				if depth > 4 {
					panic(unsup("deeply embedded JSON struct"))
				}
				out = jsonFields(st, p, out, depth+1)
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Pointer); ok {
				panic(unsup("embedded pointer in JSON struct"))
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: name, path: p, typ: f.Type(), tagged: name != ""}
		if name == "" {
			jf.name = f.Name()
		}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "":
			case "omitempty":
				jf.omit = true
			default:
				panic(unsup("JSON tag option %q", o))
			}
		}
		out = append(out, jf)
	}
	return out
}

// dominant removes the fields that encoding/json ignores because of name conflicts.
func dominant(fs []jfield) []jfield {
	best := map[string]int{}
	amb := map[string]bool{}
	for i, f := range fs {
		j, ok := best[f.name]
		if !ok {
			best[f.name] = i
			continue
		}
		g := fs[j]
		switch {
		case len(f.path) < len(g.path) || len(f.path) == len(g.path) && f.tagged && !g.tagged:
			best[f.name] = i
			amb[f.name] = false
		case len(f.path) == len(g.path) && f.tagged == g.tagged:
			amb[f.name] = true
		}
	}
	var out []jfield
	for i, f := range fs {
		if best[f.name] == i && !amb[f.name] {
			out = append(out, f)
		}
	}
	return out
}

func (w *Worker) jsonStr(fr *Frame, s Value) Value {
	switch x := s.(type) {
	case string:
		return strings.ToValidUTF8(x, "\uFFFD")
	case *SStr:
		c := w.tc
		ascii := c.True
		for _, b := range x.b {
			ascii = c.And(ascii, c.Ult(b, c.BV(0x80, 8)))
		}
		if !w.decide(ascii) {
			ok := w.callFn(fr, w.P.fn("unicode/utf8", "ValidString"), []Value{x}, nil).(*Term)
			if !w.decide(ok) {
				panic(unsup("invalid UTF-8 in JSON"))
			}
		}
		return x
	}
	panic(unsup("JSON string of %T", s))
}

func (fr *Frame) jsonEnc(v Value, t types.Type, depth int) (*jnode, *jsonErr) {
	w := fr.w
	if depth > 30 {
		panic(unsup("deep JSON value"))
	}
	if u, ok := t.Underlying().(*types.Pointer); ok && isNamed(u.Elem(), "time", "Time") {
		p, ok := fr.force(v).(*Value)
		if !ok {
			panic(unsup("JSON of pointer %T", v))
		}
		if p == nil {
			return &jnode{k: 'n'}, nil
		}
		v, t = *p, u.Elem()
	}
	if depth > 0 || true {
		if isNamed(t, "time", "Time") {
			y := w.callFn(fr, w.methodByName(t, "Unix"), []Value{copyVal(v)}, nil).(*Term)
			c := w.tc
			// years 0 to 9999 in UTC
			if !w.decide(c.And(c.Sle(c.BV(uint64(minYear0), 64), y), c.Sle(y, c.BV(253402300799, 64)))) {
				return nil, &jsonErr{msg: "json: error calling MarshalJSON for type time.Time: Time.MarshalJSON: year outside of range [0,9999]"}
			}
			return &jnode{k: 't', v: w.jsonTime(fr, v)}, nil
		}
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if f := w.methodByName(t, m); f != nil {
				if p, ok := v.(*Value); ok && p == nil {
					return &jnode{k: 'n'}, nil
				}
				r := fr.force(w.callFn(fr, f, []Value{copyVal(v)}, nil)).(Tuple)
				if e := w.iface(r[1]); e.T != nil {
					return nil, &jsonErr{val: e}
				}
				s := w.bytesToStr(r[0])
				if m == "MarshalText" {
					return &jnode{k: 's', v: w.jsonStr(fr, s)}, nil
				}
				cs, ok := s.(string)
				if !ok {
					panic(unsup("MarshalJSON with symbolic text"))
				}
				return fr.jsonParse(cs)
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := w.iface(v)
		if i.T == nil {
			return &jnode{k: 'n'}, nil
		}
		return fr.jsonEnc(fr.force(i.V), i.T, depth+1)
	case *types.Pointer:
		p, ok := fr.force(v).(*Value)
		if !ok {
			panic(unsup("JSON of pointer %T", v))
		}
		if p == nil {
			return &jnode{k: 'n'}, nil
		}
		return fr.jsonEnc(*p, u.Elem(), depth+1)
	case *types.Struct:
		n := &jnode{k: 'o'}
		for _, f := range dominant(jsonFields(u, nil, nil, 0)) {
			x := v
			for _, i := range f.path {
				x = fr.force(x).(Struct)[i]
			}
			if f.omit && fr.jsonEmpty(x, f.typ) {
				continue
			}
			e, err := fr.jsonEnc(x, f.typ, depth+1)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, f.name)
			n.elems = append(n.elems, e)
		}
		return n, nil
	case *types.Slice:
		if isByteSlice(t) {
			panic(unsup("JSON of []byte"))
		}
		s := fr.force(v).([]Value)
		if s == nil {
			return &jnode{k: 'n'}, nil
		}
		return fr.jsonEncList(s, u.Elem(), depth)
	case *types.Array:
		return fr.jsonEncList(fr.force(v).(Array), u.Elem(), depth)
	case *types.Map:
		m := fr.force(v).(*MapObj)
		if m == nil {
			return &jnode{k: 'n'}, nil
		}
		n := &jnode{k: 'o'}
		mv := map[string]Value{}
		for i, k := range m.keys {
			if m.dead[i] {
				continue
			}
			ks, ok := k.(string)
			if !ok {
				panic(unsup("JSON map key %T", k))
			}
			mv[ks] = *m.vals[i]
		}
		ks := sortedKeys(mv)
		sort.Strings(ks)
		for _, k := range ks {
			e, err := fr.jsonEnc(mv[k], u.Elem(), depth+1)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k)
			n.elems = append(n.elems, e)
		}
		return n, nil
	case *types.Basic:
		v = fr.force(v)
		switch {
		case u.Info()&types.IsString != 0:
			return &jnode{k: 's', v: w.jsonStr(fr, v)}, nil
		case u.Info()&types.IsBoolean != 0:
			return &jnode{k: 'b', v: v}, nil
		case u.Info()&types.IsInteger != 0:
			_, sg, _ := intInfo(u)
			x := v.(*Term)
			if sg {
				return &jnode{k: 'i', v: w.tc.Sext(x, 64)}, nil
			}
			return &jnode{k: 'i', v: w.tc.Zext(x, 64), uns: true}, nil
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				panic(unsup("JSON of a symbolic float"))
			}
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return nil, &jsonErr{msg: "json: unsupported value"}
			}
			if f == math.Trunc(f) && math.Abs(f) < 1e18 { // the digits it is written with
				if k, err := strconv.ParseInt(strconv.FormatFloat(f, 'f', -1, 64), 10, 64); err == nil {
					return &jnode{k: 'i', v: w.tc.BV(uint64(k), 64)}, nil
				}
			}
			return &jnode{k: 'f', v: f}, nil
		}
	}
	return nil, &jsonErr{msg: "json: unsupported type: " + t.String()}
}

func (fr *Frame) jsonEncList(s []Value, et types.Type, depth int) (*jnode, *jsonErr) {
	n := &jnode{k: 'a'}
	for _, x := range s {
		e, err := fr.jsonEnc(x, et, depth+1)
		if err != nil {
			return nil, err
		}
		n.elems = append(n.elems, e)
	}
	return n, nil
}

// jsonTime is the instant without its monotonic reading, in UTC.
func (w *Worker) jsonTime(fr *Frame, v Value) Value {
	t := w.P.pkgs["time"].Type("Time").Type()
	r := w.callFn(fr, w.methodByName(t, "Round"), []Value{copyVal(v), w.tc.BV(0, 64)}, nil)
	return w.callFn(fr, w.methodByName(t, "UTC"), []Value{r}, nil)
}

func (fr *Frame) jsonEmpty(v Value, t types.Type) bool {
	w := fr.w
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return w.decide(w.eq(fr.force(v), w.zero(t), t))
	case *types.Pointer:
		p, ok := fr.force(v).(*Value)
		return ok && p == nil
	case *types.Interface:
		return w.iface(v).T == nil
	case *types.Slice:
		s, ok := fr.force(v).([]Value)
		return ok && len(s) == 0
	case *types.Map:
		m, ok := fr.force(v).(*MapObj)
		return ok && (m == nil || m.live == 0)
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func (w *Worker) jsonText(n *jnode) []byte {
	w.jdocs = append(w.jdocs, n)
	return []byte("{J" + strconv.Itoa(len(w.jdocs)) + "}")
}

// jsonScan splits the first value off concrete text: its length, 0 if more text is needed, and the
// error if it is malformed.
func (w *Worker) jsonScan(s string) (start, n int, perr *jsonErr) {
	i := 0
	for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
		i++
	}
	if i == len(s) {
		return i, 0, nil
	}
	if strings.HasPrefix(s[i:], "{J") {
		j := strings.IndexByte(s[i:], '}')
		if j < 0 {
			return i, 0, nil
		}
		return i, j + 1, nil
	}
	d := json.NewDecoder(strings.NewReader(s[i:]))
	var raw json.RawMessage
	err := d.Decode(&raw)
	if err == nil {
		return i, int(d.InputOffset()), nil
	}
	var se *json.SyntaxError
	if errors.As(err, &se) {
		return i, 0, &jsonErr{typ: "SyntaxError", msg: se.Error()}
	}
	return i, 0, nil
}

// jsonParse turns the text of one value into a tree.
func (fr *Frame) jsonParse(s string) (*jnode, *jsonErr) {
	w := fr.w
	t := strings.Trim(s, " \t\r\n")
	if strings.HasPrefix(t, "{J") && strings.HasSuffix(t, "}") {
		k, err := strconv.Atoi(t[2 : len(t)-1])
		if err == nil && k >= 1 && k <= len(w.jdocs) {
			return w.jdocs[k-1], nil
		}
	}
	if !json.Valid([]byte(s)) {
		var x any
		err := json.Unmarshal([]byte(s), &x)
		if err == nil {
			err = errors.New("invalid")
		}
		return nil, &jsonErr{typ: "SyntaxError", msg: err.Error()}
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, err := jsonTree(w, d)
	if err != nil {
		panic(unsup("JSON text: %v", err))
	}
	return n, nil
}

func jsonTree(w *Worker, d *json.Decoder) (*jnode, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case nil:
		return &jnode{k: 'n'}, nil
	case bool:
		return &jnode{k: 'b', v: w.tc.Bool(x)}, nil
	case string:
		return &jnode{k: 's', v: x}, nil
	case json.Number:
		if k, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return &jnode{k: 'i', v: w.tc.BV(uint64(k), 64)}, nil
		}
		f, err := x.Float64()
		if err != nil {
			return nil, err
		}
		return &jnode{k: 'f', v: f}, nil
	case json.Delim:
		if x == '[' {
			n := &jnode{k: 'a'}
			for d.More() {
				e, err := jsonTree(w, d)
				if err != nil {
					return nil, err
				}
				n.elems = append(n.elems, e)
			}
			_, err := d.Token()
			return n, err
		}
		n := &jnode{k: 'o'}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			e, err := jsonTree(w, d)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k.(string))
			n.elems = append(n.elems, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, io.ErrUnexpectedEOF
}

type jdec struct {
	saved  *jsonErr
	strict bool
	num    bool
}

func (d *jdec) mismatch(n *jnode, field string) {
	if d.saved != nil {
		return
	}
	k := map[byte]string{'b': "bool", 'i': "number", 'f': "number", 's': "string", 't': "string", 'a': "array", 'o': "object"}[n.k]
	d.saved = &jsonErr{typ: "UnmarshalTypeError", msg: k + "\x00" + field}
}

// jsonDec decodes n into *p of type t; a returned error stops decoding at once.
func (fr *Frame) jsonDec(d *jdec, n *jnode, p *Value, t types.Type, field string) *jsonErr {
	w := fr.w
	c := w.tc
	if isNamed(t, "time", "Time") {
		switch n.k {
		case 'n':
			return nil
		case 't':
			w.store(p, copyVal(n.v))
			return nil
		case 's':
			s, ok := n.v.(string)
			if !ok {
				panic(unsup("JSON time from a symbolic string"))
			}
			var tt time.Time
			q, _ := json.Marshal(s)
			if err := tt.UnmarshalJSON(q); err != nil {
				return &jsonErr{msg: err.Error()}
			}
			u := w.callFn(fr, w.P.fn("time", "Unix"), []Value{c.BV(uint64(tt.Unix()), 64), c.BV(uint64(tt.Nanosecond()), 64)}, nil)
			w.store(p, w.jsonTime(fr, u))
			return nil
		}
		return &jsonErr{msg: "Time.UnmarshalJSON: input is not a JSON string"}
	}
	for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if w.methodByName(types.NewPointer(t), m) != nil {
			panic(unsup("JSON %s of %s", m, t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.k == 'n' {
			w.store(p, (*Value)(nil))
			return nil
		}
		q, ok := fr.force(*p).(*Value)
		if !ok {
			panic(unsup("JSON into pointer %T", *p))
		}
		if q == nil {
			q = new(Value)
			*q = w.zero(u.Elem())
			w.store(p, q)
		}
		return fr.jsonDec(d, n, q, u.Elem(), field)
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.k == 'n' {
				w.store(p, Iface{})
			} else {
				d.mismatch(n, field)
			}
			return nil
		}
		w.store(p, fr.jsonAny(n))
		return nil
	case *types.Struct:
		if n.k == 'n' {
			return nil
		}
		if n.k != 'o' {
			d.mismatch(n, field)
			return nil
		}
		fs := dominant(jsonFields(u, nil, nil, 0))
		for i, k := range n.keys {
			var f *jfield
			for j := range fs {
				if fs[j].name == k {
					f = &fs[j]
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						f = &fs[j]
						break
					}
				}
			}
			if f == nil {
				if d.strict && d.saved == nil {
					d.saved = &jsonErr{msg: "json: unknown field " + strconv.Quote(k)}
				}
				continue
			}
			q := p
			for _, x := range f.path {
				q = &(*q).(Struct)[x]
			}
			fn := f.name
			if field != "" {
				fn = field + "." + f.name
			}
			if err := fr.jsonDec(d, n.elems[i], q, f.typ, fn); err != nil {
				return err
			}
		}
		return nil
	case *types.Slice:
		if n.k == 'n' {
			w.store(p, []Value(nil))
			return nil
		}
		if isByteSlice(t) {
			panic(unsup("JSON into []byte"))
		}
		if n.k != 'a' {
			d.mismatch(n, field)
			return nil
		}
		s := make([]Value, len(n.elems))
		for i := range s {
			s[i] = w.zero(u.Elem())
		}
		if old, ok := (*p).([]Value); ok && len(old) > 0 {
			panic(unsup("JSON into a non-empty slice"))
		}
		w.store(p, s)
		for i, e := range n.elems {
			if err := fr.jsonDec(d, e, &s[i], u.Elem(), field); err != nil {
				return err
			}
		}
		return nil
	case *types.Map:
		if n.k == 'n' {
			w.store(p, (*MapObj)(nil))
			return nil
		}
		if n.k != 'o' {
			d.mismatch(n, field)
			return nil
		}
		m, _ := (*p).(*MapObj)
		if m == nil {
			m = newMap(u.Key(), u.Elem())
			w.store(p, m)
		}
		for i, k := range n.keys {
			x := new(Value)
			*x = w.zero(u.Elem())
			if err := fr.jsonDec(d, n.elems[i], x, u.Elem(), field); err != nil {
				return err
			}
			w.mapSet(m, k, *x)
		}
		return nil
	case *types.Basic:
		if n.k == 'n' {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			switch n.k {
			case 's':
				w.store(p, n.v)
			case 't':
				panic(unsup("JSON time into a string"))
			default:
				d.mismatch(n, field)
			}
			return nil
		case u.Info()&types.IsBoolean != 0:
			if n.k == 'b' {
				w.store(p, n.v)
			} else {
				d.mismatch(n, field)
			}
			return nil
		case u.Info()&types.IsInteger != 0:
			if n.k != 'i' {
				d.mismatch(n, field)
				return nil
			}
			wd, sg, _ := intInfo(u)
			x := n.v.(*Term)
			ok := c.True
			switch {
			case sg && n.uns:
				ok = c.Sle(c.BV(0, 64), x)
			case !sg && !n.uns:
				ok = c.Sle(c.BV(0, 64), x)
			}
			if wd < 64 {
				y := c.Extract(x, wd-1, 0)
				if sg {
					ok = c.And(ok, c.Eq(c.Sext(y, 64), x))
				} else {
					ok = c.And(ok, c.Eq(c.Zext(y, 64), x))
				}
			}
			if !w.decide(ok) {
				d.mismatch(n, field)
				return nil
			}
			if wd < 64 {
				x = c.Extract(x, wd-1, 0)
			}
			w.store(p, x)
			return nil
		case u.Info()&types.IsFloat != 0:
			switch n.k {
			case 'f':
				w.store(p, n.v)
			case 'i':
				w.store(p, fr.intToFloat(n.v.(*Term), !n.uns))
			default:
				d.mismatch(n, field)
			}
			return nil
		}
	}
	panic(unsup("JSON into %s", t))
}

func (fr *Frame) jsonAny(n *jnode) Value {
	w := fr.w
	anyT := types.NewInterfaceType(nil, nil)
	switch n.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{T: types.Typ[types.Bool], V: n.v}
	case 's':
		return Iface{T: types.Typ[types.String], V: n.v}
	case 'i':
		return Iface{T: types.Typ[types.Float64], V: fr.intToFloat(n.v.(*Term), !n.uns)}
	case 'f':
		return Iface{T: types.Typ[types.Float64], V: n.v}
	case 'a':
		s := make([]Value, len(n.elems))
		for i, e := range n.elems {
			s[i] = fr.jsonAny(e)
		}
		return Iface{T: w.canon(types.NewSlice(anyT)), V: s}
	case 'o':
		m := newMap(types.Typ[types.String], anyT)
		for i, k := range n.keys {
			w.mapSet(m, k, fr.jsonAny(n.elems[i]))
		}
		return Iface{T: w.canon(types.NewMap(types.Typ[types.String], anyT)), V: m}
	}
	panic(unsup("JSON time into an interface"))
}

// jsonUnmarshal decodes text into the pointer held by v.
func (fr *Frame) jsonUnmarshal(text string, v Value, d *jdec) Value {
	w := fr.w
	n, err := fr.jsonParse(text)
	if err != nil {
		return fr.jsonErrVal(err)
	}
	i := w.iface(v)
	pt, ok := Value(nil), false
	var et types.Type
	if i.T != nil {
		if u, isP := i.T.Underlying().(*types.Pointer); isP {
			pt, ok, et = fr.force(i.V), true, u.Elem()
		}
	}
	p, _ := pt.(*Value)
	if !ok || p == nil {
		return fr.jsonErrVal(&jsonErr{msg: "json: Unmarshal(non-pointer or nil)"})
	}
	if err := fr.jsonDec(d, n, p, et, ""); err != nil {
		return fr.jsonErrVal(err)
	}
	if d.saved != nil {
		return fr.jsonErrVal(d.saved)
	}
	return Iface{}
}

func (fr *Frame) concBytes(v Value) string {
	s := fr.w.bytesToStr(fr.force(v))
	x, ok := s.(string)
	if !ok {
		panic(unsup("symbolic JSON text"))
	}
	return x
}

func jsonIntrinsics(I map[string]Intrinsic) {
	marshal := func(fr *Frame, v Value) (Value, Value) {
		w := fr.w
		i := w.iface(v)
		if i.T == nil {
			return w.strToBytes("null"), Iface{}
		}
		n, err := fr.jsonEnc(fr.force(i.V), i.T, 0)
		if err != nil {
			return []Value(nil), fr.jsonErrVal(err)
		}
		return w.strToBytes(string(w.jsonText(n))), Iface{}
	}
	I["encoding/json.Marshal"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		b, e := marshal(fr, a[0])
		return Tuple{b, e}, true
	}
	I["encoding/json.MarshalIndent"] = I["encoding/json.Marshal"]
	I["encoding/json.Unmarshal"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.jsonUnmarshal(fr.concBytes(a[0]), a[1], &jdec{}), true
	}
	I[rtPkg+".JSONScan"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		s, n, err := w.jsonScan(fr.concBytes(a[0]))
		e := Value(Iface{})
		if err != nil {
			e = fr.jsonErrVal(err)
		}
		return Tuple{w.tc.BV(uint64(s), 64), w.tc.BV(uint64(n), 64), e}, true
	}
	I[rtPkg+".JSONDecode"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		d := &jdec{strict: cint2(a[2])}
		return fr.jsonUnmarshal(fr.concBytes(a[0]), a[1], d), true
	}
	_ = bytes.NewBuffer
}

func cint2(v Value) bool { t := v.(*Term); return t.isConst() && t.v == 1 }
