//go:build verifsym

package mm

import (
	"errors"
	"reflect"
	"sort"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson/primitive"
)

// A model of the driver's default codecs, as far as tasks, promises, topics and commands need them.

func encTime(t time.Time) DT { return DT{t.Unix(), int64(t.Nanosecond() / 1000000)} }

func encMap(m map[string]any) D {
	d := D{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d = append(d, E{k, Enc(m[k])})
	}
	return d
}

func encList(l []any) A {
	a := A{}
	for _, x := range l {
		a = append(a, Enc(x))
	}
	return a
}

// Enc turns a Go value into a value of a document.
func Enc(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case string, bool, int32, int64, float64:
		return v
	case int:
		if x >= -1<<31 && x < 1<<31 {
			return int32(x)
		}
		return int64(x)
	case time.Time:
		return encTime(x)
	case *time.Time:
		if x == nil {
			return nil
		}
		return encTime(*x)
	case primitive.DateTime:
		return encTime(x.Time())
	case D, A, DT:
		return v
	case primitive.D:
		d := D{}
		if x == nil {
			return nil
		}
		for _, e := range x {
			d = append(d, E{e.Key, Enc(e.Value)})
		}
		return d
	case primitive.M:
		if x == nil {
			return nil
		}
		return encMap(x)
	case map[string]any:
		if x == nil {
			return nil
		}
		return encMap(x)
	case primitive.A:
		if x == nil {
			return nil
		}
		return encList(x)
	case []any:
		if x == nil {
			return nil
		}
		return encList(x)
	}
	return encValue(reflect.ValueOf(v))
}

func encValue(r reflect.Value) any {
	switch r.Kind() {
	case reflect.Pointer, reflect.Interface:
		if r.IsNil() {
			return nil
		}
		return Enc(r.Elem().Interface())
	case reflect.Bool:
		return r.Bool()
	case reflect.String:
		return r.String()
	case reflect.Int32, reflect.Int16, reflect.Int8:
		return int32(r.Int())
	case reflect.Int64:
		return r.Int()
	case reflect.Int:
		return Enc(int(r.Int()))
	case reflect.Float64, reflect.Float32:
		return r.Float()
	case reflect.Slice, reflect.Array:
		if r.Kind() == reflect.Slice && r.IsNil() {
			return nil
		}
		a := A{}
		for i := 0; i < r.Len(); i++ {
			a = append(a, Enc(r.Index(i).Interface()))
		}
		return a
	case reflect.Struct:
		return encStruct(r)
	}
	panic("mm: cannot encode a " + r.Type().String())
}

// tag splits a struct tag.
func tag(f reflect.StructField) (name string, omit bool) {
	t, ok := f.Tag.Lookup("bson")
	if !ok && !strings.Contains(string(f.Tag), ":") && len(f.Tag) > 0 {
		t = string(f.Tag)
	}
	parts := strings.Split(t, ",")
	name = parts[0]
	if name == "" {
		name = strings.ToLower(f.Name)
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		} else if p != "" {
			panic("mm: struct tag " + t)
		}
	}
	return name, omit
}

func encStruct(r reflect.Value) D {
	t := r.Type()
	d := D{}
	for i := 0; i < r.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		name, omit := tag(f)
		if name == "-" {
			continue
		}
		v := r.Field(i)
		if omit && empty(v) {
			continue
		}
		d = append(d, E{name, Enc(v.Interface())})
	}
	return d
}

// empty tells whether a field that may be omitted is.
func empty(v reflect.Value) bool {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Pointer && v.IsNil() {
		return true
	}
	switch t := v.Interface().(type) {
	case time.Time:
		return t.IsZero()
	case *time.Time:
		return t.IsZero()
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String, reflect.Array:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

// document encodes the top level.
func document(v any) (D, error) {
	switch d := Enc(v).(type) {
	case D:
		return d, nil
	}
	return nil, errors.New("document is nil or not a document")
}

// embedded tells whether embedded documents decode as maps.
var embedded = true

// dec makes a Go value for an interface.
func dec(v any) any {
	switch x := v.(type) {
	case DT:
		return primitive.DateTime(x.Sec*1000 + x.Ms)
	case A:
		a := primitive.A{}
		for _, y := range x {
			a = append(a, dec(y))
		}
		return a
	case D:
		if !embedded {
			d := primitive.D{}
			for _, e := range x {
				d = append(d, primitive.E{Key: e.K, Value: dec(e.V)})
			}
			return d
		}
		m := primitive.M{}
		for _, e := range x {
			m[e.K] = dec(e.V)
		}
		return m
	}
	return v
}

var errDecode = errors.New("cannot decode into this type")

func decInto(v any, r reflect.Value) error {
	if r.Kind() == reflect.Interface {
		x := dec(v)
		if x == nil {
			r.Set(reflect.Zero(r.Type()))
		} else {
			r.Set(reflect.ValueOf(x))
		}
		return nil
	}
	if v == nil {
		r.Set(reflect.Zero(r.Type()))
		return nil
	}
	if r.Kind() == reflect.Pointer {
		if r.IsNil() {
			r.Set(reflect.New(r.Type().Elem()))
		}
		return decInto(v, r.Elem())
	}
	if _, isT := r.Interface().(time.Time); isT {
		t, ok := v.(DT)
		if !ok {
			return errDecode
		}
		r.Set(reflect.ValueOf(time.Unix(t.Sec, t.Ms*1000000).UTC()))
		return nil
	}
	switch x := v.(type) {
	case string:
		if r.Kind() == reflect.String {
			r.SetString(x)
			return nil
		}
	case bool:
		if r.Kind() == reflect.Bool {
			r.SetBool(x)
			return nil
		}
	case int32, int64:
		n, _, _ := num(v)
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if r.OverflowInt(n) {
				return errDecode
			}
			r.SetInt(n)
			return nil
		case reflect.Float64:
			r.SetFloat(float64(n))
			return nil
		}
	case float64:
		if r.Kind() == reflect.Float64 {
			r.SetFloat(x)
			return nil
		}
	case D:
		if r.Kind() == reflect.Struct {
			return decStruct(x, r)
		}
		if m, ok := r.Interface().(primitive.M); ok {
			if m == nil {
				m = primitive.M{}
			}
			for _, e := range x {
				m[e.K] = dec(e.V)
			}
			r.Set(reflect.ValueOf(m))
			return nil
		}
	}
	return errDecode
}

func decStruct(d D, r reflect.Value) error {
	t := r.Type()
	for _, e := range d {
		for i := 0; i < r.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			name, _ := tag(f)
			if name == "-" || name != e.K {
				continue
			}
			if err := decInto(e.V, r.Field(i)); err != nil {
				return err
			}
		}
	}
	return nil
}

// decode stores a document at a pointer.
func decode(d D, v any) error {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Pointer || r.IsNil() {
		return errDecode
	}
	return decInto(d, r.Elem())
}

// decodeAll stores documents in a slice.
func decodeAll(ds []D, v any) error {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Pointer || r.Elem().Kind() != reflect.Slice {
		return errors.New("results argument must be a pointer to a slice")
	}
	s := r.Elem()
	if len(ds) == 0 {
		if !s.IsNil() {
			s.Set(reflect.MakeSlice(s.Type(), 0, 0))
		}
		return nil
	}
	out := reflect.MakeSlice(s.Type(), len(ds), len(ds))
	for i, d := range ds {
		if err := decInto(d, out.Index(i)); err != nil {
			return err
		}
	}
	s.Set(out)
	return nil
}
