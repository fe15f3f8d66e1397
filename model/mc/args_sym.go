//go:build verifsym

package mc

import (
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/alexflint/go-arg"
)

var errArg = errors.New("invalid option")

type spec struct {
	short, long, env string
	dest             any
	set              bool
	def              string
	hasDef           bool
}

func specs(v reflect.Value, out []*spec) []*spec {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, _ := lookup(string(f.Tag), "arg")
		if tag == "-" {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			out = specs(v.Field(i), out)
			continue
		}
		if f.Name[0] < 'A' || f.Name[0] > 'Z' {
			continue
		}
		s := &spec{long: strings.ToLower(f.Name), dest: v.Field(i).Addr().Interface()}
		for _, k := range strings.Split(tag, ",") {
			k = strings.TrimLeft(k, " ")
			val := ""
			if p := strings.IndexByte(k, ':'); p >= 0 {
				k, val = k[:p], k[p+1:]
			}
			switch {
			case k == "":
			case strings.HasPrefix(k, "--"):
				s.long = k[2:]
			case strings.HasPrefix(k, "-"):
				s.short = k[1:]
			case k == "env":
				s.env = val
				if val == "" {
					s.env = strings.ToUpper(f.Name)
				}
			default:
				panic("unexpected tag " + tag)
			}
		}
		s.def, s.hasDef = lookup(string(f.Tag), "default")
		out = append(out, s)
	}
	return out
}

// lookup finds a key of a struct tag.
func lookup(tag, key string) (string, bool) {
	for {
		tag = strings.TrimLeft(tag, " ")
		p := strings.Index(tag, `:"`)
		if p < 0 {
			return "", false
		}
		k := tag[:p]
		rest := tag[p+2:]
		q := strings.IndexByte(rest, '"')
		if q < 0 {
			return "", false
		}
		if k == key {
			return rest[:q], true
		}
		tag = rest[q+1:]
	}
}

func (s *spec) parse(x string) error {
	var err error
	switch d := s.dest.(type) {
	case *string:
		*d = x
	case *int:
		*d, err = strconv.Atoi(x)
	case *uint:
		var n uint64
		n, err = strconv.ParseUint(x, 10, 64)
		*d = uint(n)
	case *bool:
		*d, err = strconv.ParseBool(x)
	case *time.Duration:
		*d, err = time.ParseDuration(x)
	default:
		panic("unexpected type of an option")
	}
	return err
}

func (s *spec) assign(v any) error {
	s.set = true
	switch x := v.(type) {
	case string:
		return s.parse(x)
	case bool:
		d, ok := s.dest.(*bool)
		if !ok {
			return errArg
		}
		*d = x
	case time.Duration:
		d, ok := s.dest.(*time.Duration)
		if !ok {
			return errArg
		}
		*d = x
	case int64:
		switch d := s.dest.(type) {
		case *int:
			*d = int(x)
		case *uint:
			if x < 0 {
				return errArg
			}
			*d = uint(x)
		default:
			return errArg
		}
	default:
		panic("unexpected value of an option")
	}
	return nil
}

// parse does what package arg does with the tags used here.
func parse(dest ...any) (*arg.Parser, error) {
	var ss []*spec
	for _, d := range dest {
		ss = specs(reflect.ValueOf(d).Elem(), ss)
	}
	for _, s := range ss {
		for _, o := range Options {
			if o.Env && s.env != "" && o.Name == s.env {
				if err := s.assign(o.Val); err != nil {
					return nil, err
				}
			}
		}
	}
	for _, o := range Options {
		if o.Env {
			continue
		}
		var to *spec
		for _, s := range ss {
			if to == nil && (s.long == o.Name || s.short != "" && s.short == o.Name) {
				to = s
			}
		}
		if to == nil {
			return nil, errArg
		}
		if err := to.assign(o.Val); err != nil {
			return nil, err
		}
	}
	for _, s := range ss {
		if !s.set && s.hasDef {
			if err := s.parse(s.def); err != nil {
				return nil, err
			}
		}
	}
	return nil, nil
}
