//go:build verifsym

// Package mj models the stream decoder and encoder of encoding/json over the executor's JSON trees.
package mj

import (
	"encoding/json"
	"io"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type dec struct {
	r      io.Reader
	buf    []byte
	strict bool
	err    error
}

var decs = map[*json.Decoder]*dec{}

//verif:replaces encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decs[d] = &dec{r: r}
	return d
}

//verif:replaces (*encoding/json.Decoder).DisallowUnknownFields
func DisallowUnknownFields(d *json.Decoder) { decs[d].strict = true }

//verif:replaces (*encoding/json.Decoder).Decode
func Decode(jd *json.Decoder, v any) error {
	d := decs[jd]
	if d.err != nil {
		return d.err
	}
	for {
		s, n, err := rt.JSONScan(d.buf)
		if err != nil {
			d.err = err
			return err
		}
		if n > 0 {
			b := d.buf[s : s+n]
			d.buf = d.buf[s+n:]
			return rt.JSONDecode(b, v, d.strict)
		}
		t := make([]byte, 512)
		k, err := d.r.Read(t)
		d.buf = append(d.buf, t[:k]...)
		if err != nil && k == 0 {
			if err == io.EOF {
				if s < len(d.buf) {
					err = io.ErrUnexpectedEOF
				}
			}
			d.err = err
			return err
		}
	}
}

//verif:replaces (*encoding/json.Decoder).More
func More(jd *json.Decoder) bool {
	d := decs[jd]
	s, _, _ := rt.JSONScan(d.buf)
	return s < len(d.buf)
}

var encs = map[*json.Encoder]io.Writer{}

//verif:replaces encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encs[e] = w
	return e
}

//verif:replaces (*encoding/json.Encoder).SetEscapeHTML
func SetEscapeHTML(e *json.Encoder, on bool) {}

//verif:replaces (*encoding/json.Encoder).SetIndent
func SetIndent(e *json.Encoder, prefix, indent string) {}

//verif:replaces (*encoding/json.Encoder).Encode
func Encode(e *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = encs[e].Write(append(b, '\n'))
	return err
}
