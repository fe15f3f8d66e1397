//go:build verifsym

// Package mg models the streams of encoding/gob over the executor's gob trees: a first message
// describes types, every value is a message of its own, and every message is one write.
package mg

import (
	"encoding/gob"
	"errors"
	"io"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type enc struct {
	w   io.Writer
	any bool
	err error
}

var (
	encs = map[*gob.Encoder]*enc{}
	decs = map[*gob.Decoder]*dec{}
)

func message(kind byte, b []byte) []byte {
	return append([]byte{kind, byte(len(b))}, b...)
}

//verif:replaces encoding/gob.NewEncoder
func NewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	encs[e] = &enc{w: w}
	return e
}

func write(e *enc, b []byte) bool {
	_, err := e.w.Write(b)
	if err != nil {
		e.err = err
	}
	return err == nil
}

//verif:replaces (*encoding/gob.Encoder).Encode
func Encode(ge *gob.Encoder, v any) error {
	e := encs[ge]
	e.err = nil
	b, err := rt.GobEncode(v)
	if !e.any {
		e.any = true
		for n := rt.GobTypes(v); n > 0; n-- {
			if !write(e, message('T', []byte("types"))) {
				return e.err
			}
		}
	}
	if err != nil {
		return err
	}
	write(e, message('V', b))
	return e.err
}

type dec struct {
	r   io.Reader
	err error
}

//verif:replaces encoding/gob.NewDecoder
func NewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	decs[d] = &dec{r: r}
	return d
}

//verif:replaces (*encoding/gob.Decoder).Decode
func Decode(gd *gob.Decoder, v any) error {
	d := decs[gd]
	if d.err != nil {
		return d.err
	}
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(d.r, h); err != nil {
			d.err = err
			return err
		}
		b := make([]byte, h[1])
		if _, err := io.ReadFull(d.r, b); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			d.err = err
			return err
		}
		switch h[0] {
		case 'T':
			continue
		case 'V':
			return rt.GobDecode(b, v)
		}
		d.err = errors.New("gob: corrupted data")
		return d.err
	}
}
