//go:build verifsym

package hh

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"strconv"
)

func origin() string { return "http://127.0.0.1:1" }

// capture answers requests instead of the application.
var capture func(r *http.Request) (*http.Response, error)

// capturing makes f answer every request, wherever it goes.
func capturing(f func(s *sent) (code int, location string)) {
	capture = func(r *http.Request) (*http.Response, error) {
		s := &sent{scheme: r.URL.Scheme, host: r.URL.Host, method: r.Method, uri: r.URL.RequestURI(), header: r.Header.Clone()}
		if r.URL.Port() == "" {
			s.host += map[string]string{"http": ":80", "https": ":443"}[s.scheme]
		}
		if r.Body != nil {
			b, err := io.ReadAll(r.Body)
			if err != nil {
				return nil, err
			}
			r.Body.Close()
			s.body = b
		}
		code, to := f(s)
		h := http.Header{}
		if to != "" {
			h.Set("Location", to)
		}
		return &http.Response{
			Status: strconv.Itoa(code), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: h, Body: io.NopCloser(bytes.NewReader(nil)), Request: r,
		}, nil
	}
}

//verif:replaces (*net/http.Transport).Clone
func CloneTransport(t *http.Transport) *http.Transport { return new(http.Transport) }

// RoundTrip hands a request over to the application, as a connection and the HTTP server do.
//
//verif:replaces (*net/http.Transport).RoundTrip
func RoundTrip(t *http.Transport, r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	trips++
	if capture != nil {
		return capture(r)
	}
	u, err := url.ParseRequestURI(r.URL.RequestURI())
	if err != nil {
		return &http.Response{StatusCode: 400, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
	}
	var b []byte
	if r.Body != nil {
		if b, err = io.ReadAll(r.Body); err != nil {
			return nil, err
		}
		r.Body.Close()
	}
	if front != nil {
		front(b)
	}
	s := &http.Request{
		Method: r.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: r.Header.Clone(), Host: r.URL.Host,
		Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), RequestURI: r.URL.RequestURI(),
	}
	w := &recorder{head: http.Header{}}
	broken := false
	app.ServeHTTP(w, s.WithContext(context.WithValue(r.Context(), aborted{}, &broken)))
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if broken {
		return nil, io.ErrUnexpectedEOF
	}
	if w.code == 0 {
		w.code = 200
	}
	return &http.Response{
		Status: strconv.Itoa(w.code) + " " + http.StatusText(w.code), StatusCode: w.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: w.head, Body: io.NopCloser(bytes.NewReader(w.body)), ContentLength: int64(len(w.body)), Request: r,
	}, nil
}
