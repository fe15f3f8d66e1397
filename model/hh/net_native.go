//go:build !verifsym

package hh

import (
	"bytes"
	"context"
	"io"
	"log"
	"net"
	"net/http"
	"sync"
)

var server = sync.OnceValue(func() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &http.Server{ErrorLog: log.New(io.Discard, "", 0)}
	s.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		trips++
		if front != nil {
			b, _ := io.ReadAll(r.Body)
			front(b)
			r.Body = io.NopCloser(bytes.NewReader(b))
		}
		broken := false
		v := &recorder{head: http.Header{}}
		app.ServeHTTP(v, r.WithContext(context.WithValue(r.Context(), aborted{}, &broken)))
		if broken {
			panic(http.ErrAbortHandler)
		}
		for k, x := range v.head {
			w.Header()[k] = x
		}
		w.WriteHeader(v.code)
		w.Write(v.body)
	})
	go s.Serve(l)
	return "http://" + l.Addr().String()
})

func origin() string { return server() }

// capturing makes f answer every request, wherever it goes.
func capturing(f func(s *sent) (code int, location string)) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var scheme, host string
	dial := func(s string) func(ctx context.Context, network, addr string) (net.Conn, error) {
		return func(ctx context.Context, network, addr string) (net.Conn, error) {
			mu.Lock()
			scheme, host = s, addr
			mu.Unlock()
			return net.Dial("tcp", l.Addr().String())
		}
	}
	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = nil
	t.DialContext = dial("http")
	t.DialTLSContext = dial("https")
	s := &http.Server{ErrorLog: log.New(io.Discard, "", 0)}
	s.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		x := &sent{scheme: scheme, host: host, method: r.Method, uri: r.RequestURI, header: r.Header, body: b}
		mu.Unlock()
		code, to := f(x)
		if to != "" {
			w.Header().Set("Location", to)
		}
		w.WriteHeader(code)
	})
	go s.Serve(l)
}
