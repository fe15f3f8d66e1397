// Package mc stands in for what the main program reaches outside: the command line, signals, the
// network listener and the end of the process.
package mc

import (
	"context"
	"errors"
	"fmt"
	"log"
	"net"
	"net/http"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// One process at a time.
var (
	mu   sync.Mutex
	done chan struct{}

	// Exited tells that the process ended, with Code; Killed that a signal nobody waited for did it.
	Exited, Killed bool
	Code           int

	// Busy are addresses already in use.
	Busy map[string]bool
	// Listened are the addresses that were listened on.
	Listened []string

	notify  []notified
	ignored map[os.Signal]bool
	servers []*Server
)

type notified struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Start runs the main function as a process and returns a channel that is closed at its end.
func Start(main func(), end func()) <-chan struct{} {
	mu.Lock()
	done = make(chan struct{})
	Exited, Killed, Code = false, false, 0
	notify, servers, ignored, Listened = nil, nil, map[os.Signal]bool{}, nil
	atEnd = end
	mu.Unlock()
	go func() {
		if p := rt.Catch(main); p != "" {
			finish(2, false)
			return
		}
		finish(0, false)
	}()
	return done
}

var atEnd func()

// finish ends the process: connections break and nothing it does later counts.
func finish(code int, killed bool) {
	mu.Lock()
	if Exited {
		mu.Unlock()
		return
	}
	Exited, Killed, Code = true, killed, code
	for _, s := range servers {
		s.breakAll()
	}
	mu.Unlock()
	if atEnd != nil {
		atEnd()
	}
	close(done)
}

// Exit ends the process.
func Exit(code int) {
	finish(code, false)
	select {}
}

func Fatal(v ...any)            { Exit(1) }
func Fatalf(f string, v ...any) { Exit(1) }
func Fatalln(v ...any)          { Exit(1) }
func Print(v ...any)            {}
func Printf(f string, v ...any) {}
func Println(v ...any)          {}

// Raise sends a signal to the process.
func Raise(sig os.Signal) {
	mu.Lock()
	some := ignored[sig]
	for _, n := range notify {
		for _, s := range n.sigs {
			if s == sig {
				some = true
				select {
				case n.c <- sig:
				default:
				}
				break
			}
		}
	}
	mu.Unlock()
	if !some {
		finish(-1, true)
	}
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if len(sigs) == 0 {
		sigs = []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGHUP}
	}
	mu.Lock()
	notify = append(notify, notified{c, sigs})
	mu.Unlock()
}

func Stop(c chan<- os.Signal) {
	mu.Lock()
	var r []notified
	for _, n := range notify {
		if n.c != c {
			r = append(r, n)
		}
	}
	notify = r
	mu.Unlock()
}

func without(ns []notified, sig os.Signal) (r []notified) {
	for _, n := range ns {
		var k []os.Signal
		for _, s := range n.sigs {
			if s != sig {
				k = append(k, s)
			}
		}
		r = append(r, notified{n.c, k})
	}
	return r
}

func Reset(sigs ...os.Signal) {
	mu.Lock()
	if len(sigs) == 0 {
		notify, ignored = nil, map[os.Signal]bool{}
	}
	for _, s := range sigs {
		notify = without(notify, s)
		delete(ignored, s)
	}
	mu.Unlock()
}

func Ignore(sigs ...os.Signal) {
	mu.Lock()
	for _, s := range sigs {
		notify = without(notify, s)
		ignored[s] = true
	}
	mu.Unlock()
}

// NotifyContext is like that of package signal.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	go func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}

// A context that ends on virtual time.
type timed struct {
	context.Context
	at      time.Time
	mu      *sync.Mutex
	expired *bool
}

func (t timed) Deadline() (time.Time, bool) { return t.at, true }
func (t timed) Err() error {
	err := t.Context.Err()
	t.mu.Lock()
	defer t.mu.Unlock()
	if err != nil && *t.expired {
		return context.DeadlineExceeded
	}
	return err
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	t := timed{ctx, rt.Now().Add(d), new(sync.Mutex), new(bool)}
	a := rt.AfterFunc(d, func() {
		if ctx.Err() == nil {
			t.mu.Lock()
			*t.expired = true
			t.mu.Unlock()
			cancel()
		}
	})
	return t, func() { a.Stop(); cancel() }
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, at.Sub(rt.Now()))
}

// Server stands in for the server of net/http.
type Server struct {
	Addr                                                      string
	Handler                                                   http.Handler
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
	ErrorLog                                                  *log.Logger
	BaseContext                                               func(net.Listener) context.Context
	ConnContext                                               func(ctx context.Context, c net.Conn) context.Context
	DisableGeneralOptionsHandler                              bool

	mu     sync.Mutex
	on     []*listener
	closed bool
	conns  []*conn
	hooks  []func()
	idle   chan struct{} // closed when the last connection ends during a shutdown
}

type conn struct {
	broken bool
	cancel context.CancelFunc
}

type listener struct {
	addr   string
	ctx    context.Context
	closed chan struct{}
	once   sync.Once
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (l *listener) Accept() (net.Conn, error) { <-l.closed; return nil, net.ErrClosed }
func (l *listener) Close() error              { l.once.Do(func() { close(l.closed) }); return nil }
func (l *listener) Addr() net.Addr            { return addr(l.addr) }

var errBusy = errors.New("bind: address already in use")

// Listen is like that of package net.
func Listen(network, a string) (net.Listener, error) {
	mu.Lock()
	defer mu.Unlock()
	if Busy[a] {
		return nil, fmt.Errorf("listen %s %s: %w", network, a, errBusy)
	}
	Listened = append(Listened, a)
	return &listener{addr: a, ctx: context.Background(), closed: make(chan struct{})}, nil
}

func ListenAndServe(a string, h http.Handler) error {
	return (&Server{Addr: a, Handler: h}).ListenAndServe()
}

func (s *Server) ListenAndServe() error {
	s.mu.Lock()
	c := s.closed
	s.mu.Unlock()
	if c {
		return http.ErrServerClosed
	}
	l, err := Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Server) Serve(nl net.Listener) error {
	l := nl.(*listener)
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		l.Close()
		return http.ErrServerClosed
	}
	if s.BaseContext != nil {
		l.ctx = s.BaseContext(l)
	}
	s.on = append(s.on, l)
	s.mu.Unlock()
	mu.Lock()
	servers = append(servers, s)
	mu.Unlock()
	<-l.closed
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return http.ErrServerClosed
	}
	return net.ErrClosed
}

func (s *Server) RegisterOnShutdown(f func()) { s.hooks = append(s.hooks, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

// Shutdown stops listening and waits for the requests being served.
func (s *Server) Shutdown(ctx context.Context) error {
	s.mu.Lock()
	s.closed = true
	for _, l := range s.on {
		l.Close()
	}
	for _, f := range s.hooks {
		go f()
	}
	if len(s.conns) == 0 {
		s.mu.Unlock()
		return nil
	}
	if s.idle == nil {
		s.idle = make(chan struct{})
	}
	idle := s.idle
	s.mu.Unlock()
	select {
	case <-idle:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// Close stops listening and breaks all connections.
func (s *Server) Close() error {
	s.mu.Lock()
	s.closed = true
	for _, l := range s.on {
		l.Close()
	}
	s.mu.Unlock()
	s.breakAll()
	return nil
}

func (s *Server) breakAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.broken = true
		c.cancel()
	}
	s.conns = nil
	if s.idle != nil {
		close(s.idle)
		s.idle = nil
	}
}

// Do sends a request to the process. It reports whether the connection was accepted, and whether
// the response came back.
func Do(a string, w http.ResponseWriter, r *http.Request) (accepted, answered bool) {
	mu.Lock()
	var s *Server
	var ctx context.Context
	if !Exited {
		for _, v := range servers {
			v.mu.Lock()
			for _, l := range v.on {
				if l.addr == a && !v.closed {
					s, ctx = v, l.ctx
				}
			}
			v.mu.Unlock()
		}
	}
	mu.Unlock()
	if s == nil {
		return false, false
	}
	ctx, cancel := context.WithCancel(ctx)
	c := &conn{cancel: cancel}
	s.mu.Lock()
	s.conns = append(s.conns, c)
	s.mu.Unlock()
	s.Handler.ServeHTTP(w, r.WithContext(ctx))
	cancel()
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.broken {
		return true, false
	}
	var rest []*conn
	for _, x := range s.conns {
		if x != c {
			rest = append(rest, x)
		}
	}
	s.conns = rest
	if len(rest) == 0 && s.idle != nil {
		close(s.idle)
		s.idle = nil
	}
	return true, true
}
