// Package hh holds the harnesses for the HTTP API: the real router, middlewares and controllers
// over an engine that records what reaches it.
package hh

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
	_ "github.com/hyperonym/ratus/internal/zzverif/mj"
	_ "github.com/hyperonym/ratus/internal/zzverif/mp"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// call is one operation that reached the engine.
type call struct {
	op            string
	topic, id     string
	limit, offset int
	task          *ratus.Task
	tasks         []*ratus.Task
	promise       *ratus.Promise
	commit        *ratus.Commit
}

// stub records operations and answers with what the harness configured.
type stub struct {
	calls    []call
	err      error
	task     *ratus.Task
	tasks    []*ratus.Task
	topic    *ratus.Topic
	topics   []*ratus.Topic
	promise  *ratus.Promise
	promises []*ratus.Promise
	updated  *ratus.Updated
	deleted  *ratus.Deleted
	onCall   func()
	onPoll   func(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error)
	onCommit func(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error)
}

// front sees the body of every request of the client.
var front func(body []byte)

// aborted is set when the connection of a request breaks before its response.
type aborted struct{}

// errAbort makes the stub break the connection.
var errAbort = errors.New("abort")

func abort(ctx context.Context, err error) error {
	if err == errAbort {
		*(ctx.Value(aborted{}).(*bool)) = true
	}
	return err
}

func (g *stub) rec(c call) {
	if c.task != nil {
		t := *c.task
		c.task = &t
	}
	if c.promise != nil {
		p := *c.promise
		c.promise = &p
	}
	if c.commit != nil {
		m := *c.commit
		c.commit = &m
	}
	if c.tasks != nil {
		ts := make([]*ratus.Task, len(c.tasks))
		for i, t := range c.tasks {
			if t != nil {
				u := *t
				ts[i] = &u
			}
		}
		c.tasks = ts
	}
	g.calls = append(g.calls, c)
	if g.onCall != nil {
		g.onCall()
	}
}

func (g *stub) Open(ctx context.Context) error    { g.rec(call{op: "Open"}); return g.err }
func (g *stub) Close(ctx context.Context) error   { g.rec(call{op: "Close"}); return g.err }
func (g *stub) Destroy(ctx context.Context) error { g.rec(call{op: "Destroy"}); return g.err }
func (g *stub) Ready(ctx context.Context) error   { g.rec(call{op: "Ready"}); return g.err }
func (g *stub) Chore(ctx context.Context) error   { g.rec(call{op: "Chore"}); return g.err }
func (g *stub) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	if g.onPoll != nil {
		t, err := g.onPoll(ctx, topic, p)
		return t, abort(ctx, err)
	}
	g.rec(call{op: "Poll", topic: topic, promise: p})
	return g.task, g.err
}
func (g *stub) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	if g.onCommit != nil {
		t, err := g.onCommit(ctx, id, m)
		return t, abort(ctx, err)
	}
	g.rec(call{op: "Commit", id: id, commit: m})
	return g.task, g.err
}
func (g *stub) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	g.rec(call{op: "ListTopics", limit: limit, offset: offset})
	return g.topics, g.err
}
func (g *stub) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	g.rec(call{op: "DeleteTopics"})
	return g.deleted, g.err
}
func (g *stub) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	g.rec(call{op: "GetTopic", topic: topic})
	return g.topic, g.err
}
func (g *stub) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g.rec(call{op: "DeleteTopic", topic: topic})
	return g.deleted, g.err
}
func (g *stub) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	g.rec(call{op: "ListTasks", topic: topic, limit: limit, offset: offset})
	return g.tasks, g.err
}
func (g *stub) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	g.rec(call{op: "InsertTasks", tasks: ts})
	return g.updated, g.err
}
func (g *stub) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	g.rec(call{op: "UpsertTasks", tasks: ts})
	return g.updated, g.err
}
func (g *stub) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g.rec(call{op: "DeleteTasks", topic: topic})
	return g.deleted, g.err
}
func (g *stub) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	g.rec(call{op: "GetTask", id: id})
	return g.task, g.err
}
func (g *stub) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	g.rec(call{op: "InsertTask", task: t})
	return g.updated, g.err
}
func (g *stub) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	g.rec(call{op: "UpsertTask", task: t})
	return g.updated, g.err
}
func (g *stub) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	g.rec(call{op: "DeleteTask", id: id})
	return g.deleted, g.err
}
func (g *stub) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	g.rec(call{op: "ListPromises", topic: topic, limit: limit, offset: offset})
	return g.promises, g.err
}
func (g *stub) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	g.rec(call{op: "DeletePromises", topic: topic})
	return g.deleted, g.err
}
func (g *stub) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	g.rec(call{op: "GetPromise", id: id})
	return g.promise, g.err
}
func (g *stub) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	g.rec(call{op: "InsertPromise", promise: p})
	return g.task, g.err
}
func (g *stub) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	g.rec(call{op: "UpsertPromise", promise: p})
	return g.task, g.err
}
func (g *stub) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	g.rec(call{op: "DeletePromise", id: id})
	return g.deleted, g.err
}

// The application under test: one engine, one router, as in the main program.
var (
	eng   = new(stub)
	pages = &config.PaginationConfig{MaxLimit: 100, MaxOffset: 10000}
	app   = newApp()
)

func newApp() http.Handler { return appOver(eng) }

func appOver(g engine.Engine) http.Handler {
	gin.SetMode(gin.ReleaseMode)
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(pages),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	}).Handler()
}

// recorder is a response writer.
type recorder struct {
	code int
	body []byte
	head http.Header
}

func (r *recorder) Header() http.Header { return r.head }
func (r *recorder) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}

type request struct {
	method, path, raw, query string
	body                     []byte
	reader                   io.Reader
}

// serve answers one request, and reports that the handler did not panic.
func serve(q request) (code int, body []byte, ok bool) {
	if q.reader == nil {
		q.reader = bytes.NewReader(q.body)
	}
	r := &http.Request{
		Method: q.method, URL: &url.URL{Path: q.path, RawPath: q.raw, RawQuery: q.query},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h",
		Body: io.NopCloser(q.reader), ContentLength: int64(len(q.body)),
	}
	r = r.WithContext(context.Background())
	w := &recorder{head: http.Header{}}
	p := rt.Catch(func() { app.ServeHTTP(w, r) })
	rt.Assert(p == "", "C21: the handler does not panic")
	if p != "" {
		return 0, nil, false
	}
	if w.code == 0 {
		w.code = 200
	}
	rt.Assert(w.code >= 200 && w.code < 600, "C21: the response has a status code")
	return w.code, w.body, true
}
