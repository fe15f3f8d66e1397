package hh

import (
	"context"
	"errors"
	"unicode/utf8"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// trips counts the requests that reached the server.
var trips int

func newClient() *ratus.Client {
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: origin()})
	if err != nil {
		panic(err)
	}
	return c
}

// anyName is an arbitrary name of up to n bytes, without plus signs.
func anyName(l string, n int) string {
	k := rt.Choose(l+".n", n+1)
	if k == 0 {
		return ""
	}
	s := rt.StringIn(l, k, k, 0, 255)
	for i := 0; i < k; i++ {
		rt.Assume(s[i] != '+')
	}
	rt.Assume(utf8.ValidString(s))
	return s
}

// pageNumber is a number near the bounds.
func pageNumber(l string, max int64) int {
	if rt.Choose(l+".high", 2) == 1 {
		return int(rt.Int64(l, max-2, max+1))
	}
	return int(rt.Int64(l, -1, 11))
}

// clientCalls is how many operations the client offers.
const clientCalls = 22

// HTTPClient: the client calls an operation.
func HTTPClient() {
	now := setNow()
	n := rt.Arg("n", 1)
	lo, hi := 0, clientCalls
	if g := rt.Arg("group", 0); g > 0 {
		lo, hi = (g-1)*8, g*8
		if hi > clientCalls {
			hi = clientCalls
		}
	}
	o := lo + rt.Choose("call", hi-lo)
	c := newClient()
	ctx := context.Background()
	form := 0
	switch o {
	case 5, 6, 9, 10, 12, 14, 17, 18:
		form = rt.Choose("fields", 5)
	}
	var id, topic string
	var limit, offset int
	names := true // either the names or the fields are arbitrary
	switch o {
	case 0, 4, 13:
		limit, offset = 7, 8
		if o == 0 || rt.Choose("page", 2) == 1 {
			limit, offset, names = pageNumber("limit", 100), pageNumber("offset", 10000), false
		}
	case 5, 6, 9, 10, 12, 14, 17, 18:
		names = form == 4
	}
	switch o {
	case 2, 3, 4, 7, 13, 14, 15:
		topic = "t"
		if names {
			topic = anyName("topic", n)
		}
	case 8, 9, 10, 11, 12, 16, 17, 18, 19:
		id = "i"
		if names {
			id = anyName("id", n)
		}
	}
	want := call{id: id, topic: topic, limit: limit, offset: offset}
	bad := limit < 0 || limit > 100 || offset < 0 || offset > 10000
	switch o {
	case 0, 4, 13:
		if limit == 0 {
			want.limit = 10
		}
	}
	// no endpoint has an empty name at its end
	missing := false
	switch o {
	case 2, 3:
		missing = topic == ""
	case 8, 9, 10, 11, 12, 16, 17, 18, 19:
		missing = id == ""
	}
	eng.deleted = &ratus.Deleted{Deleted: rt.Int64("deleted", 0, 1<<62)}
	eng.updated = &ratus.Updated{Created: rt.Int64("created", 0, 1<<62), Updated: rt.Int64("updated", 0, 1<<62)}
	eng.topic = &ratus.Topic{Name: "x", Count: rt.Int64("count", 0, 1<<62)}
	eng.topics = []*ratus.Topic{{Name: "y"}, eng.topic}
	eng.task = &ratus.Task{ID: "k", Topic: "l", State: 1, Nonce: "n", Payload: "p", Consumed: &now, Deadline: &now}
	eng.tasks = []*ratus.Task{{ID: "z"}, eng.task}
	eng.promise = &ratus.Promise{ID: "k", Consumer: "c", Deadline: &now}
	eng.promises = []*ratus.Promise{{ID: "z"}, eng.promise}

	var t *ratus.Task
	var p *ratus.Promise
	var m *ratus.Commit
	switch o {
	case 5, 6, 9, 10:
		t = &ratus.Task{ID: id, Topic: "t"}
		if o < 9 {
			t.ID = "i"
		}
		e := *anyTask(t, 1, form)
		*t = e
		if o >= 9 {
			t.ID = id
		}
		if e.Produced == nil {
			e.Produced = &now
		}
		if e.Scheduled == nil {
			e.Scheduled = &now
			if form == 3 {
				d := now.Add(90 * 1000000000)
				t.Defer, e.Scheduled = "1m30s", &d
			}
		}
		e.ID = t.ID
		want.task = &e
		want.tasks = []*ratus.Task{&e}
	case 12:
		m = new(ratus.Commit)
		st := ratus.TaskStateCompleted
		e := ratus.Commit{State: &st}
		switch form {
		case 0:
			s2 := ratus.TaskState(rt.Int64("state", 0, 3))
			m.State, e.State = &s2, &s2
		case 1:
			m.Nonce, m.Topic, m.Payload = name("nonce", n), name("mtopic", n), name("payload", n)
			e.Nonce, e.Topic, e.Payload = m.Nonce, m.Topic, m.Payload
		case 2:
			m.Scheduled = maybeTime("scheduled")
			e.Scheduled = m.Scheduled
		case 3:
			d := now.Add(90 * 1000000000)
			m.Defer, e.Scheduled = "1m30s", &d
		}
		want.commit = &e
	case 14, 17, 18:
		d := now.Add(10 * 60 * 1000000000)
		p = &ratus.Promise{ID: id}
		e := ratus.Promise{ID: id, Deadline: &d}
		switch form {
		case 0:
			p.Consumer = name("consumer", n)
			e.Consumer = p.Consumer
		case 1:
			if x := maybeTime("deadline"); x != nil {
				p.Deadline, e.Deadline = x, x
			}
		case 2:
			d := now.Add(90 * 1000000000)
			p.Timeout, e.Deadline = "1m30s", &d
		case 3:
			if o == 14 {
				p.ID = "w" // a promise of a task, made through its topic
				e.ID = "w"
			}
		}
		want.promise = &e
	}
	fail := rt.Choose("fails", 2) == 1
	if fail {
		eng.err = ratus.ErrServiceUnavailable
	}

	var err error
	okay := false
	result := func(ok bool) {
		okay = true
		rt.Assert(ok, "C20: a call returns the operation's result")
	}
	trips = 0
	switch o {
	case 0:
		var v []*ratus.Topic
		want.op = "ListTopics"
		if v, err = c.ListTopics(ctx, limit, offset); err == nil {
			result(len(v) == 2 && *v[0] == *eng.topics[0] && *v[1] == *eng.topic)
		}
	case 1:
		var v *ratus.Deleted
		want.op = "DeleteTopics"
		if v, err = c.DeleteTopics(ctx); err == nil {
			result(*v == *eng.deleted)
		}
	case 2:
		var v *ratus.Topic
		want.op = "GetTopic"
		if v, err = c.GetTopic(ctx, topic); err == nil {
			result(*v == *eng.topic)
		}
	case 3:
		var v *ratus.Deleted
		want.op = "DeleteTopic"
		if v, err = c.DeleteTopic(ctx, topic); err == nil {
			result(*v == *eng.deleted)
		}
	case 4:
		var v []*ratus.Task
		want.op = "ListTasks"
		if v, err = c.ListTasks(ctx, topic, limit, offset); err == nil {
			result(len(v) == 2 && sameTask(v[0], eng.tasks[0]) && sameTask(v[1], eng.task))
		}
	case 5:
		var v *ratus.Updated
		want.op = "InsertTasks"
		if v, err = c.InsertTasks(ctx, []*ratus.Task{t}); err == nil {
			result(*v == *eng.updated)
		}
	case 6:
		var v *ratus.Updated
		want.op = "UpsertTasks"
		if v, err = c.UpsertTasks(ctx, []*ratus.Task{t}); err == nil {
			result(*v == *eng.updated)
		}
	case 7:
		var v *ratus.Deleted
		want.op = "DeleteTasks"
		if v, err = c.DeleteTasks(ctx, topic); err == nil {
			result(*v == *eng.deleted)
		}
	case 8:
		var v *ratus.Task
		want.op = "GetTask"
		if v, err = c.GetTask(ctx, id); err == nil {
			result(sameTask(v, eng.task))
		}
	case 9:
		var v *ratus.Updated
		want.op = "InsertTask"
		if v, err = c.InsertTask(ctx, t); err == nil {
			result(*v == *eng.updated)
		}
	case 10:
		var v *ratus.Updated
		want.op = "UpsertTask"
		if v, err = c.UpsertTask(ctx, t); err == nil {
			result(*v == *eng.updated)
		}
	case 11:
		var v *ratus.Deleted
		want.op = "DeleteTask"
		if v, err = c.DeleteTask(ctx, id); err == nil {
			result(*v == *eng.deleted)
		}
	case 12:
		var v *ratus.Task
		want.op = "Commit"
		if v, err = c.PatchTask(ctx, id, m); err == nil {
			result(sameTask(v, eng.task))
		}
	case 13:
		var v []*ratus.Promise
		want.op = "ListPromises"
		if v, err = c.ListPromises(ctx, topic, limit, offset); err == nil {
			result(len(v) == 2 && samePromise(v[0], eng.promises[0]) && samePromise(v[1], eng.promise))
		}
	case 14:
		var v *ratus.Task
		want.op = "Poll"
		if form == 3 {
			want.op, want.topic = "InsertPromise", ""
		}
		if v, err = c.PostPromises(ctx, topic, p); err == nil {
			result(sameTask(v, eng.task))
		}
	case 15:
		var v *ratus.Deleted
		want.op = "DeletePromises"
		if v, err = c.DeletePromises(ctx, topic); err == nil {
			result(*v == *eng.deleted)
		}
	case 16:
		var v *ratus.Promise
		want.op = "GetPromise"
		if v, err = c.GetPromise(ctx, id); err == nil {
			result(samePromise(v, eng.promise))
		}
	case 17:
		var v *ratus.Task
		want.op, want.id = "InsertPromise", ""
		if v, err = c.InsertPromise(ctx, p); err == nil {
			result(sameTask(v, eng.task))
		}
	case 18:
		var v *ratus.Task
		want.op, want.id = "UpsertPromise", ""
		if v, err = c.UpsertPromise(ctx, p); err == nil {
			result(sameTask(v, eng.task))
		}
	case 19:
		var v *ratus.Deleted
		want.op = "DeletePromise"
		if v, err = c.DeletePromise(ctx, id); err == nil {
			result(*v == *eng.deleted)
		}
	case 20:
		if err = c.GetLiveness(ctx); err == nil {
			result(true)
		}
		rt.Assert(okay && trips == 1 && len(eng.calls) == 0, "C20: liveness does not depend on the engine")
		return
	case 21:
		want.op = "Ready"
		if err = c.GetReadiness(ctx); err == nil {
			result(true)
		}
	}
	rt.Assert(trips == 1, "C20: a call is one request")
	if missing || bad {
		rt.Reach("refused")
		rt.Assert(len(eng.calls) == 0 && !okay, "C20: a call that is refused does nothing")
		if missing {
			rt.Assert(errors.Is(err, ratus.ErrNotFound), "C20: an empty name that has no endpoint is not found")
		} else {
			rt.Assert(errors.Is(err, ratus.ErrBadRequest), "C18: a listing outside of the bounds is a bad request")
		}
		return
	}
	rt.Assert(len(eng.calls) == 1, "C20: a call is one operation")
	if len(eng.calls) != 1 {
		return
	}
	rt.Assert(okay == !fail, "C20: a call succeeds exactly when its operation does")
	if fail {
		rt.Assert(errors.Is(err, ratus.ErrServiceUnavailable), "C19: the client's error has the kind of the engine's")
	}
	g := eng.calls[0]
	rt.Reach(want.op)
	rt.Assert(g.op == want.op, "C20: a call is the corresponding operation")
	switch o {
	case 9, 10:
		rt.Assert(sameTask(g.task, want.task), "C20: a call hands over its task unchanged")
	case 5, 6:
		rt.Assert(len(g.tasks) == 1 && sameTask(g.tasks[0], want.tasks[0]), "C20: a call hands over its tasks unchanged")
	case 12:
		rt.Assert(g.id == id, "C20: a call is about the same id")
		rt.Assert(g.commit.Nonce == want.commit.Nonce && g.commit.Topic == want.commit.Topic && *g.commit.State == *want.commit.State &&
			same(g.commit.Scheduled, want.commit.Scheduled) && payloadIs(g.commit.Payload, want.commit.Payload), "C20: a call hands over its commit unchanged")
	case 14, 17, 18:
		rt.Assert(g.topic == want.topic, "C20: a call is about the same topic")
		rt.Assert(samePromise(g.promise, want.promise), "C20: a call hands over its promise unchanged")
	default:
		rt.Assert(rt.And(g.id == want.id, g.topic == want.topic), "C20: a call is about the same id and topic")
		rt.Assert(rt.And(g.limit == want.limit, g.offset == want.offset), "C20: a call asks for the same page")
	}
}
