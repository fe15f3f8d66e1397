package hh

import (
	"context"
	"encoding/json"
	"errors"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// polled is a context of a task claimed through the client.
func polled(ctx context.Context, t *ratus.Task) *ratus.Context {
	eng.task = t
	x, err := newClient().Poll(ctx, "t", &ratus.Promise{Consumer: "c"})
	rt.Assert(err == nil && x != nil, "C23: a poll returns a context")
	if err != nil || x == nil {
		rt.Stop()
	}
	return x
}

// HTTPDeadline: the time limit of the context of a claimed task.
func HTTPDeadline() {
	now := time.Unix(1700000000, 123456789).UTC()
	rt.SetNow(now)
	t := &ratus.Task{ID: "k", Topic: "t", State: ratus.TaskStateActive, Nonce: name("nonce", 1)}
	const base = 1600000000
	from, to := time.Unix(base, 999999999).UTC(), rt.TimeIn("limit", base-1000, base+int64(rt.Arg("span", 5000)))
	if rt.Choose("which", 2) == 1 {
		from, to = rt.TimeIn("limit", base-int64(rt.Arg("span", 5000)), base+1000), from
	}
	o := rt.Choose("fields", 4)
	if o&1 == 1 {
		t.Consumed = &from
	}
	if o&2 == 2 {
		t.Deadline = &to
	}
	ctx, cancel := context.WithCancel(context.Background())
	type key struct{}
	x := polled(context.WithValue(ctx, key{}, 7), t)
	rt.Assert(sameTask(x.Task, t), "C23: the context carries the claimed task")
	rt.Assert(x.Value(key{}) == 7, "C23: the context derives from the caller's")
	lim, ok := x.Deadline()
	rt.Assert(ok == (o == 3), "C23: the context is limited exactly when the task is")
	if ok && o == 3 {
		rt.Reach("limited")
		d := to.Sub(from)
		left := time.Until(lim)
		rt.Dump(d)
		rt.Dump(left)
		if rt.Native() {
			rt.Assert(left <= d && left > d-20*time.Second, "C23: the limit is the task's deadline minus its claim time")
		} else {
			rt.Assert(left == d, "C23: the limit is the task's deadline minus its claim time")
		}
		if d <= 0 {
			rt.Reach("expired")
			rt.Assert(errors.Is(x.Err(), context.DeadlineExceeded), "C23: a context whose limit has passed is done")
			return
		}
		if d < time.Minute {
			return
		}
	}
	rt.Assert(x.Err() == nil, "C23: the context of a claimed task is live")
	cancel()
	rt.Assert(errors.Is(x.Err(), context.Canceled), "C23: the context ends with the caller's")
	rt.Assert(x.Commit() != nil && len(eng.calls) == 1, "C23: a canceled context does not commit")
}

// HTTPContext: setters and commits in any order.
func HTTPContext() {
	now := time.Unix(1700000000, 123456789).UTC()
	rt.SetNow(now)
	steps := rt.Arg("k", 2)
	t := &ratus.Task{ID: "k", Topic: "t", State: ratus.TaskStateActive, Nonce: name("nonce", 1)}
	if rt.Choose("limited", 2) == 1 {
		d := now.Add(time.Hour)
		t.Consumed, t.Deadline = &now, &d
	}
	x := polled(context.Background(), t)
	var w ratus.Commit
	sent, done := 0, false
	reset := func() {
		s := ratus.TaskStateCompleted
		w = ratus.Commit{Nonce: t.Nonce, State: &s}
	}
	state := func(s ratus.TaskState) { w.State = &s }
	reset()
	front = func(b []byte) {
		sent++
		var g ratus.Commit
		if err := json.Unmarshal(b, &g); err != nil {
			rt.Assert(false, "C23: a commit is sent as a commit")
			return
		}
		rt.Assert(rt.And(g.Nonce == w.Nonce, g.Topic == w.Topic), "C23: a commit sends the nonce and topic that were set up")
		rt.Assert(g.State != nil && *g.State == *w.State, "C23: a commit sends the state that was set up")
		rt.Assert(same(g.Scheduled, w.Scheduled) && g.Defer == w.Defer, "C23: a commit sends the schedule that was set up")
		rt.Assert(payloadIs(g.Payload, w.Payload), "C23: a commit sends the payload that was set up")
	}
	eng.onCommit = func(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
		rt.Assert(id == t.ID, "C23: a commit is for the claimed task")
		return eng.task, eng.err
	}
	commit := func(fail int) {
		eng.err = [...]error{nil, ratus.ErrServiceUnavailable, errAbort}[fail]
		before := sent
		err := x.Commit()
		if done {
			rt.Reach("again")
			rt.Assert(err == nil && sent == before, "C23: a commit that succeeded is not sent again")
			return
		}
		rt.Assert(sent == before+1, "C23: a commit that did not succeed yet is sent")
		rt.Assert((err == nil) == (fail == 0), "C23: a commit succeeds exactly when it was applied")
		if fail == 1 {
			rt.Assert(errors.Is(err, ratus.ErrServiceUnavailable), "C23: a failed commit returns its error")
		}
		done = fail == 0
	}
	for i := 0; i < steps; i++ {
		var y *ratus.Context
		switch rt.Choose("step", 14) {
		case 0:
			y = x.Reset()
			reset()
		case 1:
			w.Nonce = name("nonce", 1)
			y = x.SetNonce(w.Nonce)
		case 2:
			w.Topic = name("topic", 1)
			y = x.SetTopic(w.Topic)
		case 3:
			s := ratus.TaskState(rt.Int64("state", 0, 3))
			y = x.SetState(s)
			state(s)
		case 4:
			s := instant("scheduled")
			w.Scheduled = &s
			y = x.SetScheduled(s)
		case 5:
			w.Payload = name("payload", 1)
			y = x.SetPayload(w.Payload)
		case 6:
			w.Payload = nil
			y = x.SetPayload(nil)
		case 7:
			w.Defer = "1m30s"
			y = x.SetDefer(w.Defer)
		case 8:
			w.Nonce = ""
			y = x.Force()
		case 9:
			state(ratus.TaskStatePending)
			y = x.Abstain()
		case 10:
			state(ratus.TaskStateArchived)
			y = x.Archive()
		case 11:
			state(ratus.TaskStatePending)
			s := instant("rescheduled")
			w.Scheduled = &s
			y = x.Reschedule(s)
		case 12:
			state(ratus.TaskStatePending)
			w.Defer = "2h"
			y = x.Retry(w.Defer)
		case 13:
			commit(rt.Choose("fails", 3))
			continue
		}
		rt.Assert(y == x, "C23: setters return their context")
	}
	commit(0)
	commit(0)
}
