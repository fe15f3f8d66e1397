package hx

import (
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

func PollMem() { poll(mem()) }

// poll: one poll from an arbitrary state of up to n tasks.
func poll(g engine.Engine) {
	n := rt.Arg("n", 2)
	ts := fill(g, n, opt{topics: rt.Arg("topics", 2), states: allStates[:rt.Arg("states", 4)], nilSched: rt.Arg("nil", 0) == 1, nonce: 1, full: rt.Arg("full", 0) == 1})
	now := tm("now")
	rt.SetNow(now)
	topic := rt.Name("topic", 1, rt.Arg("topics", 2))
	p := promise()
	got, err := g.Poll(ctx, topic, p)
	seeErr(err)
	seeTask(got)
	if err != nil {
		rt.Reach("poll: nothing")
		rt.Assert(isErr(err, ratus.ErrNotFound), "C01: a poll without a due task reports not found")
		unchanged(g, ts, "", "C01: a poll that fails changes nothing")
		for _, t := range ts {
			if t.State == ratus.TaskStatePending && t.Scheduled != nil {
				due := !t.Scheduled.Add(time.Millisecond).After(now)
				rt.Assert(rt.Not(rt.And(due, t.Topic == topic)), "C02: a poll finds a due task of the topic")
			}
		}
		return
	}
	rt.Reach("poll: claimed")
	var t *ratus.Task
	for _, x := range ts {
		if x.ID == got.ID {
			t = x
		}
	}
	rt.Assert(t != nil, "C01: the polled task was stored")
	if t == nil {
		return
	}
	rt.Assert(t.Topic == topic, "C01: the polled task belongs to the polled topic")
	rt.Assert(t.State == ratus.TaskStatePending, "C01: the polled task was pending")
	if t.Scheduled != nil {
		rt.Assert(!t.Scheduled.After(now), "C01: the scheduled time of the polled task has arrived")
	}
	w := *t
	w.State = ratus.TaskStateActive
	w.Consumer = p.Consumer
	w.Deadline = p.Deadline
	w.Consumed = &now
	w.Nonce = got.Nonce
	rt.Assert(same(got, &w), "C01: the claimed task has the promise's data and keeps its other fields")
	rt.Assert(rt.And(got.Nonce != "", got.Nonce != t.Nonce), "C01: the claimed task has a fresh nonce")
	s, err := g.GetTask(ctx, t.ID)
	rt.Assert(err == nil, "C01: the claimed task is stored")
	if err == nil {
		rt.Assert(same(s, &w), "C01: the claimed task is stored as returned")
	}
	unchanged(g, ts, t.ID, "C01: a poll changes no other task")
	for _, x := range ts {
		if x.ID != t.ID && x.State == ratus.TaskStatePending && x.Scheduled != nil && t.Scheduled != nil {
			earlier := x.Scheduled.Add(time.Millisecond).Before(*t.Scheduled)
			rt.Assert(rt.Not(rt.And(earlier, x.Topic == topic)), "C02: the polled task has the earliest scheduled time")
		}
	}
}
