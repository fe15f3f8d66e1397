package hh

import (
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// timing interprets an explicit instant and a relative one. It returns the instant asked for, and
// whether the relative one is bad or bad but unneeded.
func timing(explicit *time.Time, rel string, now time.Time) (t *time.Time, bad, either bool) {
	if rel == "" {
		return explicit, false, false
	}
	d, err := time.ParseDuration(rel)
	if explicit != nil {
		return explicit, false, err != nil
	}
	if err != nil {
		return nil, true, false
	}
	x := now.Add(d)
	return &x, false, false
}

// HTTPCommit: a commit is sent.
func HTTPCommit() {
	now := setNow()
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	pt, pid := pathTopic(), name("pid", 1)
	part := rt.Arg("part", 0)
	d := doc{}
	state := int64(2)
	var nonce, topic string
	var sched *time.Time
	var pl any
	bad, either := false, false
	if part == 0 {
		k := rt.Choose("state", 4)
		switch k {
		case 1:
			d["state"] = nil
		case 2:
			state = rt.Int64("state.v", 0, 3)
			d["state"] = state
		case 3:
			state = rt.Int64("state.any", -1<<63, 1<<63-1)
			d["state"] = state
		}
		pk := 0
		if k < 3 {
			nonce = opt(d, "nonce", "nonce", 1)
			topic = opt(d, "topic", "topic", 1)
			pk = rt.Choose("payload", 3)
		}
		switch pk {
		case 1:
			d["payload"] = nil
		case 2:
			pl = name("payload.s", 2)
			d["payload"] = pl
		}
	} else {
		s := optTime(d, "scheduled", "scheduled")
		f := ""
		if rt.Choose("defer", 2) == 1 {
			f = duration("defer")
			d["defer"] = f
		}
		sched, bad, either = timing(s, f, now)
	}
	bad = bad || rt.Not(rt.And(state >= 0, state <= 3))
	var b []byte
	empty := len(d) == 0 && rt.Choose("nobody", 2) == 1
	if !empty {
		b = text(d)
	}
	code, body, ok := serve(request{method: "PATCH", path: prefix() + "/topics/" + pt + "/tasks/" + pid, body: b})
	if !ok {
		return
	}
	if bad {
		rt.Reach("rejected")
		rejected("C17", code, body, "an invalid commit")
		return
	}
	if either && code == 400 {
		rt.Assert(len(eng.calls) == 0, "C17: a rejected commit does not reach storage")
		return
	}
	rt.Reach("accepted")
	rt.Assert(code == 200, "C17: a valid commit is accepted")
	rt.Assert(len(eng.calls) == 1 && eng.calls[0].op == "Commit", "C17,C20: an accepted commit reaches storage once")
	if len(eng.calls) != 1 || eng.calls[0].commit == nil {
		return
	}
	m := eng.calls[0].commit
	rt.Assert(eng.calls[0].id == pid, "C17,C20: a commit targets the path's task")
	rt.Assert(m.State != nil && int64(*m.State) == state, "C17: a commit has the requested state, completed by default")
	rt.Assert(m.State != nil && rt.And(*m.State >= 0, *m.State <= 3), "C17: a commit has a valid state")
	rt.Assert(m.Nonce == nonce && m.Topic == topic, "C17: a commit keeps its nonce and topic")
	rt.Assert(same(m.Scheduled, sched), "C17: a commit is scheduled as requested")
	rt.Assert(payloadIs(m.Payload, pl), "C17: a commit keeps its payload")
	rt.Assert(m.Defer == "", "C17: a commit has no relative delay left")
}

// HTTPPromise: a promise is sent, to an endpoint with an id or without, by body or by query.
func HTTPPromise() {
	now := setNow()
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	pt := pathTopic()
	part := rt.Arg("part", 0)
	e := rt.Choose("endpoint", 3)
	pid := ""
	if e > 0 {
		pid = name("pid", 1)
	}
	d := doc{}
	id, cons, query := "", "", ""
	var deadline *time.Time
	bad, either := false, false
	add := func(k, v string) {
		if query != "" {
			query += "&"
		}
		query += k + "=" + v
	}
	// plain is a string that needs no escaping in a query
	plain := func(l string) string { return rt.StringIn(l, 1, 1, 'a', 'z') }
	x := ten(now)
	deadline = &x
	switch part {
	case 0: // in the body
		id = opt(d, "_id", "id", 1)
		cons = opt(d, "consumer", "consumer", 1)
		d["other"] = 1
	case 1:
		s := optTime(d, "deadline", "deadline")
		f := ""
		if rt.Choose("timeout", 2) == 1 {
			f = duration("timeout")
			d["timeout"] = f
		}
		t, b, ei := timing(s, f, now)
		bad, either = b, ei
		if t != nil {
			deadline = t
		}
	case 2: // in the query
		if rt.Choose("qid", 2) == 1 {
			id = plain("qid.s")
			add("_id", id)
		}
		if rt.Choose("qconsumer", 2) == 1 {
			cons = plain("qconsumer.s")
			add("consumer", cons)
		}
		f := ""
		if rt.Choose("qtimeout", 2) == 1 {
			f = [...]string{"", "30s", "abc", "-5m"}[rt.Choose("qtimeout.v", 4)]
			add("timeout", f)
		}
		var s *time.Time
		switch rt.Choose("qdeadline", 3) {
		case 1:
			add("deadline", "2031-02-03T04:05:06Z")
			y := time.Date(2031, 2, 3, 4, 5, 6, 0, time.UTC)
			s = &y
		case 2:
			add("deadline", "tomorrow")
			bad = true
		}
		t, b, ei := timing(s, f, now)
		bad, either = bad || b, ei
		if t != nil {
			deadline = t
		}
	}
	eid := id
	if eid == "" {
		eid = pid
	}
	bad = bad || pid != "" && eid != pid
	m := [...]string{"POST", "POST", "PUT"}[e]
	path := prefix() + "/topics/" + pt + "/promises"
	if e > 0 {
		path += "/" + pid
	}
	var b []byte
	if len(d) > 0 || rt.Choose("nobody", 2) == 0 {
		b = text(d)
	}
	code, body, ok := serve(request{method: m, path: path, query: query, body: b})
	if !ok {
		return
	}
	if bad {
		rt.Reach("rejected")
		rejected("C17", code, body, "an invalid promise")
		return
	}
	if either && code == 400 {
		rt.Assert(len(eng.calls) == 0, "C17: a rejected promise does not reach storage")
		return
	}
	rt.Reach("accepted")
	rt.Assert(code == 200, "C17: a valid promise is accepted")
	rt.Assert(len(eng.calls) == 1, "C17,C20: an accepted promise reaches storage once")
	if len(eng.calls) != 1 {
		return
	}
	c := eng.calls[0]
	switch {
	case e == 2:
		rt.Assert(c.op == "UpsertPromise", "C17,C20: PUT makes an unconditional promise")
	case eid != "":
		rt.Assert(c.op == "InsertPromise", "C17,C20: POST with an id makes a conditional promise")
	default:
		rt.Assert(c.op == "Poll" && c.topic == pt, "C17,C20: POST without an id polls the path's topic")
	}
	if c.promise == nil {
		rt.Assert(false, "C17: a promise reaches storage")
		return
	}
	p := c.promise
	rt.Assert(p.ID == eid, "C17: a promise has the requested or the path's id")
	rt.Assert(p.Consumer == cons, "C17: a promise keeps its consumer")
	rt.Assert(p.Deadline != nil && same(p.Deadline, deadline), "C17: a promise has the requested deadline, ten minutes by default")
	rt.Assert(p.Timeout == "", "C17: a promise has no relative timeout left")
}

func ten(now time.Time) time.Time { return now.Add(10 * time.Minute) }
