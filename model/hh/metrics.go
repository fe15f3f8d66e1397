package hh

import (
	"errors"
	"strconv"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/mp"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

const (
	mProduced  = "ratus_task_produced_count_total"
	mConsumed  = "ratus_task_consumed_count_total"
	mCommitted = "ratus_task_committed_count_total"
	mDelay     = "ratus_task_schedule_delay_seconds"
	mExecution = "ratus_task_execution_duration_seconds"
	mRequest   = "ratus_request_duration_seconds"
)

// HTTPMetrics: requests for arbitrary tasks; every metric counts, under the labels of its task.
func HTTPMetrics() {
	now := time.Unix(1700000000, 0).UTC()
	rt.SetNow(now)
	took := time.Duration(rt.Int64("took", 0, 3600)) * time.Second
	end := now.Add(took)
	eng.onCall = func() { rt.SetNow(end) } // the time passes in the engine
	mp.Reset()
	pt := name("ptopic", 1)
	kind := rt.Choose("kind", 4)
	fail := rt.Choose("fail", 2) == 1
	if fail {
		eng.err = errors.New("fault")
	}
	pre, path, pattern, method := prefix(), "/topics/"+pt, "/topics/:topic", ""
	body := doc{}
	part := func(l string) string {
		if rt.Choose(l+"?", 2) == 0 {
			return ""
		}
		return name(l, 1)
	}
	t := &ratus.Task{ID: "i", Topic: name("topic", 1), Producer: part("producer"), Consumer: part("consumer")}
	if kind >= 2 && !fail {
		if rt.Choose("times", 2) == 1 {
			s, c := now.Add(time.Duration(rt.Int64("scheduled", -1e6, 1e6))*time.Second), now.Add(time.Duration(rt.Int64("consumed", -1e6, 1e6))*time.Second+time.Second/2)
			t.Scheduled, t.Consumed = &s, &c
		}
		eng.task = t
	}
	u := &ratus.Updated{Created: rt.Int64("created", 0, 1<<31)}
	var first *ratus.Task
	one := true
	switch kind {
	case 0, 1: // produced
		method = [...]string{"POST", "PUT"}[rt.Choose("put", 2)]
		if method == "PUT" {
			u.Updated = rt.Int64("updated", 0, 1<<31)
		}
		if !fail {
			eng.updated = u
		}
		d := doc{"_id": "i", "producer": t.Producer}
		first = &ratus.Task{Topic: pt, Producer: t.Producer}
		if kind == 0 {
			path, pattern, body = path+"/tasks/i", pattern+"/tasks/:id", d
			if rt.Choose("own", 2) == 1 {
				d["topic"], first.Topic = t.Topic, t.Topic
			}
			break
		}
		path, pattern = path+"/tasks", pattern+"/tasks"
		ds := []any{d}
		if rt.Choose("second", 2) == 1 {
			ds = append(ds, doc{"_id": "j", "producer": t.Producer})
		}
		body = doc{"data": ds}
	case 2: // claimed
		switch rt.Choose("claim", 4) {
		case 0:
			method, path, pattern = "POST", path+"/promises", pattern+"/promises"
		case 1:
			method, path, pattern, body = "POST", path+"/promises", pattern+"/promises", doc{"_id": "i"}
		case 2:
			method, path, pattern = "POST", path+"/promises/i", pattern+"/promises/:id"
		case 3:
			method, path, pattern = "PUT", path+"/promises/i", pattern+"/promises/:id"
		}
	case 3: // committed
		method, path, pattern = "PATCH", path+"/tasks/i", pattern+"/tasks/:id"
		one = rt.Choose("nonce", 2) == 1
		if one {
			body = doc{"nonce": "n"}
		}
	}
	code, _, ok := serve(request{method: method, path: pre + path, body: text(body)})
	if !ok {
		return
	}
	rt.Assert(len(eng.calls) == 1, "C26: a request is one operation")
	produced, consumed, committed := 0.0, 0.0, 0.0
	if !fail {
		switch kind {
		case 0, 1:
			produced = float64(u.Created + u.Updated)
		case 2:
			consumed = 1
		case 3:
			committed = 1
		}
	}
	rt.Assert(mp.Sum(mProduced) == produced, "C26: the produced counter grows by the number of tasks created or updated")
	rt.Assert(mp.Sum(mConsumed) == consumed, "C26: the consumed counter grows by one for each claim")
	rt.Assert(mp.Sum(mCommitted) == committed, "C26: the committed counter grows by one for each commit")
	if first != nil {
		rt.Assert(mp.Sum(mProduced, "topic", first.Topic, "producer", first.Producer) == produced, "C26: what is produced counts for its topic and producer")
	}
	labels := []string{"topic", t.Topic, "producer", t.Producer, "consumer", t.Consumer}
	rt.Assert(mp.Sum(mConsumed, labels...) == consumed, "C26: a claim counts for its topic, producer and consumer")
	rt.Assert(mp.Sum(mCommitted, labels...) == committed, "C26: a commit counts for its topic, producer and consumer")
	d, set := mp.Last(mDelay)
	known := consumed == 1 && t.Scheduled != nil
	rt.Assert(set == known, "C26: the schedule delay is set when a claim tells it")
	if set && known {
		rt.Reach("metrics: delay")
		d, set = mp.Last(mDelay, labels...)
		rt.Assert(set && d == t.Consumed.Sub(*t.Scheduled).Seconds(), "C26: the schedule delay is the claim time minus the scheduled time")
	}
	d, set = mp.Last(mExecution)
	known = committed == 1 && t.Consumed != nil
	rt.Assert(set == known, "C26: the execution time is set when a commit tells it")
	if set && known {
		rt.Reach("metrics: execution")
		d, set = mp.Last(mExecution, labels...)
		rt.Assert(set && d == end.Sub(*t.Consumed).Seconds(), "C26: the execution time is the commit time minus the claim time")
	}
	rt.Assert(mp.Count(mRequest) == 1, "C26: each request is observed once")
	rt.Assert(mp.Count(mRequest, "topic", pt, "method", method, "endpoint", pre+pattern, "status_code", strconv.Itoa(code)) == 1, "C26: a request is observed with its topic, method, endpoint and status")
	rt.Assert(mp.Sum(mRequest) == took.Seconds(), "C26: a request is observed with the time it took")
	rt.Reach("metrics: " + strconv.Itoa(kind))
}
