package hh

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/mp"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// endpoint is one operation of the API.
type endpoint struct {
	method, path, body, op string
	// kind of the result
	kind string
}

var endpoints = [...]endpoint{
	{"GET", "/topics", "", "ListTopics", "topics"},
	{"DELETE", "/topics", "", "DeleteTopics", "deleted"},
	{"GET", "/topics/t", "", "GetTopic", "topic"},
	{"DELETE", "/topics/t", "", "DeleteTopic", "deleted"},
	{"GET", "/topics/t/tasks", "", "ListTasks", "tasks"},
	{"POST", "/topics/t/tasks", `{"data":[{"_id":"i"}]}`, "InsertTasks", "updated"},
	{"PUT", "/topics/t/tasks", `{"data":[{"_id":"i"}]}`, "UpsertTasks", "updated"},
	{"DELETE", "/topics/t/tasks", "", "DeleteTasks", "deleted"},
	{"GET", "/topics/t/tasks/i", "", "GetTask", "task"},
	{"POST", "/topics/t/tasks/i", "{}", "InsertTask", "updated"},
	{"PUT", "/topics/t/tasks/i", "{}", "UpsertTask", "updated"},
	{"DELETE", "/topics/t/tasks/i", "", "DeleteTask", "deleted"},
	{"PATCH", "/topics/t/tasks/i", "{}", "Commit", "task"},
	{"GET", "/topics/t/promises", "", "ListPromises", "promises"},
	{"POST", "/topics/t/promises", "{}", "Poll", "task"},
	{"POST", "/topics/t/promises", `{"_id":"i"}`, "InsertPromise", "task"},
	{"DELETE", "/topics/t/promises", "", "DeletePromises", "deleted"},
	{"GET", "/topics/t/promises/i", "", "GetPromise", "promise"},
	{"POST", "/topics/t/promises/i", "{}", "InsertPromise", "task"},
	{"PUT", "/topics/t/promises/i", "{}", "UpsertPromise", "task"},
	{"DELETE", "/topics/t/promises/i", "", "DeletePromise", "deleted"},
	{"GET", "/readyz", "", "Ready", ""},
	{"POST", "/topics/t/tasks", `{"data":[]}`, "InsertTasks", "updated"},
	{"PUT", "/topics/t/tasks", `{}`, "UpsertTasks", "updated"},
}

func (e endpoint) request() request {
	return request{method: e.method, path: prefix() + e.path, body: []byte(e.body)}
}

type custom struct {
	msg string
	err error
}

func (c *custom) Error() string { return c.msg }
func (c *custom) Unwrap() error { return c.err }

// wrap wraps an error in one of the ways Go knows.
func wrap(err error, msg string, n int) error {
	for i := 0; i < n; i++ {
		switch rt.Choose("wrap", 6) {
		case 0:
			return err
		case 1:
			err = fmt.Errorf("%w: %s", err, msg)
		case 2:
			err = fmt.Errorf("%s: %w", msg, err)
		case 3:
			err = errors.Join(errors.New(msg), err)
		case 4:
			err = &custom{msg, err}
		case 5:
			err = fmt.Errorf("%w and %w", err, errors.New(msg))
		}
	}
	return err
}

var sentinels = [...]error{ratus.ErrBadRequest, ratus.ErrNotFound, ratus.ErrConflict, ratus.ErrClientClosedRequest, ratus.ErrInternalServerError, ratus.ErrServiceUnavailable}
var codes = [...]int{400, 404, 409, 499, 500, 503}

// HTTPErrors: the storage engine fails.
func HTTPErrors() {
	setNow()
	e := endpoints[rt.Choose("endpoint", len(endpoints))]
	m := rt.Arg("m", 2)
	msg := rt.StringIn("msg", m, m, ' ', '~')
	k := rt.Choose("kind", 9)
	var err error
	switch k {
	case 6:
		err = context.Canceled
	case 7:
		err = errors.New(msg)
	case 8:
		err = context.DeadlineExceeded
	default:
		err = sentinels[k]
	}
	err = wrap(err, msg, rt.Arg("n", 1))
	switch k {
	case 6:
		k = 3
	case 7, 8:
		k = 4
	}
	eng.err = err
	mp.Reset()
	code, body, ok := serve(e.request())
	if !ok {
		return
	}
	rt.Assert(mp.Sum("ratus_task_produced_count_total") == 0, "C26: a failed request produces nothing")
	rt.Assert(mp.Sum("ratus_task_consumed_count_total") == 0, "C26: a failed request consumes nothing")
	rt.Assert(mp.Sum("ratus_task_committed_count_total") == 0, "C26: a failed request commits nothing")
	rt.Assert(len(eng.calls) == 1 && eng.calls[0].op == e.op, "C20: a request is one operation")
	rt.Assert(code == codes[k], "C19: an error is answered with the status code of its kind")
	var v ratus.Error
	if x := json.Unmarshal(body, &v); x != nil {
		rt.Assert(false, "C19: the body of an error is an error object")
		return
	}
	rt.Reach("error")
	rt.Assert(v.Error.Code == codes[k], "C19: the error object carries the status code")
	rt.Assert(strings.HasPrefix(v.Error.Message, err.Error()), "C19: the error object carries the message")
	checkErr(v.Err(), k, v.Error.Message)
}

// checkErr checks what a client makes of an error of kind k.
func checkErr(x error, k int, msg string) {
	if x == nil {
		rt.Assert(false, "C19: an error stays an error")
		return
	}
	for i, s := range sentinels {
		rt.Assert(errors.Is(x, s) == (i == k), "C19: an error keeps its kind")
	}
	t := x.Error()
	rt.Assert(rt.Or(strings.HasPrefix(t, msg), strings.HasSuffix(t, msg)), "C19: the text of an error contains the message")
}

// HTTPErr: the client is told of an error.
func HTTPErr() {
	var v ratus.Error
	k := rt.Choose("code", len(codes)+1)
	if k < len(codes) {
		v.Error.Code = codes[k]
	} else {
		v.Error.Code = int(rt.Int64("code.any", 400, 599))
		for _, c := range codes {
			rt.Assume(v.Error.Code != c)
		}
	}
	m := rt.Choose("m", rt.Arg("m", 3)+1)
	s := rt.StringIn("msg", m, m, 0, 255)
	switch rt.Choose("form", 3) {
	case 1:
		s = sentinels[rt.Choose("prefix", len(sentinels))].Error() + s
	case 2:
		p := sentinels[rt.Choose("prefix", len(sentinels))].Error()
		s = p + ": " + p + s
	}
	v.Error.Message = s
	rt.Reach("told")
	checkErr(v.Err(), k, s)
}

// result configures what the engine answers with, arbitrary in the part that arg "part" says.
func result(e endpoint) {
	n := rt.Arg("n", 1)
	t := &ratus.Task{ID: "i", Topic: "t"}
	p := &ratus.Promise{ID: "i"}
	switch e.kind {
	case "updated":
		eng.updated = &ratus.Updated{Created: rt.Int64("created", 0, 1<<62), Updated: rt.Int64("updated", 0, 1<<61)}
		if e.op == "InsertTask" || e.op == "InsertTasks" {
			eng.updated.Updated = 0 // nothing is updated by an insert
		}
	case "deleted":
		eng.deleted = &ratus.Deleted{Deleted: rt.Int64("deleted", 0, 1<<62)}
	case "topic":
		eng.topic = &ratus.Topic{Name: name("name", n), Count: rt.Int64("count", 0, 1<<62)}
	case "topics":
		for i := rt.Choose("len", 3); i > 0; i-- {
			eng.topics = append(eng.topics, &ratus.Topic{Name: name("name", n), Count: rt.Int64("count", 0, 1<<62)})
		}
	case "tasks":
		for i := rt.Choose("len", 3); i > 0; i-- {
			eng.tasks = append(eng.tasks, anyTask(t, n, i-1))
		}
	case "task":
		eng.task = anyTask(t, n, rt.Choose("form", 4))
	case "promises":
		for i := rt.Choose("len", 3); i > 0; i-- {
			eng.promises = append(eng.promises, anyPromise(p, n))
		}
	case "promise":
		eng.promise = anyPromise(p, n)
	}
}

func maybeTime(l string) *time.Time {
	if !rt.Bool(l + "?") {
		return nil
	}
	t := instant(l)
	return &t
}

func anyTask(base *ratus.Task, n, form int) *ratus.Task {
	t := *base
	switch form {
	case 0:
		t.ID, t.Topic = name("id", n), name("topic", n)
		t.State = ratus.TaskState(rt.Int64("state", 0, 3))
	case 1:
		t.Nonce, t.Producer, t.Consumer = name("nonce", n), name("producer", n), name("consumer", n)
		t.Payload = name("payload", n)
	case 2:
		t.Scheduled, t.Consumed = maybeTime("scheduled"), maybeTime("consumed")
	case 3:
		t.Produced, t.Deadline = maybeTime("produced"), maybeTime("deadline")
	}
	return &t
}

func anyPromise(base *ratus.Promise, n int) *ratus.Promise {
	p := *base
	p.ID, p.Consumer = name("id", n), name("consumer", n)
	p.Deadline = maybeTime("deadline")
	return &p
}

func sameTask(a, b *ratus.Task) bool {
	if a == nil || b == nil {
		return a == b
	}
	s, _ := b.Payload.(string)
	return payloadIs(a.Payload, b.Payload) && (b.Payload == nil || a.Payload == s) &&
		rt.And(rt.And(rt.And(a.ID == b.ID, a.Topic == b.Topic), rt.And(a.State == b.State, a.Nonce == b.Nonce)), rt.And(a.Producer == b.Producer, a.Consumer == b.Consumer)) &&
		same(a.Produced, b.Produced) && same(a.Scheduled, b.Scheduled) && same(a.Consumed, b.Consumed) && same(a.Deadline, b.Deadline)
}

func samePromise(a, b *ratus.Promise) bool {
	if a == nil || b == nil {
		return a == b
	}
	return rt.And(a.ID == b.ID, a.Consumer == b.Consumer) && same(a.Deadline, b.Deadline)
}

func decode(body []byte, v any) {
	err := json.Unmarshal(body, v)
	rt.Assert(err == nil, "C20: the body of an answer is the result")
	if err != nil {
		rt.Stop()
	}
}

// HTTPResults: the storage engine succeeds.
func HTTPResults() {
	setNow()
	lo, hi := 0, len(endpoints)
	if g := rt.Arg("group", 0); g > 0 {
		lo, hi = (g-1)*6, g*6
	}
	e := endpoints[lo+rt.Choose("endpoint", hi-lo)]
	result(e)
	mp.Reset()
	code, body, ok := serve(e.request())
	if !ok {
		return
	}
	rt.Assert(len(eng.calls) == 1 && eng.calls[0].op == e.op, "C20: a request is one operation")
	created := eng.updated != nil && eng.updated.Created > 0
	if created {
		rt.Assert(code == 201, "C19: an answer that something was created has status 201")
	} else {
		rt.Assert(code == 200, "C19: an answer that nothing was created has status 200")
	}
	produced, consumed, committed := 0.0, 0.0, 0.0
	switch e.kind {
	case "updated":
		var v ratus.Updated
		decode(body, &v)
		rt.Assert(v == *eng.updated, "C20: the answer is the operation's result")
		produced = float64(v.Created + v.Updated)
		if len(eng.calls[0].tasks) == 0 && eng.calls[0].task == nil {
			return // no engine creates or updates anything for an empty list
		}
	case "deleted":
		var v ratus.Deleted
		decode(body, &v)
		rt.Assert(v == *eng.deleted, "C20: the answer is the operation's result")
	case "topic":
		var v ratus.Topic
		decode(body, &v)
		rt.Assert(v == *eng.topic, "C20: the answer is the operation's result")
	case "topics":
		var v ratus.Topics
		decode(body, &v)
		rt.Assert(len(v.Data) == len(eng.topics), "C20: the answer is the operation's result")
		for i := range v.Data {
			rt.Assert(*v.Data[i] == *eng.topics[i], "C20: the answer is the operation's result")
		}
	case "task":
		var v ratus.Task
		decode(body, &v)
		rt.Assert(sameTask(&v, eng.task), "C20: the answer is the operation's result")
		switch e.op {
		case "Poll", "InsertPromise", "UpsertPromise":
			consumed = 1
		case "Commit":
			committed = 1
		}
	case "tasks":
		var v ratus.Tasks
		decode(body, &v)
		rt.Assert(len(v.Data) == len(eng.tasks), "C20: the answer is the operation's result")
		for i := range v.Data {
			rt.Assert(sameTask(v.Data[i], eng.tasks[i]), "C20: the answer is the operation's result")
		}
	case "promise":
		var v ratus.Promise
		decode(body, &v)
		rt.Assert(samePromise(&v, eng.promise), "C20: the answer is the operation's result")
	case "promises":
		var v ratus.Promises
		decode(body, &v)
		rt.Assert(len(v.Data) == len(eng.promises), "C20: the answer is the operation's result")
		for i := range v.Data {
			rt.Assert(samePromise(v.Data[i], eng.promises[i]), "C20: the answer is the operation's result")
		}
	}
	rt.Reach("success " + e.op)
	rt.Assert(mp.Sum("ratus_task_produced_count_total") == produced, "C26: the produced counter grows by the number of tasks created or updated")
	rt.Assert(mp.Sum("ratus_task_consumed_count_total") == consumed, "C26: the consumed counter grows by one for each claim")
	rt.Assert(mp.Sum("ratus_task_committed_count_total") == committed, "C26: the committed counter grows by one for each commit")
	if consumed == 1 {
		d, set := mp.Last("ratus_task_schedule_delay_seconds")
		t := eng.task
		rt.Assert(set == (t.Scheduled != nil && t.Consumed != nil), "C26: the schedule delay is set when it is known")
		if set && t.Scheduled != nil && t.Consumed != nil {
			rt.Assert(d == t.Consumed.Sub(*t.Scheduled).Seconds(), "C26: the schedule delay is the claim time minus the scheduled time")
		}
	}
}

// HTTPAny: the engine answers with any combination of results and errors.
func HTTPAny() {
	setNow()
	e := endpoints[rt.Choose("endpoint", len(endpoints))]
	if rt.Choose("result", 2) == 1 {
		eng.task, eng.topic, eng.promise = &ratus.Task{ID: "i", Topic: "t"}, &ratus.Topic{Name: "t"}, &ratus.Promise{ID: "i"}
		eng.tasks, eng.topics, eng.promises = []*ratus.Task{nil, {}}, []*ratus.Topic{nil, {}}, []*ratus.Promise{nil, {}}
		switch rt.Choose("form", 3) {
		case 0:
			eng.updated, eng.deleted = &ratus.Updated{Created: rt.Int64("created", -1<<63, 1<<63-1), Updated: rt.Int64("updated", -1<<63, 1<<63-1)}, &ratus.Deleted{Deleted: rt.Int64("deleted", -1<<63, 1<<63-1)}
		case 1:
			eng.updated, eng.deleted = new(ratus.Updated), new(ratus.Deleted)
			eng.task.Consumed, eng.task.Scheduled = maybeTime("consumed"), maybeTime("scheduled")
			eng.task.State = ratus.TaskState(rt.Int64("state", -1<<63, 1<<63-1))
		case 2:
			eng.updated, eng.deleted = new(ratus.Updated), new(ratus.Deleted)
			eng.task = new(ratus.Task)
			eng.task.Payload = doc{"x": []any{1.5, nil, true}}
		}
	}
	n := 4
	if eng.task == nil {
		n = 3 // no result without an error
	}
	switch rt.Choose("err", n) {
	case 0:
		eng.err = ratus.ErrConflict
	case 1:
		eng.err = errors.New("x")
	case 2:
		eng.err = context.Canceled
	}
	code, _, ok := serve(e.request())
	if ok {
		rt.Reach("answered")
		rt.Assert((code >= 400) == (eng.err != nil), "C19: a request fails exactly when its operation does")
	}
}

// HTTPAnywhere: any method and path.
func HTTPAnywhere() {
	setNow()
	eng.updated = &ratus.Updated{Created: 1}
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	eng.topic = &ratus.Topic{Name: "t"}
	eng.promise = &ratus.Promise{ID: "i"}
	eng.deleted = &ratus.Deleted{Deleted: 1}
	m := [...]string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "X", ""}[rt.Choose("method", 9)]
	n := rt.Arg("n", 4)
	path := "/"
	for i := 0; i < n; i++ {
		switch rt.Choose("segment", 8) {
		case 0:
			path += "/"
		case 1:
			path += "topics"
		case 2:
			path += "tasks"
		case 3:
			path += "promises"
		case 4:
			path += "v1/topics"
		case 5:
			path += rt.StringIn("byte", 1, 1, 1, 127)
		case 6:
			path += [...]string{"livez", "%", "\xff", "healthz"}[rt.Choose("text", 4)]
		case 7:
			i = n
		}
	}
	if n := rt.Arg("bytes", 0); n > 0 {
		path += rt.StringIn("bytes", n, n, 1, 255)
	}
	u, err := url.ParseRequestURI(path)
	if err != nil {
		return // the HTTP server rejects it
	}
	_, _, ok := serve(request{method: m, path: u.Path, raw: u.RawPath, query: u.RawQuery, body: []byte(`{"_id":"i","topic":"t"}`)})
	if ok {
		rt.Reach("answered")
	}
}

// HTTPQuery: any query.
func HTTPQuery() {
	setNow()
	eng.updated = &ratus.Updated{Created: 1}
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	n := rt.Arg("n", 3)
	q := [...]string{"", "limit=", "_id=", "timeout="}[rt.Choose("start", 4)] + rt.StringIn("query", n, n, 1, 255)
	e := [...]int{0, 4, 12, 14, 19}[rt.Choose("endpoint", 5)]
	r := endpoints[e].request()
	r.query, r.body = q, nil
	_, _, ok := serve(r)
	if ok {
		rt.Reach("answered")
	}
}
