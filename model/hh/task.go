package hh

import (
	"encoding/json"
	"errors"
	"strconv"
	"time"
	"unicode/utf8"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type doc = map[string]any

func text(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// name is an arbitrary string of exactly n printable ASCII bytes other than the path separator.
func name(label string, n int) string {
	s := rt.StringIn(label, n, n, 0x21, 0x7e)
	for i := 0; i < n; i++ {
		rt.Assume(s[i] != '/')
	}
	return s
}

// opt sets doc[key] to nothing, the empty string or an arbitrary string, and returns it.
func opt(d doc, key, label string, n int) string {
	switch rt.Choose(label, 3) {
	case 0:
		return ""
	case 1:
		d[key] = ""
		return ""
	}
	s := name(label+".s", n)
	d[key] = s
	return s
}

func instant(label string) time.Time { return rt.TimeIn(label, -62135596800+86400, 253402300799-86400) }

// optTime sets doc[key] to nothing, null or an arbitrary instant.
func optTime(d doc, key, label string) *time.Time {
	switch rt.Choose(label, 3) {
	case 0:
		return nil
	case 1:
		d[key] = nil
		return nil
	}
	t := instant(label + ".t")
	d[key] = t
	return &t
}

// duration is the text of a duration, mostly valid.
func duration(label string) string {
	switch rt.Choose(label, 6) {
	case 0:
		return ""
	case 1:
		return "1h15m30.918273645s"
	case 2:
		return [...]string{"abc", "1", "1x", "1.5.5s", "s", "-", "9223372036854775808ns", " 1s", "1 s"}[rt.Choose(label+".bad", 9)]
	case 3:
		return rt.StringIn(label+".sym", 2, 2, '0', 'z')
	}
	s := [...]string{"", "-", "+"}[rt.Choose(label+".sign", 3)]
	n := rt.Choose(label+".n", 3) + 1
	s += rt.StringIn(label+".d", n, n, '0', '9')
	return s + [...]string{"ns", "us", "µs", "ms", "s", "m", "h"}[rt.Choose(label+".u", 7)]
}

func setNow() time.Time {
	now := rt.TimeIn("now", 0, 200000000000)
	rt.SetNow(now)
	return now
}

func same(a, b *time.Time) bool { return rt.TimeEq(a, b) }

func payloadIs(v any, want any) bool {
	switch w := want.(type) {
	case nil:
		return v == nil
	case string:
		s, ok := v.(string)
		return ok && s == w
	}
	return true
}

// rejected checks that a request got status 400 and did nothing.
func rejected(tag string, code int, body []byte, what string) {
	rt.Assert(code == 400, tag+": "+what+" gets status 400")
	rt.Assert(len(eng.calls) == 0, tag+": "+what+" does not reach storage")
	if code != 400 {
		return
	}
	var e ratus.Error
	if err := json.Unmarshal(body, &e); err != nil {
		rt.Assert(false, "C19: the body of an error is an error object")
		return
	}
	rt.Assert(e.Error.Code == 400, "C19: the error object carries the status code")
	rt.Assert(errors.Is(e.Err(), ratus.ErrBadRequest), "C19: status 400 becomes a bad request error")
}

// want is what a document asks for.
type want struct {
	bad, either         bool
	id, topic           string
	state               int64
	nonce, prod, cons   string
	produced, scheduled *time.Time
	consumed, deadline  *time.Time
	payload             any
}

func (w *want) checkTask(t *ratus.Task) {
	rt.Assert(t != nil, "C16: a stored task is not null")
	if t == nil {
		return
	}
	rt.Assert(rt.And(t.ID == w.id, t.ID != ""), "C16: a stored task has the requested non-empty id")
	rt.Assert(rt.And(t.Topic == w.topic, t.Topic != ""), "C16: a stored task has the requested or the path's topic")
	rt.Assert(int64(t.State) == w.state, "C16: a stored task has the requested state")
	rt.Assert(rt.And(t.State >= 0, t.State <= 3), "C16: a stored task has a valid state")
	rt.Assert(t.Nonce == w.nonce && t.Producer == w.prod && t.Consumer == w.cons, "C16: a stored task keeps its nonce, producer and consumer")
	rt.Assert(t.Produced != nil && same(t.Produced, w.produced), "C16: a stored task has the given production time or that of acceptance")
	rt.Assert(t.Scheduled != nil && same(t.Scheduled, w.scheduled), "C16: a stored task is scheduled as requested")
	rt.Assert(same(t.Consumed, w.consumed) && same(t.Deadline, w.deadline), "C16: a stored task keeps its claim and deadline")
	rt.Assert(payloadIs(t.Payload, w.payload), "C16: a stored task keeps its payload")
	rt.Assert(t.Defer == "", "C16: a stored task has no relative delay left")
}

// taskDoc builds a task document and what it asks for. part says which fields vary.
func taskDoc(l string, part int, pid, ptopic string, now time.Time) (doc, *want) {
	d := doc{}
	w := &want{produced: &now, scheduled: &now, id: pid, topic: ptopic}
	switch part {
	case 0:
		k := rt.Choose(l+"state", 3)
		switch k {
		case 1:
			w.state = rt.Int64(l+"state.v", 0, 3)
			d["state"] = w.state
		case 2:
			w.state = rt.Int64(l+"state.any", -1<<63, 1<<63-1)
			d["state"] = w.state
			d["_id"], d["topic"], w.id, w.topic = "i", "t", "i", "t"
		}
		if k < 2 {
			if s := opt(d, "_id", l+"id", 1); s != "" {
				w.id = s
			}
			if s := opt(d, "topic", l+"topic", 1); s != "" {
				w.topic = s
			}
		}
	case 1:
		if t := optTime(d, "produced", l+"produced"); t != nil {
			w.produced = t
		}
		s := optTime(d, "scheduled", l+"scheduled")
		if s != nil {
			w.scheduled = s
		}
		if rt.Choose(l+"defer", 2) == 1 {
			f := duration(l + "defer")
			d["defer"] = f
			if f != "" {
				x, err := time.ParseDuration(f)
				switch {
				case s != nil:
					w.either = err != nil
				case err != nil:
					w.bad = true
				default:
					y := now.Add(x)
					w.scheduled = &y
				}
			}
		}
		d["_id"] = pid
		if pid == "" {
			d["_id"], w.id = "i", "i"
		}
	case 2:
		w.nonce = opt(d, "nonce", l+"nonce", 1)
		w.prod = opt(d, "producer", l+"producer", 1)
		w.cons = opt(d, "consumer", l+"consumer", 1)
		w.consumed = optTime(d, "consumed", l+"consumed")
		w.deadline = optTime(d, "deadline", l+"deadline")
		if rt.Choose(l+"payload", 2) == 1 {
			w.payload = name(l+"payload.s", 2)
			d["payload"] = w.payload
		}
		d["unknown"] = "x"
		if pid == "" {
			d["_id"], w.id = "i", "i"
		}
	}
	w.bad = w.bad || w.id == "" || w.topic == "" || pid != "" && w.id != pid || rt.Not(rt.And(w.state >= 0, w.state <= 3))
	return d, w
}

func pathTopic() string {
	if rt.Choose("ptopic", 2) == 0 {
		return ""
	}
	return name("ptopic.s", 1)
}

func prefix() string {
	if rt.Choose("prefix", 2) == 0 {
		return ""
	}
	return "/v1"
}

// HTTPTask: one task is posted or put.
func HTTPTask() {
	now := setNow()
	eng.updated = &ratus.Updated{Created: 1}
	pt, pid := pathTopic(), name("pid", 1)
	d, w := taskDoc("", rt.Arg("part", 0), pid, pt, now)
	m := [...]string{"POST", "PUT"}[rt.Choose("method", 2)]
	code, body, ok := serve(request{method: m, path: prefix() + "/topics/" + pt + "/tasks/" + pid, body: text(d)})
	if !ok {
		return
	}
	if w.bad {
		rt.Reach("rejected")
		rejected("C16", code, body, "a task that cannot be well formed")
		return
	}
	if w.either && code == 400 {
		rt.Assert(len(eng.calls) == 0, "C16: a rejected task does not reach storage")
		return
	}
	rt.Reach("accepted")
	rt.Assert(code == 201, "C16: a well formed task is accepted")
	rt.Assert(len(eng.calls) == 1, "C16,C20: an accepted task reaches storage once")
	if len(eng.calls) != 1 {
		return
	}
	c := eng.calls[0]
	rt.Assert(c.op == map[string]string{"POST": "InsertTask", "PUT": "UpsertTask"}[m], "C16,C20: the operation is the requested one")
	w.checkTask(c.task)
}

// HTTPTasks: a batch of tasks is posted or put.
func HTTPTasks() {
	now := setNow()
	eng.updated = &ratus.Updated{Created: 1}
	pt := pathTopic()
	n := rt.Arg("n", 2)
	var ws []*want
	list := []any{}
	bad, either := false, false
	for i := 0; i < n; i++ {
		l := strconv.Itoa(i) + "."
		if i > 0 && rt.Choose(l+"null", 2) == 1 {
			list = append(list, nil)
			bad = true
			continue
		}
		part := rt.Arg("part", 0)
		if i == 0 && rt.Arg("easy", 0) == 1 {
			part = 9
		}
		d, w := taskDoc(l, part, "", pt, now)
		if part == 9 {
			d["_id"], d["topic"], w.id, w.topic, w.bad = "z", "t", "z", "t", false
		}
		list = append(list, d)
		ws = append(ws, w)
		bad = bad || w.bad
		either = either || w.either
	}
	d := doc{"data": list}
	if n == 0 {
		switch rt.Choose("empty", 3) {
		case 0:
			delete(d, "data")
		case 1:
			d["data"] = nil
		}
	}
	m := [...]string{"POST", "PUT"}[rt.Choose("method", 2)]
	code, body, ok := serve(request{method: m, path: "/topics/" + pt + "/tasks", body: text(d)})
	if !ok {
		return
	}
	if bad {
		rt.Reach("rejected")
		rejected("C16", code, body, "a batch with a task that cannot be well formed")
		return
	}
	if either && code == 400 {
		rt.Assert(len(eng.calls) == 0, "C16: a rejected batch does not reach storage")
		return
	}
	rt.Reach("accepted")
	rt.Assert(code == 201, "C16: a well formed batch is accepted")
	rt.Assert(len(eng.calls) == 1, "C16,C20: an accepted batch reaches storage once")
	if len(eng.calls) != 1 {
		return
	}
	c := eng.calls[0]
	rt.Assert(c.op == map[string]string{"POST": "InsertTasks", "PUT": "UpsertTasks"}[m], "C16,C20: the operation is the requested one")
	rt.Assert(len(c.tasks) == len(ws), "C16: every task of an accepted batch reaches storage")
	for i := range c.tasks {
		if i < len(ws) {
			ws[i].checkTask(c.tasks[i])
		}
	}
}

// failing yields some text, then an error.
type failing struct {
	b   []byte
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

// malformed lists request bodies no object can be read from.
var malformed = [...]string{
	"[]", "1", "true", `"x"`, "{", "[", `{"_id":`, `{"_id":"a"`, `{"_id":"a",}`, "nul", "x", `{"state":"x"}`, `{"state":1.5}`, `{"state":{}}`, `{"state":null,"nonce":1}`,
	`{"produced":"x","deadline":"x","scheduled":"x"}`, `{"produced":1,"deadline":1,"scheduled":1}`, `{"_id":1,"nonce":1}`, `{"data":{},"_id":1,"nonce":1}`, `{"data":[1],"_id":1,"nonce":1}`, `{"data":[{"_id":1}],"_id":1,"nonce":1}`,
	`{"defer":1,"timeout":1,"data":1}`, "{]", "{\"a\" 1}", "\x00",
}

// HTTPMalformed: bodies that are no valid documents.
func HTTPMalformed() {
	setNow()
	eng.updated = &ratus.Updated{Created: 1}
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	b := rt.Choose("body", len(malformed)+3)
	q := request{}
	switch {
	case b < len(malformed):
		q.body = []byte(malformed[b])
	case b == len(malformed):
		q.reader = &failing{err: errors.New("connection reset")}
	case b == len(malformed)+1:
		q.reader = &failing{b: []byte(`{"_id":"i"`), err: errors.New("connection reset")}
	default:
		q.body = nil
	}
	e := rt.Choose("endpoint", 8)
	q.method = [...]string{"POST", "PUT", "POST", "PUT", "PATCH", "POST", "POST", "PUT"}[e]
	q.path = [...]string{"/topics/t/tasks/i", "/topics/t/tasks/i", "/topics/t/tasks", "/topics/t/tasks", "/topics/t/tasks/i", "/topics/t/promises", "/topics/t/promises/i", "/topics/t/promises/i"}[e]
	if b == len(malformed)+2 && e >= 4 {
		return // an empty body is a valid promise or commit
	}
	if b < len(malformed) {
		// documents that only other kinds of objects are malformed for
		switch malformed[b] {
		case `{"state":"x"}`, `{"state":1.5}`, `{"state":{}}`:
			if e == 2 || e == 3 || e >= 5 {
				return
			}
		case `{"state":null,"nonce":1}`:
			if e == 2 || e == 3 || e >= 5 {
				return
			}
		case `{"produced":"x","deadline":"x","scheduled":"x"}`, `{"produced":1,"deadline":1,"scheduled":1}`, `{"_id":1,"nonce":1}`:
			if e == 2 || e == 3 {
				return
			}
		}
	}
	code, body, ok := serve(q)
	if !ok {
		return
	}
	rt.Reach("malformed")
	rejected("C16,C17", code, body, "a malformed body")
}

// HTTPBytes: names that are arbitrary bytes.
func HTTPBytes() {
	setNow()
	eng.updated = &ratus.Updated{Created: 1}
	eng.task = &ratus.Task{ID: "i", Topic: "t"}
	eng.topic = &ratus.Topic{Name: "t"}
	eng.promise = &ratus.Promise{ID: "i"}
	eng.deleted = &ratus.Deleted{Deleted: 1}
	n := rt.Arg("n", 2)
	s := rt.StringIn("s", n, n, 1, 255)
	for i := 0; i < n; i++ {
		rt.Assume(s[i] != '/')
	}
	e := rt.Choose("endpoint", 10)
	q := request{body: []byte("{}")}
	q.method = [...]string{"GET", "DELETE", "GET", "PUT", "POST", "DELETE", "PATCH", "POST", "POST", "PUT"}[e]
	a, b := [...]string{"/topics/", "/topics/", "/topics/", "/topics/x/tasks/", "/topics/x/tasks/", "/topics/x/tasks/", "/topics/x/tasks/", "/topics/", "/topics/x/promises/", "/topics/x/promises/"}[e],
		[...]string{"", "", "/tasks", "", "", "", "", "/promises", "", ""}[e]
	q.path = a + s + b
	code, body, ok := serve(q)
	if !ok {
		return
	}
	if utf8.ValidString(s) {
		rt.Reach("valid")
		rt.Assert(code < 300, "C21: a request with valid names is answered")
		rt.Assert(len(eng.calls) == 1, "C20: a request with valid names reaches storage once")
		return
	}
	rt.Reach("invalid")
	rejected("C16,C17", code, body, "a name that is not valid UTF-8")
}
