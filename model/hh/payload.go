package hh

import (
	"context"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/mf"
	_ "github.com/hyperonym/ratus/internal/zzverif/mg"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// document is a payload of a type of its own.
type document struct {
	Name string            `json:"name"`
	Tags []string          `json:"tags"`
	Opt  map[string]string `json:"opt,omitempty"`
	On   bool              `json:"on"`
	N    int               `json:"n"`
}

// tree is any JSON value, as encoding/json decodes it.
func tree(l string, depth int) any {
	n := 6
	if depth > 0 {
		n = 8
	}
	switch rt.Choose(l, n) {
	case 0:
		return nil
	case 1:
		return rt.StringIn(l+".s", 2, 2, 0, 0x7f)
	case 2:
		return rt.Bool(l + ".b")
	case 3:
		return [...]float64{0, 1.5, -9007199254740991, 1e21, 1e-7, 1 << 40, 9007199254740993}[rt.Choose(l+".f", 7)]
	case 4:
		return [...]string{"", "é\u2028<&>", "2006-01-02T15:04:05Z", "null", "10m"}[rt.Choose(l+".t", 5)]
	case 5:
		return map[string]any{}
	case 6:
		v := []any{}
		for i := rt.Choose(l+".len", 3); i > 0; i-- {
			v = append(v, tree(l+"l", depth-1))
		}
		return v
	}
	m := map[string]any{[...]string{"k", "", "a.b", "$x", "é\u2028<"}[rt.Choose(l+".k", 5)]: tree(l+"m", depth-1)}
	if rt.Choose(l+".2", 2) == 1 {
		m["_id"] = tree(l+"n", 0)
	}
	return m
}

func equal(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = rt.And(r, equal(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, in := y[k]
			if !in {
				return false
			}
			r = rt.And(r, equal(v, w))
		}
		return r
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return false
}

func openPayload(mongo bool) engine.Engine {
	var g engine.Engine
	var err error
	if mongo {
		g, err = mongodb.New(&mongodb.Config{URI: mm.URI(), Database: "ratus", Collection: "tasks", RetentionPeriod: time.Hour})
	} else {
		g, err = memdb.New(&memdb.Config{SnapshotPath: "/data/payload.db", SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
	}
	if err == nil {
		err = g.Open(context.Background())
	}
	if err != nil {
		panic(err)
	}
	app = appOver(g)
	return g
}

// arrived checks a payload as a client gets it.
func arrived(t *ratus.Task, err error, want any, what string) {
	rt.Assert(err == nil, "C32: "+what)
	if err != nil {
		rt.Stop()
	}
	if d, ok := want.(document); ok {
		var v document
		rt.Assert(t.Decode(&v) == nil, "C32: a payload can be decoded")
		r := rt.And(rt.And(v.Name == d.Name, v.On == d.On), rt.And(v.N == d.N, len(v.Tags) == len(d.Tags) && len(v.Opt) == len(d.Opt) && (v.Tags == nil) == (d.Tags == nil)))
		for i := range d.Tags {
			r = rt.And(r, i < len(v.Tags) && v.Tags[i] == d.Tags[i])
		}
		for k, x := range d.Opt {
			r = rt.And(r, v.Opt[k] == x)
		}
		rt.Assert(r, "C32: "+what+" with its payload")
		return
	}
	var v any
	rt.Assert(t.Decode(&v) == nil, "C32: a payload can be decoded")
	rt.Assert(equal(want, v), "C32: "+what+" with its payload")
	rt.Assert(equal(want, t.Payload), "C32: "+what+" with its payload as it is")
}

func anyDocument(l string) any {
	if rt.Arg("typed", 0) == 0 {
		return tree(l, rt.Arg("deep", 0))
	}
	d := document{Name: rt.StringIn(l+".name", 1, 1, 0, 0x7f), On: rt.Bool(l + ".on"), N: [...]int{0, -1, 1 << 53, 1<<63 - 1}[rt.Choose(l+".n", 4)]}
	if rt.Arg("mongo", 0) == 1 || d.N > 1<<53 {
		d.N = 7 // numbers are doubles
	}
	if rt.Choose(l+".tags", 2) == 1 {
		d.Tags = []string{}
		if rt.Choose(l+".tag", 2) == 1 {
			d.Tags = append(d.Tags, rt.StringIn(l+".tag.s", 1, 1, 0, 0x7f))
		}
	}
	if rt.Choose(l+".opt", 2) == 1 {
		d.Opt = map[string]string{"a.b": rt.StringIn(l+".opt.s", 1, 1, 0, 0x7f)}
	}
	return d
}

// HTTPPayload: a payload goes from a producer to a consumer and back.
func HTTPPayload() {
	bg := context.Background()
	pick := func(l string, n int) int {
		if rt.Arg("deep", 0) == 1 {
			return 0
		}
		return rt.Choose(l, n)
	}
	mongo := rt.Arg("mongo", 0) == 1
	rt.SetNow(time.Unix(1700000000, 0).UTC())
	mf.Reset()
	if mongo {
		mm.Reset()
	}
	g := openPayload(mongo)
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: origin()})
	if err != nil {
		panic(err)
	}
	p := anyDocument("p")
	t := &ratus.Task{ID: "i", Topic: "t", Payload: p}
	switch pick("put", 4) {
	case 0:
		_, err = c.InsertTask(bg, t)
	case 1:
		_, err = c.UpsertTask(bg, t)
	case 2:
		_, err = c.InsertTasks(bg, []*ratus.Task{t})
	case 3:
		_, err = c.UpsertTasks(bg, []*ratus.Task{t})
	}
	rt.Assert(err == nil, "C32: a task with any payload is accepted")
	if err != nil {
		return
	}
	restart := func() {
		if !mongo && (rt.Arg("deep", 0) == 1 || rt.Choose("restart", 2) == 1) {
			rt.Assert(g.Close(bg) == nil, "C32: a snapshot can hold any payload")
			g = openPayload(mongo)
		}
	}
	restart()
	x, err := c.Poll(bg, "t", &ratus.Promise{Timeout: "10m"})
	if err != nil {
		x = &ratus.Context{}
	}
	arrived(x.Task, err, p, "a task is claimed")
	want := p
	switch pick("commit", 3) {
	case 0:
	case 1:
		rt.Assert(x.Abstain().Commit() == nil, "C32: a claim is committed")
	case 2:
		q := any("q")
		if rt.Arg("again", 0) == 1 {
			q = anyDocument("q")
		}
		rt.Assert(x.SetPayload(q).Commit() == nil, "C32: any payload can be committed")
		if keep := q; keep != nil { // a commit without a payload keeps it
			want = q
		}
	}
	restart()
	switch pick("read", 2) {
	case 0:
		v, err := c.GetTask(bg, "i")
		arrived(v, err, want, "a task is read")
	case 1:
		vs, err := c.ListTasks(bg, "t", 10, 0)
		rt.Assert(err == nil && len(vs) == 1, "C32: a task is listed")
		if err == nil && len(vs) == 1 {
			arrived(vs[0], nil, want, "a task is listed")
		}
	}
	rt.Reach("payload: arrived")
}
