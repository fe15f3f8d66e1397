// Package hx holds the harnesses that drive the real storage engines.
package hx

import (
	"context"
	"errors"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

var ctx = context.Background()

// retention is the retention period of the engines.
var retention = 72 * time.Hour

var periods = []time.Duration{0, 1, 999999, time.Millisecond, 1500 * time.Millisecond, time.Minute, 25 * time.Hour, 366 * 24 * time.Hour, 200 * 365 * 24 * time.Hour}

func pickRetention() {
	retention = 72 * time.Hour
	if rt.Arg("ret", 0) > 0 {
		retention = periods[rt.Choose("retention", len(periods))]
	}
}

// mem opens the real in-memory engine without snapshots.
func mem() engine.Engine {
	onMongo = false
	pickRetention()
	g, err := memdb.New(&memdb.Config{RetentionPeriod: retention})
	must(err)
	must(g.Open(ctx))
	return g
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var ids = []string{"a", "b", "c", "d"}

func pickID(name string, n int) string {
	k := rt.Choose(name, n+1)
	if k == n {
		return "zz"
	}
	return ids[k]
}

func find(ts []*ratus.Task, id string) *ratus.Task {
	for _, t := range ts {
		if t.ID == id {
			return t
		}
	}
	return nil
}

// opt says which parts of a task are left open.
type opt struct {
	topics   int // longest topic name in bytes
	states   []ratus.TaskState
	nilSched bool
	nilCons  bool
	nilDead  bool
	nonce    int  // longest nonce
	full     bool // topic names of any bytes
}

func (o opt) name(n string) string {
	if o.full && !onMongo {
		return rt.String(n, 1, o.topics)
	}
	return rt.Name(n, 1, o.topics)
}

var allStates = []ratus.TaskState{ratus.TaskStatePending, ratus.TaskStateActive, ratus.TaskStateCompleted, ratus.TaskStateArchived}

func tp(name string, nilable bool) *time.Time {
	if nilable && rt.Choose(name+".nil", 2) == 1 {
		return nil
	}
	t := tm(name)
	return &t
}

// task makes an arbitrary stored task with the given id.
func task(p, id string, o opt) *ratus.Task {
	t := &ratus.Task{ID: id}
	t.Topic = o.name(p + ".topic")
	if len(o.states) == 1 {
		t.State = o.states[0]
	} else {
		t.State = o.states[rt.Choose(p+".state", len(o.states))]
	}
	t.Nonce = rt.String(p+".nonce", 0, o.nonce)
	least := 0
	if onMongo && rt.Arg("lean", 0) == 1 {
		least = 1
	}
	t.Producer = rt.String(p+".producer", least, 1)
	t.Consumer = rt.String(p+".consumer", least, 1)
	t.Produced = tp(p+".produced", false)
	t.Scheduled = tp(p+".scheduled", o.nilSched)
	t.Consumed = tp(p+".consumed", o.nilCons)
	t.Deadline = tp(p+".deadline", o.nilDead)
	t.Payload = rt.String(p+".payload", 1, 1)
	return t
}

// fill stores n arbitrary tasks and returns what was stored.
func fill(g engine.Engine, n int, o opt) []*ratus.Task {
	if onMongo {
		return fillMongo(n, o)
	}
	return fillIn(g, n, o)
}

func fillIn(g engine.Engine, n int, o opt) []*ratus.Task {
	var ts []*ratus.Task
	for i := 0; i < n; i++ {
		t := task("t"+ids[i], ids[i], o)
		u, err := g.UpsertTask(ctx, t)
		must(err)
		if u.Created != 1 {
			panic("fill")
		}
		c := *t
		ts = append(ts, &c)
	}
	return ts
}

func promise() *ratus.Promise {
	return &ratus.Promise{Consumer: rt.String("p.consumer", 0, 2), Deadline: tp("p.deadline", false)}
}

func teq(a, b *time.Time) bool { return rt.TimeEq(a, b) }

func same(a, b *ratus.Task) bool {
	r := rt.And(a.ID == b.ID, a.Topic == b.Topic)
	r = rt.And(r, rt.And(a.State == b.State, a.Nonce == b.Nonce))
	r = rt.And(r, rt.And(a.Producer == b.Producer, a.Consumer == b.Consumer))
	r = rt.And(r, rt.And(teq(a.Produced, b.Produced), teq(a.Scheduled, b.Scheduled)))
	r = rt.And(r, rt.And(teq(a.Consumed, b.Consumed), teq(a.Deadline, b.Deadline)))
	return rt.And(r, a.Payload == b.Payload)
}

// unchanged asserts that the stored tasks are exactly ts, except those in skip.
func unchanged(g engine.Engine, ts []*ratus.Task, skip string, msg string) {
	for _, t := range ts {
		if t.ID == skip {
			continue
		}
		s, err := g.GetTask(ctx, t.ID)
		if err != nil {
			rt.Assert(false, msg+": task is gone")
			continue
		}
		rt.Assert(same(s, t), msg)
	}
}

func isErr(err, target error) bool { return err != nil && errors.Is(err, target) }

// see* record what the code under test answered; native runs must answer the same.
func seeErr(err error) { rt.Obs("err", errKind(err)) }

func seeTask(t *ratus.Task) {
	if t == nil {
		rt.Obs("task", "nil")
		return
	}
	rt.Obs("id", t.ID)
	rt.Obs("topic", t.Topic)
	rt.Obs("state", int(t.State))
	rt.Obs("producer", t.Producer)
	rt.Obs("consumer", t.Consumer)
	seeTime("produced", t.Produced)
	seeTime("scheduled", t.Scheduled)
	seeTime("consumed", t.Consumed)
	seeTime("deadline", t.Deadline)
}

func seeTime(n string, t *time.Time) {
	if t == nil {
		rt.Obs(n, "nil")
		return
	}
	rt.Obs(n, t.Unix())
	rt.Obs(n, t.Nanosecond())
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, ratus.ErrBadRequest):
		return "bad request"
	case errors.Is(err, ratus.ErrNotFound):
		return "not found"
	case errors.Is(err, ratus.ErrConflict):
		return "conflict"
	}
	return "error"
}
