package hh

import (
	"context"
	"errors"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/mf"
	_ "github.com/hyperonym/ratus/internal/zzverif/mg"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// lifeTask is what is known of an accepted task.
type lifeTask struct {
	topic   string
	state   ratus.TaskState
	sched   int64 // seconds after the start
	dead    int64
	claim   int // the current claim, from 1
	payload string
}

type claimed struct {
	id    string
	nonce string
	n     int
}

type life struct {
	g      engine.Engine
	c      *ratus.Client
	now    int64
	tasks  map[string]*lifeTask
	claims []claimed
}

const lifeStart = 1700000000

var lifeIDs = []string{"a", "b"}

func (l *life) open() {
	g, err := memdb.New(&memdb.Config{SnapshotPath: "/data/life.db", SnapshotInterval: time.Hour, RetentionPeriod: 10000 * time.Hour})
	if err == nil {
		err = g.Open(context.Background())
	}
	if err != nil {
		panic(err)
	}
	l.g = g
	app = appOver(g)
}

// wait moves the clock on.
func (l *life) wait(d int64) {
	l.now += d
	rt.SetNow(time.Unix(lifeStart+l.now, 0).UTC())
}

// put sends a task in one of the ways of a producer.
func (l *life) put(id string, how int) {
	t := &ratus.Task{ID: id, Topic: "t", Payload: "p" + id}
	sched := l.now
	switch how {
	case 1:
		t.Defer = "20s"
		sched += 20
	case 2:
		t.Topic = "u"
		t.Payload = "q" + id
	}
	var u *ratus.Updated
	var err error
	if how == 2 {
		u, err = l.c.UpsertTask(context.Background(), t)
	} else {
		u, err = l.c.InsertTask(context.Background(), t)
	}
	old := l.tasks[id]
	if old != nil && how != 2 {
		rt.Assert(errors.Is(err, ratus.ErrConflict), "C30: a task that exists is not accepted again")
		return
	}
	rt.Assert(err == nil && u != nil, "C30: a task is accepted")
	if err != nil {
		return
	}
	rt.Assert((u.Created == 1) == (old == nil), "C30: a task is created unless it existed")
	l.tasks[id] = &lifeTask{topic: t.Topic, sched: sched, payload: t.Payload.(string)}
}

// poll claims a task and reports whether there was one.
func (l *life) poll(topic string) bool {
	t, err := l.c.PostPromises(context.Background(), topic, &ratus.Promise{Consumer: "c", Timeout: "30s"})
	found := false
	if err == nil {
		m := l.tasks[t.ID]
		rt.Assert(m != nil && m.topic == topic && m.state == ratus.TaskStatePending, "C30: only a pending task of the topic is delivered")
		if m == nil {
			rt.Stop()
		}
		rt.Assert(m.sched <= l.now, "C30: a task is not delivered before it is due")
		rt.Assert(t.Payload == m.payload, "C30: a task is delivered with its payload")
		for id, o := range l.tasks {
			if id != t.ID && o.topic == topic && o.state == ratus.TaskStatePending {
				rt.Assert(rt.Not(o.sched < m.sched), "C30: tasks are delivered in the order of their schedule")
			}
		}
		n := len(l.claims) + 1
		m.state, m.dead, m.claim = ratus.TaskStateActive, l.now+30, n
		l.claims = append(l.claims, claimed{t.ID, t.Nonce, n})
		return true
	}
	rt.Assert(errors.Is(err, ratus.ErrNotFound), "C30: a poll delivers a task or reports that there is none")
	for _, id := range lifeIDs {
		if o := l.tasks[id]; o != nil && o.topic == topic && o.state == ratus.TaskStatePending {
			found = rt.Or(found, o.sched <= l.now)
		}
	}
	rt.Assert(rt.Not(found), "C30: a due task is delivered")
	return false
}

func (l *life) commit(c claimed, how int) {
	m := l.tasks[c.id]
	state, topic, sched, force := ratus.TaskStateCompleted, "", int64(-1), false
	w := &ratus.Commit{Nonce: c.nonce}
	switch how {
	case 1:
		w.Defer = "20s"
		state, sched = ratus.TaskStatePending, l.now+20
	case 2:
		w.Topic = "u"
		state, topic = ratus.TaskStatePending, "u"
	case 3:
		state = ratus.TaskStateArchived
	case 4:
		w.Nonce = ""
		force = true
	case 5:
		w.Payload = "r"
	}
	w.State = &state
	_, err := l.c.PatchTask(context.Background(), c.id, w)
	if m.claim != c.n && !force {
		rt.Reach("life: stale commit")
		rt.Assert(errors.Is(err, ratus.ErrConflict), "C30: the commit of a lost claim is refused")
		return
	}
	rt.Assert(err == nil, "C30: the commit of the current claim is accepted")
	m.state, m.claim = state, 0
	if topic != "" {
		m.topic = topic
	}
	if sched >= 0 {
		m.sched = sched
	}
	if how == 5 {
		m.payload = "r"
	}
}

func (l *life) chore() {
	rt.Assert(l.g.Chore(context.Background()) == nil, "C30: the background job succeeds")
	for _, id := range lifeIDs {
		if m := l.tasks[id]; m != nil && m.state == ratus.TaskStateActive && m.dead < l.now {
			m.state, m.claim = ratus.TaskStatePending, 0
		}
	}
}

func (l *life) release(id string) {
	d, err := l.c.DeletePromise(context.Background(), id)
	rt.Assert(err == nil && d != nil, "C30: a claim can be given up")
	if err != nil {
		return
	}
	m := l.tasks[id]
	active := m != nil && m.state == ratus.TaskStateActive
	rt.Assert((d.Deleted == 1) == active, "C30: giving up a claim reports whether there was one")
	if active {
		m.state, m.claim = ratus.TaskStatePending, 0
	}
}

func (l *life) restart() {
	rt.Assert(l.g.Close(context.Background()) == nil, "C30: the engine closes")
	l.open()
}

// Life: a history of producers, consumers, background jobs and restarts, through the client, the
// API and the in-memory engine.
func Life() {
	mf.Reset()
	l := &life{tasks: map[string]*lifeTask{}}
	l.wait(0)
	l.open()
	l.c = newClient()
	l.put("a", 0)
	if rt.Choose("claimed", 2) == 1 {
		l.wait(1)
		l.poll("t")
	}
	for i := 0; i < rt.Arg("k", 2); i++ {
		l.wait(rt.Int64("wait", 1, 100))
		for _, id := range lifeIDs {
			// what happens at the very instant is left open
			if m := l.tasks[id]; m != nil {
				if m.state == ratus.TaskStateActive {
					rt.Assume(m.dead != l.now)
				} else {
					rt.Assume(m.sched != l.now)
				}
			}
		}
		switch rt.Choose("step", 6) {
		case 0:
			l.put(lifeIDs[rt.Choose("id", 2)], rt.Choose("how", 3))
		case 1:
			l.poll([]string{"t", "u"}[rt.Choose("topic", 2)])
		case 2:
			if len(l.claims) == 0 {
				rt.Stop()
			}
			l.commit(l.claims[rt.Choose("claim", len(l.claims))], rt.Choose("how", 6))
		case 3:
			l.chore()
		case 4:
			l.release(lifeIDs[rt.Choose("id", 2)])
		case 5:
			l.restart()
		}
	}
	// in the end everything that was not ended by a commit is delivered once more
	l.wait(1000)
	l.chore()
	left := 0
	for _, m := range l.tasks {
		if m.state == ratus.TaskStatePending {
			left++
		}
	}
	from := len(l.claims)
	for _, topic := range []string{"t", "u"} {
		for l.poll(topic) {
		}
	}
	rt.Assert(len(l.claims)-from == left, "C30: every task is delivered until a commit ends it")
	rt.Obs("left", int64(left))
	for _, c := range l.claims[from:] {
		l.commit(c, 0)
	}
	for _, id := range lifeIDs {
		t, err := l.c.GetTask(context.Background(), id)
		m := l.tasks[id]
		if m == nil {
			rt.Assert(errors.Is(err, ratus.ErrNotFound), "C30: there are no other tasks")
			continue
		}
		rt.Assert(err == nil && t.State == m.state && t.Topic == m.topic && t.Payload == m.payload, "C30: a task ends as the commit said")
	}
	rt.Reach("life")
}
