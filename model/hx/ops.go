package hx

import (
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

func CommitMem()        { commit(mem()) }
func ChoreMem()         { chore(mem()) }
func InsertTaskMem()    { insertTask(mem()) }
func UpsertTaskMem()    { upsertTask(mem()) }
func InsertTasksMem()   { insertTasks(mem()) }
func UpsertTasksMem()   { upsertTasks(mem()) }
func DeleteMem()        { deleteOps(mem()) }
func ReadMem()          { reads(mem()) }
func PromiseMem()       { claim(mem()) }
func DeletePromiseMem() { release(mem()) }
func StaleMem()         { stale(mem()) }
func RefusedMem()       { refused(mem()) }
func CopyMem()          { copies(mem()) }

func base() opt {
	return opt{topics: rt.Arg("topics", 1), states: allStates[:rt.Arg("states", 4)], nilSched: rt.Arg("nil", 0) == 1, nilCons: rt.Arg("nil", 0) == 1, nilDead: rt.Arg("nil", 0) == 1, nonce: 1, full: rt.Arg("full", 0) == 1}
}

// stored asserts that exactly w is stored under its id.
func stored(g engine.Engine, w *ratus.Task, msg string) {
	s, err := g.GetTask(ctx, w.ID)
	seeErr(err)
	seeTask(s)
	rt.Assert(err == nil, msg+" (gone)")
	if err == nil {
		rt.Assert(same(s, w), msg)
	}
}

func absent(g engine.Engine, id string, msg string) {
	_, err := g.GetTask(ctx, id)
	seeErr(err)
	rt.Assert(isErr(err, ratus.ErrNotFound), msg)
}

func seeUpdated(u *ratus.Updated) {
	if u != nil {
		rt.Obs("created", u.Created)
		rt.Obs("updated", u.Updated)
	}
}

func seeDeleted(u *ratus.Deleted) {
	if u != nil {
		rt.Obs("deleted", u.Deleted)
	}
}

// symCommit makes an arbitrary commit.
func symCommit() *ratus.Commit {
	m := &ratus.Commit{Nonce: rt.String("m.nonce", 0, 1)}
	m.Topic = rt.StringIn("m.topic", 0, 1, 2, 255)
	if k := rt.Choose("m.state", 5); k > 0 {
		s := allStates[k-1]
		m.State = &s
	}
	m.Scheduled = tp("m.scheduled", true)
	if rt.Choose("m.payload?", 2) == 1 {
		m.Payload = rt.String("m.payload", 0, 1)
	}
	m.Defer = rt.String("m.defer", 0, 1)
	return m
}

// applied is the task a commit asks for.
func applied(t *ratus.Task, m *ratus.Commit) *ratus.Task {
	w := *t
	w.Nonce = ""
	if m.Topic != "" {
		w.Topic = m.Topic
	}
	if m.State != nil {
		w.State = *m.State
	}
	if m.Scheduled != nil {
		w.Scheduled = m.Scheduled
	}
	if m.Payload != nil {
		w.Payload = m.Payload
	}
	return &w
}

// commit: one commit on an arbitrary state.
func commit(g engine.Engine) {
	ts := fill(g, rt.Arg("n", 2), base())
	now := tm("now")
	rt.SetNow(now)
	id := pickID("id", len(ts))
	m := symCommit()
	c := *m
	got, err := g.Commit(ctx, id, m)
	seeErr(err)
	seeTask(got)
	t := find(ts, id)
	if t == nil {
		rt.Reach("commit: missing")
		rt.Assert(isErr(err, ratus.ErrNotFound), "C04: a commit to a missing task reports not found")
		unchanged(g, ts, "", "C04,C14: a failed commit changes nothing")
		absent(g, id, "C04: a failed commit creates nothing")
		return
	}
	if err != nil {
		rt.Reach("commit: refused")
		rt.Assert(isErr(err, ratus.ErrConflict), "C04: a refused commit reports a conflict")
		rt.Assert(rt.And(c.Nonce != "", c.Nonce != t.Nonce), "C04: a commit without or with the current nonce succeeds")
		unchanged(g, ts, "", "C04,C14: a failed commit changes nothing")
		return
	}
	rt.Reach("commit: applied")
	rt.Assert(rt.Or(c.Nonce == "", c.Nonce == t.Nonce), "C04: a commit with another nonce is refused")
	w := applied(t, &c)
	rt.Assert(same(got, w), "C08: a commit returns the task as updated")
	rt.Assert(got.Nonce == "", "C04,C08: a commit clears the nonce")
	stored(g, w, "C08: a commit changes exactly the fields it specifies")
	unchanged(g, ts, id, "C08: a commit changes no other task")
}

// chore: one run of the background job on an arbitrary state.
func chore(g engine.Engine) {
	ts := fill(g, rt.Arg("n", 2), base())
	now := tm("now")
	rt.SetNow(now)
	err := g.Chore(ctx)
	if onMongo {
		mm.Expire(mm.DT{Sec: now.Unix(), Ms: int64(now.Nanosecond() / 1000000)})
	}
	seeErr(err)
	rt.Assert(err == nil, "C05,C06: the background job succeeds")
	for _, t := range ts {
		s, err := g.GetTask(ctx, t.ID)
		seeErr(err)
		seeTask(s)
		switch t.State {
		case ratus.TaskStateActive:
			rt.Assert(err == nil, "C06: an active task is never deleted")
			if err != nil {
				continue
			}
			w := *t
			w.State = ratus.TaskStatePending
			w.Nonce = ""
			if t.Deadline == nil {
				rt.Assert(same(s, t), "C05: an active task without deadline is left alone")
				continue
			}
			reset := same(s, &w)
			kept := same(s, t)
			due := !t.Deadline.Add(time.Millisecond).After(now)
			rt.Assert(rt.Or(reset, kept), "C05: a task is reset or left alone")
			rt.Assert(rt.Implies(due, reset), "C05: a timed out task goes back to pending with its nonce cleared")
			rt.Assert(rt.Implies(t.Deadline.After(now), kept), "C05: a task whose deadline has not passed is left alone")
			if s.State == ratus.TaskStatePending {
				rt.Reach("chore: reset")
				p := &ratus.Promise{ID: t.ID, Consumer: "c", Deadline: &now}
				_, err := g.InsertPromise(ctx, p)
				seeErr(err)
				rt.Assert(err == nil, "C05: a recovered task can be claimed again")
			} else {
				rt.Reach("chore: kept")
			}
		case ratus.TaskStateCompleted:
			if err != nil {
				rt.Reach("chore: expired")
				rt.Assert(isErr(err, ratus.ErrNotFound), "C06: an expired task is gone")
				if t.Consumed == nil {
					rt.Assert(false, "C06: a task that was never claimed does not expire")
					continue
				}
				rt.Assert(!t.Consumed.Add(retention).After(now), "C06: a task expires only after the retention period")
				continue
			}
			rt.Assert(same(s, t), "C05,C06: a completed task is deleted or left alone")
			if t.Consumed != nil {
				due := !t.Consumed.Add(retention + time.Millisecond).After(now)
				rt.Assert(rt.Not(due), "C06: every completed task past the retention period is deleted")
			}
		default:
			rt.Assert(err == nil, "C06: pending and archived tasks are never deleted")
			if err == nil {
				rt.Assert(same(s, t), "C05,C06: pending and archived tasks are left alone")
			}
		}
	}
}

// newTask makes an arbitrary task to be written under one of the known ids or a new one.
func newTask(p string, n int, o opt) *ratus.Task {
	t := task(p, pickID(p+".id", n), o)
	return t
}

func wr() opt {
	o := base()
	o.states = []ratus.TaskState{ratus.TaskStatePending, ratus.TaskStateActive}
	return o
}

func insertTask(g engine.Engine) {
	ts := fill(g, rt.Arg("n", 2), wr())
	x := newTask("x", len(ts), base())
	c := *x
	u, err := g.InsertTask(ctx, x)
	seeErr(err)
	seeUpdated(u)
	if find(ts, c.ID) != nil {
		rt.Reach("insert: duplicate")
		rt.Assert(isErr(err, ratus.ErrConflict), "C07: inserting an existing id reports a conflict")
		unchanged(g, ts, "", "C07,C14: a refused insert changes nothing")
		return
	}
	rt.Reach("insert: new")
	rt.Assert(err == nil, "C07: inserting a new id succeeds")
	if err == nil {
		rt.Assert(rt.And(u.Created == 1, u.Updated == 0), "C07: an insert reports one created task")
	}
	stored(g, &c, "C07: an insert stores the given task")
	unchanged(g, ts, "", "C07: an insert changes no other task")
}

func upsertTask(g engine.Engine) {
	ts := fill(g, rt.Arg("n", 2), wr())
	x := newTask("x", len(ts), base())
	c := *x
	u, err := g.UpsertTask(ctx, x)
	seeErr(err)
	seeUpdated(u)
	rt.Assert(err == nil, "C07: an upsert succeeds")
	if err == nil {
		if find(ts, c.ID) != nil {
			rt.Reach("upsert: update")
			rt.Assert(rt.And(u.Created == 0, u.Updated == 1), "C07: replacing a task reports one updated task")
		} else {
			rt.Reach("upsert: create")
			rt.Assert(rt.And(u.Created == 1, u.Updated == 0), "C07: a new task reports one created task")
		}
	}
	stored(g, &c, "C07: an upsert stores the given task")
	unchanged(g, ts, c.ID, "C07: an upsert changes no other task")
	total(g, append(without(ts, c.ID), &c), "C07: there is one task per id")
}

func without(ts []*ratus.Task, id string) []*ratus.Task {
	var r []*ratus.Task
	for _, t := range ts {
		if t.ID != id {
			r = append(r, t)
		}
	}
	return r
}

// total asserts that listing every topic finds each task exactly once and nothing else.
func total(g engine.Engine, ts []*ratus.Task, msg string) {
	for i, t := range ts {
		first := true
		for _, p := range ts[:i] {
			if p.Topic == t.Topic {
				first = false
			}
		}
		if !first {
			continue
		}
		want := 0
		for _, p := range ts {
			if p.Topic == t.Topic {
				want++
			}
		}
		l, err := g.ListTasks(ctx, t.Topic, 10, 0)
		rt.Assert(err == nil, msg)
		rt.Assert(len(l) == want, msg)
	}
}

func batch(n int) []*ratus.Task {
	o := wr()
	o.states = o.states[:1]
	var xs []*ratus.Task
	k := rt.Choose("batch", rt.Arg("batch", 2)+1)
	for i := 0; i < k; i++ {
		xs = append(xs, newTask("x"+ids[i], n, o))
	}
	return xs
}

func insertTasks(g engine.Engine) {
	o := wr()
	o.states = o.states[1:]
	ts := fill(g, rt.Arg("n", 2), o)
	xs := batch(len(ts))
	var want []*ratus.Task
	want = append(want, ts...)
	var created int64
	for _, x := range xs {
		if find(want, x.ID) == nil {
			c := *x
			want = append(want, &c)
			created++
		}
	}
	u, err := g.InsertTasks(ctx, xs)
	seeErr(err)
	seeUpdated(u)
	rt.Assert(err == nil, "C07: a batch insert succeeds")
	if err == nil {
		rt.Reach("batch insert")
		rt.Assert(rt.And(u.Created == created, u.Updated == 0), "C07: a batch insert reports the number of created tasks")
	}
	for _, w := range want {
		stored(g, w, "C07: a batch insert stores new tasks and keeps existing ones")
	}
	total(g, want, "C07: there is one task per id")
}

func upsertTasks(g engine.Engine) {
	o := wr()
	o.states = o.states[1:]
	ts := fill(g, rt.Arg("n", 2), o)
	xs := batch(len(ts))
	want := append([]*ratus.Task{}, ts...)
	var created, updated int64
	for _, x := range xs {
		c := *x
		if find(want, x.ID) == nil {
			created++
		} else {
			updated++
		}
		want = append(without(want, x.ID), &c)
	}
	u, err := g.UpsertTasks(ctx, xs)
	seeErr(err)
	seeUpdated(u)
	rt.Assert(err == nil, "C07: a batch upsert succeeds")
	if err == nil {
		rt.Reach("batch upsert")
		rt.Assert(rt.And(u.Created == created, u.Updated == updated), "C07: a batch upsert reports the numbers of created and updated tasks")
	}
	for _, w := range want {
		stored(g, w, "C07: a batch upsert stores the given tasks and keeps the others")
	}
	total(g, want, "C07: there is one task per id")
}

// deleteOps: one deletion on an arbitrary state.
func deleteOps(g engine.Engine) {
	o := wr()
	ts := fill(g, rt.Arg("n", 2), o)
	switch rt.Choose("op", 4) {
	case 0:
		id := pickID("id", len(ts))
		d, err := g.DeleteTask(ctx, id)
		seeErr(err)
		seeDeleted(d)
		rt.Assert(err == nil, "C09: deleting a task succeeds")
		if err == nil {
			if find(ts, id) != nil {
				rt.Reach("delete: task")
				rt.Assert(d.Deleted == 1, "C09: deleting a task reports one")
			} else {
				rt.Reach("delete: missing task")
				rt.Assert(d.Deleted == 0, "C09: deleting a missing task reports zero")
			}
		}
		absent(g, id, "C09: a deleted task is gone")
		unchanged(g, ts, id, "C09: deleting a task changes no other task")
	case 1, 2:
		topic := o.name("topic")
		var d *ratus.Deleted
		var err error
		if rt.Choose("whole", 2) == 1 {
			d, err = g.DeleteTopic(ctx, topic)
		} else {
			d, err = g.DeleteTasks(ctx, topic)
		}
		seeErr(err)
		seeDeleted(d)
		rt.Assert(err == nil, "C09: deleting a topic succeeds")
		var n int64
		for _, t := range ts {
			if t.Topic == topic {
				n++
				absent(g, t.ID, "C09: the tasks of a deleted topic are gone")
			} else {
				stored(g, t, "C09: deleting a topic keeps the tasks of other topics")
			}
		}
		if err == nil {
			rt.Reach("delete: topic")
			rt.Assert(d.Deleted == n, "C09: deleting a topic reports the number of its tasks")
		}
	case 3:
		d, err := g.DeleteTopics(ctx)
		seeErr(err)
		seeDeleted(d)
		rt.Assert(err == nil, "C09: deleting everything succeeds")
		for _, t := range ts {
			absent(g, t.ID, "C09: everything is gone")
		}
		if err == nil {
			rt.Reach("delete: everything")
			rt.Assert(d.Deleted == int64(len(ts)), "C09: deleting everything reports the number of tasks")
		}
	}
}

// reads: queries on an arbitrary state.
func reads(g engine.Engine) {
	o := wr()
	ts := fill(g, rt.Arg("n", 2), o)
	switch rt.Choose("op", 4) {
	case 0:
		id := pickID("id", len(ts))
		t := find(ts, id)
		if t != nil {
			rt.Reach("read: task")
			stored(g, t, "C10: getting a task returns the stored task")
		} else {
			rt.Reach("read: missing task")
			absent(g, id, "C10: getting a missing task reports not found")
		}
	case 1:
		topic := o.name("topic")
		var n int64
		for _, t := range ts {
			if t.Topic == topic {
				n++
			}
		}
		x, err := g.GetTopic(ctx, topic)
		seeErr(err)
		if n == 0 {
			rt.Reach("read: missing topic")
			rt.Assert(isErr(err, ratus.ErrNotFound), "C10: a topic without tasks does not exist")
			return
		}
		rt.Reach("read: topic")
		rt.Assert(err == nil, "C10: a topic with tasks exists")
		if err == nil {
			rt.Obs("count", x.Count)
			rt.Assert(rt.And(x.Name == topic, x.Count == n), "C10: the count of a topic is the number of its tasks")
		}
	case 2:
		topic := o.name("topic")
		var in []*ratus.Task
		for _, t := range ts {
			if t.Topic == topic {
				in = append(in, t)
			}
		}
		limit := rt.Choose("limit", len(ts)+1) + 1
		seen := 0
		got := map[string]bool{}
		for off := 0; off < len(ts)+2; off += limit {
			l, err := g.ListTasks(ctx, topic, limit, off)
			rt.Assert(err == nil, "C10: listing tasks succeeds")
			rt.Assert(l != nil, "C10: a listing is never null")
			rt.Obs("len", len(l))
			want := len(in) - off
			if want < 0 {
				want = 0
			}
			if want > limit {
				want = limit
			}
			rt.Assert(len(l) == want, "C10: a page of tasks has the expected length")
			for _, x := range l {
				w := find(in, x.ID)
				rt.Assert(w != nil, "C10: a listed task belongs to the topic")
				if w != nil {
					rt.Assert(same(x, w), "C10: a listed task is the stored task")
				}
				rt.Assert(!got[x.ID], "C10: a task is listed once")
				got[x.ID] = true
				seen++
			}
		}
		rt.Reach("read: tasks")
		rt.Assert(seen == len(in), "C10: the pages together list every task of the topic")
	case 3:
		var names []string
		for _, t := range ts {
			known := false
			for _, n := range names {
				if n == t.Topic {
					known = true
				}
			}
			if !known {
				names = append(names, t.Topic)
			}
		}
		limit := rt.Choose("limit", len(ts)+1) + 1
		var all []string
		for off := 0; off < len(ts)+2; off += limit {
			l, err := g.ListTopics(ctx, limit, off)
			rt.Assert(err == nil, "C10: listing topics succeeds")
			rt.Assert(l != nil, "C10: a listing is never null")
			rt.Obs("len", len(l))
			want := len(names) - off
			if want < 0 {
				want = 0
			}
			if want > limit {
				want = limit
			}
			rt.Assert(len(l) == want, "C10: a page of topics has the expected length")
			for _, x := range l {
				in := false
				for _, n := range names {
					in = rt.Or(in, n == x.Name)
				}
				rt.Assert(in, "C10: a listed topic has tasks")
				for _, n := range all {
					rt.Assert(n != x.Name, "C10: a topic is listed once")
				}
				all = append(all, x.Name)
			}
		}
		rt.Reach("read: topics")
		rt.Assert(len(all) == len(names), "C10: the pages together list every topic")
	}
}

// claim: a conditional or unconditional promise, and reading promises, on an arbitrary state.
func claim(g engine.Engine) {
	o := base()
	ts := fill(g, rt.Arg("n", 2), o)
	now := tm("now")
	rt.SetNow(now)
	op := rt.Choose("op", 4)
	switch op {
	case 0, 1:
		id := pickID("id", len(ts))
		p := promise()
		p.ID = id
		c := *p
		var got *ratus.Task
		var err error
		if op == 0 {
			got, err = g.InsertPromise(ctx, p)
		} else {
			got, err = g.UpsertPromise(ctx, p)
		}
		seeErr(err)
		seeTask(got)
		t := find(ts, id)
		if t == nil {
			rt.Reach("claim: missing")
			rt.Assert(isErr(err, ratus.ErrNotFound), "C11: claiming a missing task reports not found")
			unchanged(g, ts, "", "C11,C14: a failed claim changes nothing")
			absent(g, id, "C11: a failed claim creates nothing")
			return
		}
		if op == 0 && t.State != ratus.TaskStatePending {
			rt.Reach("claim: refused")
			rt.Assert(isErr(err, ratus.ErrConflict), "C11: a conditional claim of a task that is not pending reports a conflict")
			unchanged(g, ts, "", "C11,C14: a failed claim changes nothing")
			return
		}
		rt.Reach("claim: made")
		rt.Assert(err == nil, "C11: a claim succeeds")
		if err != nil {
			return
		}
		w := *t
		w.State = ratus.TaskStateActive
		w.Consumer = c.Consumer
		w.Deadline = c.Deadline
		w.Consumed = &now
		w.Nonce = got.Nonce
		rt.Assert(same(got, &w), "C11: the claimed task carries the promise's data")
		rt.Assert(rt.And(got.Nonce != "", got.Nonce != t.Nonce), "C11,C04: the claimed task has a fresh nonce")
		stored(g, &w, "C11: the claimed task is stored as returned")
		unchanged(g, ts, id, "C11: a claim changes no other task")
		q, err := g.GetPromise(ctx, id)
		rt.Assert(err == nil, "C11: the promise of a claimed task exists")
		if err == nil {
			rt.Assert(rt.And(q.ID == id, rt.And(q.Consumer == c.Consumer, teq(q.Deadline, c.Deadline))), "C11: a promise has its task's consumer and deadline")
		}
	case 2:
		id := pickID("id", len(ts))
		t := find(ts, id)
		q, err := g.GetPromise(ctx, id)
		seeErr(err)
		if t == nil || t.State != ratus.TaskStateActive {
			rt.Reach("promise: none")
			rt.Assert(isErr(err, ratus.ErrNotFound), "C11: a promise exists only while its task is active")
			return
		}
		rt.Reach("promise: read")
		rt.Assert(err == nil, "C11: the promise of an active task exists")
		if err == nil {
			rt.Assert(rt.And(q.ID == id, rt.And(q.Consumer == t.Consumer, teq(q.Deadline, t.Deadline))), "C11: a promise has its task's consumer and deadline")
		}
	case 3:
		topic := o.name("topic")
		var in []*ratus.Task
		for _, t := range ts {
			if t.State == ratus.TaskStateActive && t.Topic == topic {
				in = append(in, t)
			}
		}
		limit := rt.Choose("limit", len(ts)+1) + 1
		got := map[string]bool{}
		for off := 0; off < len(ts)+2; off += limit {
			l, err := g.ListPromises(ctx, topic, limit, off)
			rt.Assert(err == nil, "C11,C10: listing promises succeeds")
			rt.Assert(l != nil, "C11,C10: a listing is never null")
			rt.Obs("len", len(l))
			want := len(in) - off
			if want < 0 {
				want = 0
			}
			if want > limit {
				want = limit
			}
			rt.Assert(len(l) == want, "C11,C10: a page of promises has the expected length")
			for _, x := range l {
				t := find(in, x.ID)
				rt.Assert(t != nil, "C11,C10: a listed promise belongs to an active task of the topic")
				if t != nil {
					rt.Assert(rt.And(x.Consumer == t.Consumer, teq(x.Deadline, t.Deadline)), "C11,C10: a listed promise has its task's consumer and deadline")
				}
				rt.Assert(!got[x.ID], "C11,C10: a promise is listed once")
				got[x.ID] = true
			}
		}
		rt.Reach("promises: list")
		rt.Assert(len(got) == len(in), "C11,C10: the pages together list every promise")
	}
}

// release: deleting promises on an arbitrary state.
func release(g engine.Engine) {
	o := base()
	ts := fill(g, rt.Arg("n", 2), o)
	rt.SetNow(tm("now"))
	var n int64
	var want []*ratus.Task
	var d *ratus.Deleted
	var err error
	if rt.Choose("op", 2) == 0 {
		id := pickID("id", len(ts))
		d, err = g.DeletePromise(ctx, id)
		for _, t := range ts {
			w := *t
			if t.ID == id && t.State == ratus.TaskStateActive {
				w.State, w.Nonce = ratus.TaskStatePending, ""
				n++
			}
			want = append(want, &w)
		}
	} else {
		topic := o.name("topic")
		d, err = g.DeletePromises(ctx, topic)
		for _, t := range ts {
			w := *t
			if t.State == ratus.TaskStateActive && t.Topic == topic {
				w.State, w.Nonce = ratus.TaskStatePending, ""
				n++
			}
			want = append(want, &w)
		}
	}
	seeErr(err)
	seeDeleted(d)
	rt.Assert(err == nil, "C11: deleting promises succeeds")
	if err == nil {
		rt.Reach("release")
		rt.Assert(d.Deleted == n, "C11: deleting promises reports how many")
	}
	for _, w := range want {
		stored(g, w, "C11: deleting promises puts exactly the active tasks concerned back to pending")
	}
}

// stale: a claim's nonce is worthless once the claim is over.
func stale(g engine.Engine) {
	o := base()
	ts := fill(g, 1, o)
	t := ts[0]
	now := tm("now")
	rt.SetNow(now)
	p := promise()
	var got *ratus.Task
	var err error
	switch rt.Choose("claim", 3) {
	case 0:
		got, err = g.Poll(ctx, t.Topic, p)
	case 1:
		p.ID = t.ID
		got, err = g.InsertPromise(ctx, p)
	case 2:
		p.ID = t.ID
		got, err = g.UpsertPromise(ctx, p)
	}
	if err != nil {
		return
	}
	nonce := got.Nonce
	rt.Assert(nonce != "", "C04: a claim has a nonce")
	later := tm("later")
	rt.SetNow(later)
	switch rt.Choose("end", 6) {
	case 0:
		m := symCommit()
		m.Nonce = nonce
		_, err := g.Commit(ctx, t.ID, m)
		rt.Assert(err == nil, "C04: a commit with the nonce of the current claim succeeds")
	case 1:
		m := symCommit()
		m.Nonce = ""
		_, err := g.Commit(ctx, t.ID, m)
		rt.Assert(err == nil, "C08: a commit without a nonce succeeds")
	case 2:
		_, err = g.DeletePromise(ctx, t.ID)
		must(err)
	case 3:
		_, err = g.DeletePromises(ctx, t.Topic)
		must(err)
	case 4:
		if rt.Not(!p.Deadline.Add(time.Millisecond).After(later)) {
			return
		}
		must(g.Chore(ctx))
	case 5:
		_, err = g.UpsertPromise(ctx, &ratus.Promise{ID: t.ID, Consumer: "o", Deadline: p.Deadline})
		must(err)
	}
	if rt.Choose("again", 2) == 1 {
		// another consumer may claim it in the meantime
		g.UpsertPromise(ctx, &ratus.Promise{ID: t.ID, Consumer: "o", Deadline: p.Deadline})
	}
	before, err := g.GetTask(ctx, t.ID)
	rt.Assert(err == nil, "C04: the task is still there")
	if err != nil {
		return
	}
	rt.Reach("stale")
	m := symCommit2(nonce)
	_, err = g.Commit(ctx, t.ID, m)
	rt.Assert(isErr(err, ratus.ErrConflict), "C04: a commit with the nonce of an ended claim never succeeds")
	stored(g, before, "C04: a refused commit changes nothing")
}

func symCommit2(nonce string) *ratus.Commit {
	s := ratus.TaskStateCompleted
	return &ratus.Commit{Nonce: nonce, State: &s, Topic: rt.StringIn("m2.topic", 0, 1, 2, 255)}
}

// copies: what goes in and comes out is not what is stored.
func copies(g engine.Engine) {
	o := wr()
	o.states = o.states[:1]
	ts := fill(g, 1, o)
	t := ts[0]
	now := tm("now")
	rt.SetNow(now)
	other := tm("other")
	spoil := func(x *ratus.Task) {
		x.Topic = "spoiled"
		x.State = ratus.TaskStateArchived
		x.Nonce = "spoiled"
		x.Producer = "spoiled"
		x.Consumer = "spoiled"
		x.Produced, x.Scheduled, x.Consumed, x.Deadline = &other, &other, &other, &other
		x.Payload = "spoiled"
		x.ID = "zz"
	}
	check := func(id string, w *ratus.Task) {
		stored(g, w, "C14: changing an object that was handed in or out does not change what is stored")
	}
	id := t.ID
	switch rt.Choose("op", 10) {
	case 0:
		x := task("x", "n", o)
		c := *x
		_, err := g.InsertTask(ctx, x)
		must(err)
		spoil(x)
		check("n", &c)
	case 1:
		x := task("x", pickID("id", 1), o)
		c := *x
		_, err := g.UpsertTask(ctx, x)
		must(err)
		spoil(x)
		check(c.ID, &c)
	case 2:
		x := task("x", "n", o)
		c := *x
		_, err := g.InsertTasks(ctx, []*ratus.Task{x})
		must(err)
		spoil(x)
		check("n", &c)
	case 3:
		x := task("x", pickID("id", 1), o)
		c := *x
		_, err := g.UpsertTasks(ctx, []*ratus.Task{x})
		must(err)
		spoil(x)
		check(c.ID, &c)
	case 4:
		x, err := g.GetTask(ctx, id)
		must(err)
		c := *x
		spoil(x)
		check(id, &c)
	case 5:
		l, err := g.ListTasks(ctx, t.Topic, 10, 0)
		must(err)
		if len(l) == 1 {
			c := *l[0]
			spoil(l[0])
			check(id, &c)
		}
	case 6:
		x, err := g.Poll(ctx, t.Topic, promise())
		if err != nil {
			return
		}
		c := *x
		spoil(x)
		check(id, &c)
	case 7:
		p := promise()
		p.ID = id
		x, err := g.InsertPromise(ctx, p)
		must(err)
		c := *x
		spoil(x)
		p.Consumer, p.Deadline = "spoiled", &other
		check(id, &c)
	case 8:
		p := promise()
		p.ID = id
		x, err := g.UpsertPromise(ctx, p)
		must(err)
		c := *x
		spoil(x)
		p.Consumer, p.Deadline = "spoiled", &other
		check(id, &c)
	case 9:
		m := symCommit()
		m.Nonce = ""
		x, err := g.Commit(ctx, id, m)
		must(err)
		c := *x
		spoil(x)
		m.Scheduled, m.Payload = &other, "spoiled"
		check(id, &c)
	}
	rt.Reach("copies")
	unchangedOthers(g, ts, id)
}

func unchangedOthers(g engine.Engine, ts []*ratus.Task, skip string) {
	unchanged(g, ts, skip, "C14: no other task changes")
}

// refused: writes with a task that the engine cannot store, because its id or topic is empty.
func refused(g engine.Engine) {
	o := wr()
	o.states = o.states[1:]
	ts := fill(g, rt.Arg("n", 1), o)
	o.states = allStates[:1]
	k := 1 + rt.Choose("batch", rt.Arg("batch", 3))
	bad := rt.Choose("bad", k)
	var xs []*ratus.Task
	for i := 0; i < k; i++ {
		x := newTask("x"+ids[i], len(ts), o)
		if i == bad {
			switch rt.Choose("empty", 2) {
			case 0:
				x.ID = ""
			case 1:
				x.Topic = ""
			}
		}
		xs = append(xs, x)
	}
	b := *xs[bad]
	var err error
	skipped := false // an insert skips an existing id without looking at its topic
	for _, x := range ts {
		skipped = skipped || x.ID == b.ID
	}
	for _, x := range xs[:bad] {
		skipped = skipped || x.ID == b.ID
	}
	op := rt.Choose("op", 2)
	switch {
	case k == 1 && op == 0:
		_, err = g.InsertTask(ctx, xs[0])
	case k == 1:
		_, err = g.UpsertTask(ctx, xs[0])
	case op == 0:
		_, err = g.InsertTasks(ctx, xs)
	default:
		_, err = g.UpsertTasks(ctx, xs)
	}
	seeErr(err)
	if skipped && op == 0 && k > 1 && err == nil {
		rt.Reach("refused: skipped")
		return
	}
	if err == nil {
		rt.Reach("refused: stored")
		return
	}
	rt.Reach("refused: error")
	unchanged(g, ts, "", "C14: a write that fails changes nothing")
	total(g, ts, "C14: a write that fails stores nothing")
}
