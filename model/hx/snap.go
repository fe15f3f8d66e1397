package hx

import (
	"reflect"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/mf"
	_ "github.com/hyperonym/ratus/internal/zzverif/mg"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

const snapPath = "/data/ratus.db"

// snap opens the real in-memory engine over the snapshot.
func snap(interval time.Duration) (engine.Engine, error) {
	pickRetention()
	g, err := memdb.New(&memdb.Config{SnapshotPath: snapPath, SnapshotInterval: interval, RetentionPeriod: retention})
	must(err)
	return g, g.Open(ctx)
}

// payloads are what JSON documents hold.
func snapPayload() any {
	switch rt.Choose("payload", 13) {
	case 1:
		return rt.String("payload.s", 0, 2)
	case 2:
		return rt.Bool("payload.b")
	case 3:
		return 3.25
	case 4:
		return []any{}
	case 5:
		return map[string]any{}
	case 6:
		return []any{nil, "x", false, 0.0, []any{}, map[string]any{"": nil, "k": []any{}}}
	case 7:
		return map[string]any{"a": map[string]any{"b": []any{rt.String("payload.s", 0, 1)}}, "n": nil, "e": []any{}, "m": map[string]any{}}
	case 8:
		return ""
	case 9:
		return 0.0
	case 10:
		return []any{[]any{[]any{}}}
	case 11:
		return []any{map[string]any{}}
	case 12:
		return -1e300
	}
	return nil
}

// zoned moves t to some time zone.
func zoned(t *time.Time, l string) *time.Time {
	if t == nil {
		return nil
	}
	offs := []int{0, 3600, -60, 86340, -86340, -1800, 60}
	k := rt.Choose(l, len(offs))
	u := *t
	if k > 0 {
		u = t.In(time.FixedZone("", offs[k]))
	}
	return &u
}

// snapSame compares what a user can see of two tasks.
func snapSame(a, b *ratus.Task) bool {
	x, y := *a, *b
	x.Payload, y.Payload = nil, nil
	if !reflect.DeepEqual(a.Payload, b.Payload) {
		return false
	}
	return rt.And(same(&x, &y), a.Defer == b.Defer)
}

// SnapRestore: tasks with arbitrary fields come back after a restart.
func SnapRestore() {
	mf.Reset()
	n := rt.Arg("n", 1)
	g, err := snap(time.Hour)
	rt.Assert(err == nil, "C12: the engine opens without a snapshot")
	var ts []*ratus.Task
	o := opt{topics: 1, states: allStates, nonce: 1, nilSched: true, nilCons: true, nilDead: true}
	for i := 0; i < n; i++ {
		t := task("t"+ids[i], ids[i], o)
		switch rt.Arg("focus", 0) {
		case 0:
			t.Produced = tp("produced", true)
		case 1:
			t = &ratus.Task{ID: ids[i], Topic: "t", Payload: snapPayload()}
		case 2:
			u := rt.Time("at")
			t = &ratus.Task{ID: ids[i], Topic: "t", State: ratus.TaskStateActive}
			f := []**time.Time{&t.Produced, &t.Scheduled, &t.Consumed, &t.Deadline}
			*f[rt.Choose("field", 4)] = zoned(&u, "zone")
		case 3:
			t = &ratus.Task{ID: ids[i], Topic: rt.Name("topic", 1, 2), Producer: "p", Nonce: "n"}
			if i == 0 {
				t.ID, t.Producer = rt.Name("id", 1, 2)+"x", rt.String("producer", 0, 2)
			}
		}
		_, err := g.UpsertTask(ctx, t)
		must(err)
		c := *t
		ts = append(ts, &c)
	}
	err = g.Close(ctx)
	rt.Assert(err == nil, "C12: a graceful close writes the snapshot")
	u, err := snap(time.Hour)
	rt.Assert(err == nil, "C12: the engine opens its snapshot")
	if err != nil {
		return
	}
	for _, t := range ts {
		s, err := u.GetTask(ctx, t.ID)
		rt.Assert(err == nil, "C12: every task is back")
		if err == nil {
			rt.Reach("restored")
			rt.Assert(snapSame(s, t), "C12: a task is back with all of its fields")
		}
	}
	rt.Assert(countAll(u) == int64(n), "C12: no task is added by a restart")
}

func countAll(g engine.Engine) int64 {
	ts, err := g.ListTopics(ctx, 100, 0)
	must(err)
	var k int64
	for _, t := range ts {
		x, err := g.GetTopic(ctx, t.Name)
		must(err)
		k += x.Count
	}
	return k
}

// SnapBehave: operations give the same results after a restart.
func SnapBehave() {
	mf.Reset()
	n := rt.Arg("n", 2)
	g, err := snap(time.Hour)
	must(err)
	o := opt{topics: 1, states: allStates[:3], nonce: 1, nilSched: rt.Arg("nil", 0) == 1}
	ts := fill(g, n, o)
	_ = ts
	must(g.Close(ctx))
	u, err := snap(time.Hour)
	must(err)
	now := rt.Time("now")
	rt.SetNow(now)
	topic, id := rt.Name("topic", 1, 1), pickID("id", n)
	p := promise()
	p.ID = id
	what := rt.Choose("op", 5)
	m := &ratus.Commit{Nonce: rt.String("nonce", 0, 1), Payload: "new"}
	do := func(e engine.Engine) (*ratus.Task, error) {
		switch what {
		case 0:
			return e.Poll(ctx, topic, p)
		case 1:
			c := *m
			return e.Commit(ctx, id, &c)
		case 2:
			return e.InsertPromise(ctx, p)
		case 3:
			return nil, e.Chore(ctx)
		}
		d, err := e.DeleteTopic(ctx, topic)
		if err != nil {
			return nil, err
		}
		return &ratus.Task{Topic: "deleted", State: ratus.TaskState(d.Deleted)}, nil
	}
	a, e1 := do(g)
	b, e2 := do(u)
	rt.Assert(errKind(e1) == errKind(e2), "C12: operations behave as before after a restart")
	cmp := func(a, b *ratus.Task) {
		rt.Assert((a == nil) == (b == nil), "C12: operations behave as before after a restart")
		if a == nil || b == nil {
			return
		}
		x, y := *a, *b
		rt.Assert((x.Nonce == "") == (y.Nonce == ""), "C12: operations behave as before after a restart")
		x.Nonce, y.Nonce = "", ""
		rt.Assert(snapSame(&x, &y), "C12: operations behave as before after a restart")
	}
	cmp(a, b)
	for _, i := range ids[:n] {
		x, e1 := g.GetTask(ctx, i)
		y, e2 := u.GetTask(ctx, i)
		rt.Assert(errKind(e1) == errKind(e2), "C12: operations behave as before after a restart")
		if e1 != nil {
			x = nil
		}
		if e2 != nil {
			y = nil
		}
		cmp(x, y)
	}
	if e1 == nil {
		rt.Reach("done")
	}
}

// restored opens another engine over the snapshot and counts its tasks.
func restored(msg string) int64 {
	u, err := snap(time.Hour)
	rt.Assert(err == nil, msg)
	if err != nil {
		return -1
	}
	return countAll(u)
}

// span is a duration of s seconds and n nanoseconds.
func span(l string, min int64) (d time.Duration, s, n int64) {
	s = rt.Int64(l, min, 1<<20)
	if rt.Arg("whole", 0) == 0 {
		n = rt.Int64(l+".ns", 0, 999999999)
	}
	return time.Duration(s*1000000000 + n), s, n
}

// SnapInterval: when the background job writes snapshots.
func SnapInterval() {
	mf.Reset()
	steps := rt.Arg("k", 3)
	d, ds, dn := span("interval", -1)
	if rt.Choose("round", 2) == 1 {
		d = [...]time.Duration{5 * time.Minute, time.Nanosecond, 0, 100 * 365 * 24 * time.Hour}[rt.Choose("fixed", 4)]
		ds, dn = int64(d/time.Second), int64(d%time.Second)
	}
	g, err := snap(d)
	must(err)
	now := time.Unix(1700000000, 999999999).UTC()
	written, count := int64(0), int64(0)
	var ss, sn int64 // since the last snapshot
	for i := 0; i < steps; i++ {
		_, err := g.InsertTask(ctx, &ratus.Task{ID: ids[i], Topic: "t"})
		must(err)
		count++
		due := true
		if i > 0 {
			step, s, n := span("step", 0)
			now = now.Add(step)
			ss, sn = ss+s, sn+n
			if sn >= 1000000000 {
				ss, sn = ss+1, sn-1000000000
			}
			due = ss > ds || ss == ds && sn >= dn
		}
		rt.SetNow(now)
		rt.Assert(g.Chore(ctx) == nil, "C12: the background job succeeds")
		if due {
			written, ss, sn = count, 0, 0
			rt.Reach("due")
		} else {
			rt.Reach("not due")
		}
		rt.Assert(restored("C12: the snapshot can be opened") == written, "C12: a snapshot is written exactly when its interval has elapsed")
	}
}

// SnapFault: faults and crashes while a snapshot is written.
func SnapFault() {
	mf.Reset()
	now := time.Unix(1700000000, 0).UTC()
	rt.SetNow(now)
	faults := rt.Arg("faults", 1)
	g, err := snap(time.Hour)
	must(err)
	mk := func(id string) *ratus.Task {
		return &ratus.Task{ID: id, Topic: "t", State: ratus.TaskStatePending, Nonce: "n" + id, Scheduled: &now, Payload: rt.String("payload", 1, 1)}
	}
	put := func(t *ratus.Task) *ratus.Task {
		c := *t
		_, err := g.UpsertTask(ctx, t)
		must(err)
		return &c
	}
	var old, cur []*ratus.Task
	prev := rt.Choose("previous", 2) == 1
	if prev {
		for i := 0; i < rt.Arg("m", 1); i++ {
			old = append(old, put(mk(ids[i])))
		}
		must(g.Close(ctx))
		if rt.Choose("reopen", 2) == 1 {
			g, err = snap(time.Hour)
			must(err)
		}
	}
	// the state changes before the next snapshot
	switch rt.Choose("change", 3) {
	case 0:
		cur = append(append(cur, old...), put(mk("x")))
	case 1:
		for range old {
			cur = append(cur, put(mk(old[len(cur)].ID)))
		}
	case 2:
		_, err := g.DeleteTopics(ctx)
		must(err)
	}
	holds := func(g engine.Engine, ts []*ratus.Task) bool {
		ok := countAll(g) == int64(len(ts))
		for _, t := range ts {
			s, err := g.GetTask(ctx, t.ID)
			if err != nil {
				return false
			}
			ok = rt.And(ok, snapSame(s, t))
		}
		return ok
	}
	is := func(ts []*ratus.Task) bool {
		u, err := snap(time.Hour)
		return err == nil && holds(u, ts)
	}
	exists := func() bool {
		_, err := mf.Stat(snapPath)
		return err == nil
	}
	mf.Faults, mf.Crash = faults, rt.Arg("crash", 1) == 1
	chore := rt.Choose("chore", 2) == 1
	if chore {
		err = g.Chore(ctx)
	} else {
		err = g.Close(ctx)
	}
	crashed, failed, left := mf.Crashed, mf.Failed, mf.Faults
	mf.Restart()
	if prev {
		rt.Assert(exists(), "C13: the snapshot is never missing")
	}
	isNew := is(cur)
	if exists() {
		rt.Assert(rt.Or(isNew, is(old) && prev), "C13: the snapshot is the complete previous or the complete new one")
	}
	if crashed {
		rt.Reach("crashed")
		g, err = snap(time.Hour)
		rt.Assert(err == nil, "C13: the engine opens after a crash")
		if err == nil {
			cur = append(cur[:0:0], put(mk("y")))
			_, err = g.DeleteTask(ctx, "y")
			must(err)
			cur = []*ratus.Task{put(mk("z"))}
			for _, i := range append(ids, "x") {
				g.DeleteTask(ctx, i)
			}
			rt.Assert(g.Chore(ctx) == nil && is(cur), "C13: snapshots are written again after a crash")
		}
		return
	}
	_ = left
	if !failed {
		rt.Reach("undisturbed")
		rt.Assert(err == nil, "C13: writing a snapshot without a fault succeeds")
	} else {
		rt.Reach("failed")
	}
	if err == nil {
		rt.Assert(exists() && isNew, "C13: a write that did not take effect is reported")
	}
	if faults == 1 {
		for _, f := range mf.Names() {
			rt.Assert(f == snapPath, "C13: no temporary file is left behind")
		}
	}
	if err != nil {
		rt.Assert(failed, "C13: no fault, no error")
		rt.Assert(g.Chore(ctx) == nil && exists() && is(cur), "C13: a failed write is tried again by the next background job")
	}
	_ = strings.HasPrefix
}

// SnapPar: snapshots are written while other goroutines work.
func SnapPar() {
	mf.Reset()
	now := time.Unix(1700000000, 0).UTC()
	rt.SetNow(now)
	g, err := snap(0)
	must(err)
	mk := func(id string) *ratus.Task {
		return &ratus.Task{ID: id, Topic: "t", Nonce: "n", Payload: rt.String("payload", 1, 1)}
	}
	for i := 0; i < rt.Arg("n", 1); i++ {
		_, err := g.InsertTask(ctx, mk(ids[i]))
		must(err)
	}
	base := countAll(g)
	if rt.Choose("previous", 2) == 1 {
		rt.Assert(g.Chore(ctx) == nil, "C12: the background job succeeds")
	}
	mf.Gates = true
	_, err = mf.Stat(snapPath)
	had := err == nil
	var saved, saved2, ins error
	fs := []func(){func() { saved = g.Chore(ctx) }}
	batch := false
	switch what := rt.Arg("with", 0); what {
	case 0, 1:
		batch = true
		fs = append(fs, func() { _, ins = g.InsertTasks(ctx, []*ratus.Task{mk("x"), mk("y")}) })
		if what == 1 {
			fs = append(fs, func() { saved2 = g.Chore(ctx) })
		}
	case 2:
		fs = append(fs, func() { saved2 = g.Chore(ctx) })
	case 3:
		fs = append(fs, func() { _, ins = g.DeleteTask(ctx, ids[0]) })
	}
	seen := int64(-2)
	if rt.Arg("reader", 0) == 1 {
		fs = append(fs, func() {
			rt.Gate(nil)
			rt.Atomic = true // the engine that is opened here is another process
			if _, err := mf.Stat(snapPath); err == nil {
				seen = restored("C13: the snapshot can be opened at any time")
			} else {
				rt.Assert(!had, "C13: the snapshot is never missing")
			}
			rt.Atomic = false
		})
	}
	rt.Assert(rt.Par(fs...), "C12,C13: concurrent operations finish")
	mf.Gates = false
	rt.Assert(saved == nil && saved2 == nil && ins == nil, "C12,C13: concurrent operations succeed")
	ok := func(k int64) bool {
		if batch {
			return k == base || k == base+2
		}
		return k == base || k == countAll(g)
	}
	rt.Assert(ok(restored("C13: the snapshot can be opened")), "C12: a snapshot holds the tasks of one moment")
	rt.Assert(seen == -2 || ok(seen), "C12: a snapshot holds the tasks of one moment")
	rt.Assert(len(mf.Names()) == 1, "C13: no temporary file is left behind")
	rt.Assert(g.Chore(ctx) == nil, "C12: the background job succeeds")
	rt.Assert(restored("C13: the snapshot can be opened") == countAll(g), "C12: a later snapshot holds everything")
	rt.Reach("par")
}
