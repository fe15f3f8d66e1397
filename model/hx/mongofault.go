package hx

import (
	"errors"
	"time"

	driver "go.mongodb.org/mongo-driver/mongo"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// mongoOp makes one of the operations that have a fallback, with arbitrary arguments.
func mongoOp(kind int, ts []*ratus.Task) op {
	switch kind {
	case 0:
		topic := rt.Name("topic", 1, 1)
		p := promise()
		return func(g engine.Engine, _ *res) *res { return taskRes(g.Poll(ctx, topic, p)) }
	case 1:
		id := pickID("id", len(ts))
		m := symCommit()
		return func(g engine.Engine, _ *res) *res {
			c := *m
			return taskRes(g.Commit(ctx, id, &c))
		}
	case 2, 3:
		p := promise()
		p.ID = pickID("id", len(ts))
		return func(g engine.Engine, _ *res) *res {
			if kind == 2 {
				return taskRes(g.InsertPromise(ctx, p))
			}
			return taskRes(g.UpsertPromise(ctx, p))
		}
	case 4:
		x := newTask("x", len(ts), wr())
		return func(g engine.Engine, _ *res) *res {
			c := *x
			return updRes(g.UpsertTask(ctx, &c))
		}
	case 5:
		xs := batch(len(ts))
		return func(g engine.Engine, _ *res) *res {
			var c []*ratus.Task
			for _, t := range xs {
				x := *t
				c = append(c, &x)
			}
			return updRes(g.UpsertTasks(ctx, c))
		}
	}
	panic("op")
}

const mongoOps = 6

func pickOp(n int) int {
	if k := rt.Arg("op", -1); k >= 0 {
		return k
	}
	return rt.Choose("op", n)
}

// SameMongo: the fallback of an operation does what the operation does.
func SameMongo() {
	g := mongo_().(*mongodb.Engine)
	ts := fill(g, rt.Arg("n", 2), base())
	rt.SetNow(tm("now"))
	o := mongoOp(pickOp(mongoOps), ts)
	start := mm.Docs()
	a := o(g, nil)
	enda := final(g)
	mm.Restore(start)
	switch rt.Arg("via", 1) {
	case 2:
		mm.ShardKey = "topic"
	default:
		g.Fallback(1)
	}
	b := o(g, nil)
	endb := final(g)
	rt.Obs("err", a.err)
	seeTask(a.task)
	rt.Reach("same")
	rt.Assert(sameRes(a, b), "C15: an operation and its fallback give the same result")
	for i := range enda {
		rt.Assert(sameTask(enda[i], endb[i]), "C15: an operation and its fallback leave the same tasks")
	}
}

// mongo_ is the engine with its atomic operations on a server without restrictions.
func mongo_() engine.Engine {
	g := mongo()
	g.(*mongodb.Engine).Fallback(0)
	mm.ShardKey = ""
	return g
}

// hasCode tells whether the caller learns the server's error.
func hasCode(err error, code int64) bool {
	var e driver.ServerError
	return err != nil && errors.As(err, &e) && e.HasErrorCode(int(code))
}

// FaultMongo: the server refuses one command of an operation with an arbitrary error.
func FaultMongo() {
	onMongo = true
	mode := rt.Choose("mode", 3) // automatic, disabled, forced
	g := mongo_().(*mongodb.Engine)
	ts := fill(g, rt.Arg("n", 1), base())
	rt.SetNow(tm("now"))
	k := pickOp(mongoOps)
	o := mongoOp(k, ts)
	start := mm.Docs()
	want := o(g, nil)
	end := final(g)
	mm.Restore(start)
	switch mode {
	case 1:
		g.Fallback(-1)
	case 2:
		g.Fallback(1)
	}
	code := rt.Int64("code", 1, 1<<31-1)
	rt.Assume(rt.And(rt.And(code != 11000, code != 11001), rt.And(code != 12582, code != 16460)))
	at := rt.Choose("at", 2)
	if mode == 0 && at == 1 { // nothing is refused for the sharding after the first command
		rt.Assume(rt.And(code != 61, code != 31025))
	}

	write := rt.Choose("stmt", 2) == 1 // a write of the command rather than the command
	n, hit := 0, false
	mm.Log = nil
	mm.Fault = func(cmd string, statement int) *mm.Err {
		if statement < 0 {
			n++
		}
		if n-1 != at || hit || write != (statement >= 0) {
			return nil
		}
		hit = true
		return &mm.Err{Code: code, Name: "Fault", Msg: "fault"}
	}
	got, err := raw(o, g)
	mm.Fault = nil
	rt.Obs("kind", errKind(err))
	rt.Obs("hit", hit)
	sent := len(mm.Log)
	rt.Obs("commands", sent)
	now := final(g)
	refused := rt.Or(code == 61, code == 31025)
	if !hit {
		rt.Reach("fault: none")
		rt.Assert(sameRes(got, want), "C15: without a fault the result is the usual one")
		return
	}
	if mode == 0 && at == 0 && refused {
		rt.Reach("fault: fallback")
		if write && k == 5 {
			// the other writes of the batch were done before
			for i := range now {
				rt.Assert(sameTask(now[i], end[i]), "C15: the fallback leaves what the operation would have left")
			}
			return
		}
		rt.Assert(sameRes(got, want), "C15: the fallback gives the operation's result")
		for i := range now {
			rt.Assert(sameTask(now[i], end[i]), "C15: the fallback leaves what the operation would have left")
		}
		return
	}
	rt.Reach("fault: returned")
	rt.Assert(hasCode(err, code), "C15: the server's error is returned to the caller")
	if at == 0 && !write {
		rt.Assert(sent == 1, "C15: nothing else is sent after the first command failed")
		for _, t := range ts {
			s := now[0]
			for i, id := range ids {
				if id == t.ID {
					s = now[i]
				}
			}
			rt.Assert(s != nil, "C15: a failed first command leaves every task")
			if s != nil {
				rt.Assert(same(s, t), "C15: a failed first command changes nothing")
			}
		}
	}
}

// raw runs an operation and keeps its error.
func raw(o op, g *mongodb.Engine) (*res, error) {
	lastErr = nil
	r := o(g, nil)
	return r, lastErr
}

var lastErr error

// PlainFaultMongo: errors of the operations without a fallback.
func PlainFaultMongo() {
	g := mongo_().(*mongodb.Engine)
	ts := fill(g, rt.Arg("n", 1), base())
	rt.SetNow(tm("now"))
	code := rt.Int64("code", 1, 1<<31-1)
	rt.Assume(rt.And(rt.And(code != 11000, code != 11001), rt.And(code != 12582, code != 16460)))
	hit := false
	stmt := rt.Choose("stmt", 3) - 1
	mm.Fault = func(cmd string, statement int) *mm.Err {
		if hit || statement != stmt {
			return nil
		}
		hit = true
		return &mm.Err{Code: code, Name: "Fault", Msg: "fault"}
	}
	id := pickID("id", len(ts))
	topic := rt.Name("topic", 1, 1)
	var err error
	k := pickOp(15)
	batched := false
	switch k {
	case 0:
		_, err = g.GetTask(ctx, id)
	case 1:
		_, err = g.ListTasks(ctx, topic, 2, 0)
	case 2:
		_, err = g.InsertTask(ctx, newTask("x", len(ts), wr()))
	case 3:
		_, err = g.DeleteTask(ctx, id)
	case 4:
		_, err = g.DeleteTasks(ctx, topic)
	case 5:
		batched = true
		_, err = g.InsertTasks(ctx, batch(len(ts)))
	case 6:
		_, err = g.GetPromise(ctx, id)
	case 7:
		_, err = g.ListPromises(ctx, topic, 2, 0)
	case 8:
		_, err = g.DeletePromise(ctx, id)
	case 9:
		_, err = g.DeletePromises(ctx, topic)
	case 10:
		_, err = g.GetTopic(ctx, topic)
	case 11:
		_, err = g.ListTopics(ctx, 2, 0)
	case 12:
		_, err = g.DeleteTopic(ctx, topic)
	case 13:
		_, err = g.DeleteTopics(ctx)
	case 14:
		err = g.Chore(ctx)
	}
	rt.Obs("kind", errKind(err))
	rt.Obs("hit", hit)
	mm.Fault = nil
	if hit {
		rt.Reach("plain fault")
		rt.Assert(hasCode(err, code), "C15: the server's error is returned to the caller")
		if !batched {
			unchanged(g, ts, "", "C15: a failed command changes nothing")
		}
	}
}

// IndexMongo: the expiry index covers exactly the completed tasks with the configured period,
// whatever indexes the collection had.
func IndexMongo() {
	onMongo = true
	mm.Reset()
	c := mongoConfig()
	days := rt.Int64("period", 0, 1<<31-1)
	c.RetentionPeriod = time.Duration(days) * time.Second
	before := rt.Choose("before", 3)
	if before > 0 {
		old := mongoConfig()
		if before == 2 {
			old.RetentionPeriod = time.Duration(rt.Int64("old", 0, 1<<31-1)) * time.Second
		} else {
			old.RetentionPeriod = c.RetentionPeriod
		}
		openMongo(old)
	}
	g, err := mongodb.New(c)
	must(err)
	code := int64(0)
	at := rt.Choose("fault", 4) - 1
	n, hit := 0, false
	mm.Log = nil
	mm.Fault = func(cmd string, statement int) *mm.Err {
		n++
		if n-1 != at || statement >= 0 {
			return nil
		}
		hit = true
		code = rt.Int64("code", 1, 1<<31-1)
		rt.Assume(code != 85)
		return &mm.Err{Code: code, Name: "Fault", Msg: "fault"}
	}
	err = g.Open(ctx)
	mm.Fault = nil
	rt.Obs("opened", err == nil)
	if hit {
		rt.Reach("index: fault")
		rt.Assert(err != nil, "C06: an index that could not be made is reported")
		return
	}
	rt.Assert(err == nil, "C06: opening succeeds")
	ttl := 0
	for _, x := range mm.Indexes() {
		if x.TTL == nil {
			continue
		}
		ttl++
		s, isInt := x.TTL.(int32)
		if !isInt {
			l, ok := x.TTL.(int64)
			rt.Assert(ok, "C06: the expiry period is a number")
			s = int32(l)
		}
		rt.Assert(int64(s) == days, "C06: the expiry period is the configured one")
		rt.Assert(len(x.Keys) == 1 && x.Keys[0].K == "consumed", "C06: expiry counts from the claim")
		st, has := x.Partial.Get("state")
		rt.Assert(has && len(x.Partial) == 1, "C06: the expiry index covers all completed tasks")
		if has {
			v, _ := st.(int32)
			rt.Assert(v == int32(ratus.TaskStateCompleted), "C06: the expiry index covers only completed tasks")
		}
	}
	rt.Reach("index")
	rt.Assert(ttl == 1, "C06: there is one expiry index")
}
