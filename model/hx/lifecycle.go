package hx

import (
	"errors"
	"io/fs"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/mf"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// CycleMem: an in-memory engine is opened, probed, destroyed and closed, with faults of the file system.
func CycleMem() {
	mf.Reset()
	now := time.Unix(1700000000, 0).UTC()
	rt.SetNow(now)
	path := snapPath
	if rt.Choose("snapshot", 2) == 0 {
		path = ""
	}
	cfg := &memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour}
	var old []*ratus.Task
	prev := rt.Choose("previous", 3)
	if prev > 0 && path != "" {
		g, err := memdb.New(cfg)
		must(err)
		must(g.Open(ctx))
		for i := 0; i < rt.Arg("n", 2); i++ {
			t := &ratus.Task{ID: ids[i], Topic: rt.Name("topic", 1, 1), State: allStates[rt.Choose("state", 2)], Nonce: "n", Scheduled: &now, Deadline: &now, Payload: "p"}
			_, err := g.UpsertTask(ctx, t)
			must(err)
			old = append(old, t)
		}
		must(g.Close(ctx))
		if prev == 2 { // not a snapshot
			must(mf.WriteFile(path, []byte("not a snapshot"), 0o600))
		}
	}
	g, err := memdb.New(cfg)
	rt.Assert(err == nil, "C31: an engine is made")
	must(err)
	rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: an engine is not ready before it is opened")
	mf.Faults = rt.Arg("faults", 1)
	mf.ReadFaults = true
	err = g.Open(ctx)
	failed := mf.Failed
	mf.Restart()
	seeErr(err)
	if err != nil {
		rt.Reach("cycle: not opened")
		rt.Assert(failed || prev == 2 && path != "", "C31: an engine opens")
		rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: an engine that did not open is not ready")
		if prev == 2 {
			return
		}
		rt.Assert(g.Open(ctx) == nil, "C31: opening can be tried again")
	}
	rt.Reach("cycle: opened")
	rt.Assert(prev != 2 || path == "", "C31: what is not a snapshot does not open")
	rt.Assert(g.Ready(ctx) == nil, "C31: an opened engine is ready")
	rt.Assert(countAll(g) == int64(len(old)), "C31: an opened engine has every task of the snapshot")
	for _, t := range old {
		stored(g, t, "C31: an opened engine has the tasks of the snapshot")
	}
	if rt.Choose("destroy", 2) == 0 {
		return
	}
	_, err = g.InsertTask(ctx, &ratus.Task{ID: "z", Topic: "t", Scheduled: &now})
	must(err)
	mf.Faults, mf.Failed = rt.Arg("faults", 1), false
	err = g.Destroy(ctx)
	failed = mf.Failed
	mf.Restart()
	seeErr(err)
	if err != nil {
		rt.Reach("cycle: not destroyed")
		rt.Assert(failed, "C31: an engine is destroyed")
		return
	}
	rt.Reach("cycle: destroyed")
	rt.Assert(countAll(g) == 0, "C31: a destroyed engine has no tasks")
	if path != "" {
		_, err := mf.Stat(path)
		rt.Assert(errors.Is(err, fs.ErrNotExist), "C31: a destroyed engine leaves no snapshot")
	}
	g, err = memdb.New(cfg)
	must(err)
	rt.Assert(g.Open(ctx) == nil && countAll(g) == 0, "C31: a destroyed engine leaves no tasks")
}

// CycleMongo: the same for MongoDB, with a server that refuses commands.
func CycleMongo() {
	onMongo = true
	mm.Reset()
	c := mongoConfig()
	c.DisableIndexCreation = rt.Choose("noindex", 2) == 1
	first := openMongo(mongoConfig())
	now := tm("now")
	rt.SetNow(now)
	n := rt.Choose("n", 2)
	var ts []*ratus.Task
	if n == 1 {
		ts = append(ts, task("t", "a", wr()))
		_, err := first.UpsertTask(ctx, ts[0])
		must(err)
	}
	g, err := mongodb.New(c)
	rt.Assert(err == nil, "C31: an engine is made")
	must(err)
	rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: an engine is not ready before it is opened")
	mm.Log = nil
	rt.Assert(g.Open(ctx) == nil, "C31: an engine opens")
	if c.DisableIndexCreation {
		rt.Assert(len(mm.Log) == 0, "C31: no index is created if that is disabled")
	} else {
		rt.Assert(len(mm.Log) > 0, "C31: indexes are created when an engine opens")
	}
	rt.Assert(g.Ready(ctx) == nil, "C31: an opened engine is ready")
	code := rt.Int64("code", 1, 1<<31-1)
	rt.Assume(rt.And(code != 26, code != 11000))
	fault := func(cmd string) func(string, int) *mm.Err {
		return func(c string, statement int) *mm.Err {
			if c != cmd || statement >= 0 {
				return nil
			}
			return &mm.Err{Code: code, Name: "Fault", Msg: "ns not found: fault"}
		}
	}
	mm.Fault = fault("ping")
	rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: an engine whose server fails is not ready")
	mm.Fault = nil
	rt.Assert(g.Ready(ctx) == nil, "C31: an engine is ready again")
	switch rt.Choose("end", 3) {
	case 0:
		rt.Assert(g.Close(ctx) == nil, "C31: an engine closes")
		rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: a closed engine is not ready")
		unchanged(first, ts, "", "C31: closing keeps the tasks")
		rt.Reach("cycle: closed")
	case 1:
		mm.Fault = fault("drop")
		err := g.Destroy(ctx)
		mm.Fault = nil
		rt.Assert(hasCode(err, code), "C31: the failure to destroy is returned")
		unchanged(first, ts, "", "C31: a failed destruction changes nothing")
		rt.Reach("cycle: not destroyed")
	case 2:
		rt.Assert(g.Destroy(ctx) == nil, "C31: an engine is destroyed")
		again := openMongo(mongoConfig())
		rt.Assert(countAll(again) == 0, "C31: a destroyed engine leaves no tasks")
		rt.Assert(isErr(g.Ready(ctx), ratus.ErrServiceUnavailable), "C31: a destroyed engine is not ready")
		rt.Reach("cycle: destroyed")
	}
}
