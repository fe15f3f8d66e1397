package hx

import (
	"time"

	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

var (
	onMongo bool
	filler  engine.Engine
)

// tm makes an arbitrary instant, in whole milliseconds for MongoDB.
func tm(name string) time.Time {
	if !onMongo {
		return rt.Time(name)
	}
	return time.Unix(rt.Int64(name+".sec", rt.MinSec, rt.MaxSec), rt.Int64(name+".ms", 0, 999)*1000000).UTC()
}

func mongoConfig() *mongodb.Config {
	retention = 72 * time.Hour
	return &mongodb.Config{URI: mm.URI(), Database: "ratus", Collection: "tasks", RetentionPeriod: retention}
}

func openMongo(c *mongodb.Config) *mongodb.Engine {
	g, err := mongodb.New(c)
	must(err)
	must(g.Open(ctx))
	return g
}

// mongo opens the real MongoDB engine on a new server. The argument "via" says how operations are
// done: 0 atomic, 1 fallback forced, 2 fallback after the refusal of a server sharded by topic,
// 3 atomic with automatic fallback disabled.
func mongo() engine.Engine {
	if !onMongo || filler == nil {
		mm.Reset()
		filler = openMongo(mongoConfig())
	}
	onMongo = true
	mm.Clear()
	c := mongoConfig()
	c.DisableIndexCreation = true
	via := rt.Arg("via", 0)
	c.DisableAutoFallback = via == 3
	g := openMongo(c)
	switch via {
	case 1:
		g.Fallback(1)
	case 2:
		mm.ShardKey = "topic"
	}
	return g
}

func fillMongo(n int, o opt) []*ratus.Task {
	k := mm.ShardKey
	mm.ShardKey = ""
	ts := fillIn(filler, n, o)
	mm.ShardKey = k
	mm.Log = nil
	return ts
}

func CommitMongo()        { commit(mongo()) }
func ChoreMongo()         { chore(mongo()) }
func PollMongo()          { poll(mongo()) }
func InsertTaskMongo()    { insertTask(mongo()) }
func UpsertTaskMongo()    { upsertTask(mongo()) }
func InsertTasksMongo()   { insertTasks(mongo()) }
func UpsertTasksMongo()   { upsertTasks(mongo()) }
func DeleteMongo()        { deleteOps(mongo()) }
func ReadMongo()          { reads(mongo()) }
func PromiseMongo()       { claim(mongo()) }
func DeletePromiseMongo() { release(mongo()) }
func StaleMongo()         { stale(mongo()) }

func ClaimConcMongo()  { claimConc(mongo) }
func CommitConcMongo() { commitConc(mongo) }
func PairConcMongo()   { pairConc(mongo) }

// leastNonce: with MongoDB's fallbacks a commit without a nonce may be refused when the task
// changes at the same time, and is not part of the concurrent harnesses.
func leastNonce() int {
	if rt.Arg("via", 0) > 0 {
		return 1
	}
	return 0
}

func anyPayload(p string, depth int) any {
	n := 6
	if depth > 0 {
		n = 8
	}
	switch rt.Choose(p+".kind", n) {
	case 0:
		return nil
	case 1:
		return rt.String(p+".s", 0, 1)
	case 2:
		return rt.Bool(p + ".b")
	case 3:
		return float64(0)
	case 4:
		return 1.5
	case 5:
		return float64(1 << 40)
	case 6:
		l := []any{}
		for i := rt.Choose(p+".len", 3); i > 0; i-- {
			l = append(l, anyPayload(p+"l", depth-1))
		}
		return l
	}
	m := map[string]any{}
	if rt.Choose(p+".len", 2) == 1 {
		m["k"] = anyPayload(p+"m", depth-1)
	}
	return m
}

// samePayload compares what clients see of two payloads.
func samePayload(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case primitive.A:
		return samePayload([]any(x), b)
	case primitive.M:
		return samePayload(map[string]any(x), b)
	case []any:
		y, ok := b.([]any)
		if !ok || x == nil || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = rt.And(r, samePayload(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || x == nil || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, in := y[k]
			if !in {
				return false
			}
			r = rt.And(r, samePayload(v, w))
		}
		return r
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return false
}

// PayloadMongo: payloads of every shape, and the extreme instants, are stored as given.
func PayloadMongo() {
	g := mongo()
	fillMongo(0, opt{})
	x := &ratus.Task{ID: "a", Topic: "t", Payload: anyPayload("p", rt.Arg("depth", 1))}
	if rt.Choose("times", 2) == 1 {
		x.Produced, x.Scheduled, x.Consumed, x.Deadline = tp("produced", false), tp("scheduled", false), tp("consumed", false), tp("deadline", false)
	}
	c := *x
	var err error
	switch rt.Choose("op", 5) {
	case 0:
		_, err = g.InsertTask(ctx, x)
	case 1:
		_, err = g.UpsertTask(ctx, x)
	case 2:
		_, err = g.InsertTasks(ctx, []*ratus.Task{x})
	case 3:
		_, err = g.UpsertTasks(ctx, []*ratus.Task{x})
	case 4:
		y := *x
		y.Payload = "old"
		_, err = g.InsertTask(ctx, &y)
		must(err)
		rt.Assume(x.Payload != nil)
		var got *ratus.Task
		got, err = g.Commit(ctx, "a", &ratus.Commit{Payload: x.Payload})
		if err == nil {
			rt.Assert(samePayload(got.Payload, c.Payload), "C08: a commit returns the payload it was given")
		}
	}
	seeErr(err)
	rt.Assert(err == nil, "C07: a task with any payload can be stored")
	s, err := g.GetTask(ctx, "a")
	seeErr(err)
	seeTask(s)
	rt.Assert(err == nil, "C07: the task is stored")
	if err == nil {
		rt.Reach("payload")
		rt.Assert(samePayload(s.Payload, c.Payload), "C07,C08,C10: the payload is stored as given")
		s.Payload, c.Payload = "", ""
		rt.Assert(same(s, &c), "C07,C10: the task is stored as given")
	}
}
