package hx

import (
	"time"

	gomemdb "github.com/hashicorp/go-memdb"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/zzverif/mm"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

func init() {
	gomemdb.ZZGate = func(write bool, free func() bool) {
		if !write {
			free = nil
		}
		rt.Gate(free)
	}
}

// res is what an operation answered.
type res struct {
	err  string
	task *ratus.Task
	a, b int64
	list []*ratus.Task
}

// op is one operation; it sees the result of the previous operation of its thread.
type op func(g engine.Engine, prev *res) *res

func sameTask(a, b *ratus.Task) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := *a, *b
	// nonces are random: only whether there is one matters
	ok := (x.Nonce == "") == (y.Nonce == "")
	x.Nonce, y.Nonce = "", ""
	return rt.And(ok, same(&x, &y))
}

// failure is what a failure says; with MongoDB the reason may be that of a later moment.
func failure(e string) string {
	if onMongo && (e == "conflict" || e == "not found") {
		return "refused"
	}
	return e
}

func sameRes(a, b *res) bool {
	if failure(a.err) != failure(b.err) || len(a.list) != len(b.list) {
		return false
	}
	r := rt.And(a.a == b.a, a.b == b.b)
	r = rt.And(r, sameTask(a.task, b.task))
	for i := range a.list {
		r = rt.And(r, sameTask(a.list[i], b.list[i]))
	}
	return r
}

func taskRes(t *ratus.Task, err error) *res {
	lastErr = err
	return &res{err: errKind(err), task: t}
}
func updRes(u *ratus.Updated, err error) *res {
	lastErr = err
	r := &res{err: errKind(err)}
	if u != nil {
		r.a, r.b = u.Created, u.Updated
	}
	return r
}
func delRes(u *ratus.Deleted, err error) *res {
	r := &res{err: errKind(err)}
	if u != nil {
		r.a = u.Deleted
	}
	return r
}

// all possible operations, by number
const (
	opPoll = iota
	opInsertPromise
	opUpsertPromise
	opCommit
	opDeletePromise
	opChore
	opInsertTasks
	opUpsertTasks
	opList
	opDeleteTopic
	opDeletePromises
	opCommitOwn // commit with the nonce of the thread's own claim
	opMove      // commit that reschedules the task in another topic
	opUpsertTask
	opInsertTask
	opDeleteTask
)

// the properties that speak of each operation
var opProps = map[int][]string{opPoll: {"C01", "C03"}, opInsertPromise: {"C03", "C11"}, opUpsertPromise: {"C03", "C11"}, opCommit: {"C04"}, opMove: {"C04", "C08"},
	opDeletePromise: {"C11"}, opDeletePromises: {"C11"}, opChore: {"C05", "C06"}, opInsertTasks: {"C07", "C14"}, opUpsertTasks: {"C07", "C14"},
	opInsertTask: {"C07"}, opUpsertTask: {"C07"}, opDeleteTask: {"C09"}, opDeleteTopic: {"C09"}, opList: {"C10"}}

func propsOf(kinds ...int) string {
	r := ""
	for i := 1; i <= 14; i++ {
		p := "C" + string(rune('0'+i/10)) + string(rune('0'+i%10))
		has := false
		for _, k := range kinds {
			for _, q := range opProps[k] {
				has = has || p == q
			}
		}
		if has {
			if r != "" {
				r += ","
			}
			r += p
		}
	}
	return r
}

func makeOp(p string, kind int, ts []*ratus.Task) op {
	con := "c" + p
	dl := time.Unix(4000000000, 0).UTC()
	promise := func(id string) *ratus.Promise { return &ratus.Promise{ID: id, Consumer: con, Deadline: &dl} }
	pick := func() string { return ids[rt.Choose(p+".id", len(ts))] }
	done := ratus.TaskStateCompleted
	switch kind {
	case opPoll:
		return func(g engine.Engine, _ *res) *res { return taskRes(g.Poll(ctx, "t", promise(""))) }
	case opInsertPromise:
		id := pick()
		return func(g engine.Engine, _ *res) *res { return taskRes(g.InsertPromise(ctx, promise(id))) }
	case opUpsertPromise:
		id := pick()
		return func(g engine.Engine, _ *res) *res { return taskRes(g.UpsertPromise(ctx, promise(id))) }
	case opCommit:
		id := pick()
		n := rt.String(p+".nonce", leastNonce(), 1)
		return func(g engine.Engine, _ *res) *res {
			return taskRes(g.Commit(ctx, id, &ratus.Commit{Nonce: n, State: &done}))
		}
	case opDeletePromise:
		id := pick()
		return func(g engine.Engine, _ *res) *res { return delRes(g.DeletePromise(ctx, id)) }
	case opChore:
		return func(g engine.Engine, _ *res) *res { return &res{err: errKind(g.Chore(ctx))} }
	case opInsertTasks, opUpsertTasks:
		var in []*ratus.Task
		for i := 0; i < 2; i++ {
			id := ids[rt.Choose(p+".id", len(ts)+1)]
			in = append(in, &ratus.Task{ID: id, Topic: "t", Producer: con, Scheduled: &dl, Produced: &dl})
		}
		return func(g engine.Engine, _ *res) *res {
			var c []*ratus.Task
			for _, t := range in {
				x := *t
				c = append(c, &x)
			}
			if kind == opInsertTasks {
				return updRes(g.InsertTasks(ctx, c))
			}
			return updRes(g.UpsertTasks(ctx, c))
		}
	case opList:
		return func(g engine.Engine, _ *res) *res {
			l, err := g.ListTasks(ctx, "t", 10, 0)
			return &res{err: errKind(err), list: l}
		}
	case opDeleteTopic:
		return func(g engine.Engine, _ *res) *res { return delRes(g.DeleteTopic(ctx, "t")) }
	case opDeletePromises:
		return func(g engine.Engine, _ *res) *res { return delRes(g.DeletePromises(ctx, "t")) }
	case opCommitOwn:
		return func(g engine.Engine, prev *res) *res {
			if prev == nil || prev.task == nil {
				return &res{err: "skipped"}
			}
			return taskRes(g.Commit(ctx, prev.task.ID, &ratus.Commit{Nonce: prev.task.Nonce, State: &done}))
		}
	case opMove:
		id := pick()
		pending := ratus.TaskStatePending
		at := time.Unix(1500, 0).UTC()
		return func(g engine.Engine, _ *res) *res {
			return taskRes(g.Commit(ctx, id, &ratus.Commit{Topic: "u", State: &pending, Scheduled: &at, Payload: "moved"}))
		}
	case opInsertTask, opUpsertTask:
		id := ids[rt.Choose(p+".id", len(ts)+1)]
		return func(g engine.Engine, _ *res) *res {
			t := &ratus.Task{ID: id, Topic: "t", Producer: con, Scheduled: &dl, Produced: &dl}
			if kind == opInsertTask {
				return updRes(g.InsertTask(ctx, t))
			}
			return updRes(g.UpsertTask(ctx, t))
		}
	case opDeleteTask:
		id := pick()
		return func(g engine.Engine, _ *res) *res { return delRes(g.DeleteTask(ctx, id)) }
	}
	panic("op")
}

// concTasks: tasks of one topic, due unless said otherwise.
func concTasks(n int) []*ratus.Task {
	var ts []*ratus.Task
	states := []ratus.TaskState{ratus.TaskStatePending, ratus.TaskStateActive}
	for i := 0; i < n; i++ {
		p := "t" + ids[i]
		s := time.Unix(rt.Int64(p+".scheduled", 0, 2000), 0).UTC()
		d := time.Unix(rt.Int64(p+".deadline", 0, 2000), 0).UTC()
		t := &ratus.Task{ID: ids[i], Topic: "t", State: states[rt.Choose(p+".state", 2)], Producer: "p", Scheduled: &s, Produced: &s, Consumed: &s, Deadline: &d}
		if t.State == ratus.TaskStateActive {
			t.Nonce = rt.String(p+".nonce", 1, 1)
		}
		ts = append(ts, t)
	}
	return ts
}

func put(g engine.Engine, ts []*ratus.Task) {
	if onMongo {
		k := mm.ShardKey
		mm.ShardKey = ""
		defer func() { mm.ShardKey = k }()
		g = filler
	}
	for _, t := range ts {
		c := *t
		_, err := g.UpsertTask(ctx, &c)
		must(err)
	}
}

func final(g engine.Engine) []*ratus.Task {
	var out []*ratus.Task
	for _, id := range ids {
		t, err := g.GetTask(ctx, id)
		if err != nil {
			t = nil
		}
		out = append(out, t)
	}
	return out
}

// serial tries every interleaving of whole operations and returns whether one of them explains
// what the threads saw and what they left behind.
func serial(mk func() engine.Engine, ts []*ratus.Task, thr [][]op, got [][]*res, end []*ratus.Task) bool {
	explained := false
	var rec func(order []int, left []int)
	rec = func(order []int, left []int) {
		any := false
		for i := range thr {
			if left[i] > 0 {
				any = true
				l := append([]int{}, left...)
				l[i]--
				rec(append(append([]int{}, order...), i), l)
			}
		}
		if any {
			return
		}
		g := mk()
		put(g, ts)
		at := make([]int, len(thr))
		prev := make([]*res, len(thr))
		ok := true
		for _, i := range order {
			r := thr[i][at[i]](g, prev[i])
			ok = rt.And(ok, sameRes(r, got[i][at[i]]))
			at[i]++
			prev[i] = r
		}
		for k, t := range final(g) {
			ok = rt.And(ok, sameTask(t, end[k]))
		}
		explained = rt.Or(explained, ok)
	}
	left := make([]int, len(thr))
	for i := range thr {
		left[i] = len(thr[i])
	}
	rec(nil, left)
	return explained
}

func runPar(mk func() engine.Engine, ts []*ratus.Task, thr [][]op) ([][]*res, []*ratus.Task) {
	g := mk()
	put(g, ts)
	mm.Gates = onMongo
	got := make([][]*res, len(thr))
	var fs []func()
	for i := range thr {
		i := i
		fs = append(fs, func() {
			var prev *res
			for _, o := range thr[i] {
				prev = o(g, prev)
				got[i] = append(got[i], prev)
			}
		})
	}
	rt.Assert(rt.Par(fs...), "C01,C03,C04,C05,C06,C07,C08,C09,C10,C11,C14: concurrent operations finish")
	mm.Gates = false
	end := final(g)
	for i := range got {
		for _, r := range got[i] {
			rt.Obs("err", r.err)
			seeTask(r.task)
		}
	}
	for _, t := range end {
		seeTask(t)
	}
	return got, end
}

func chooseOps(p string, kinds []int, ts []*ratus.Task) []op {
	return []op{makeOp(p, kinds[rt.Choose(p+".op", len(kinds))], ts)}
}

// ClaimConcMem: concurrent claims.
func ClaimConcMem() { claimConc(mem) }

func claimConc(mk func() engine.Engine) {
	n := rt.Arg("n", 2)
	ts := concTasks(n)
	rt.SetNow(time.Unix(rt.Int64("now", 0, 2000), 0).UTC())
	kinds := []int{opPoll, opInsertPromise}
	var thr [][]op
	for i := 0; i < rt.Arg("threads", 3); i++ {
		thr = append(thr, chooseOps(ids[i], kinds, ts))
	}
	got, end := runPar(mk, ts, thr)
	claimed := map[string]int{}
	for i := range got {
		r := got[i][0]
		if r.err != "" {
			rt.Assert(r.err == "conflict" || r.err == "not found", "C03: a claim that fails reports a conflict or not found")
			continue
		}
		rt.Reach("claimed")
		claimed[r.task.ID]++
		rt.Assert(claimed[r.task.ID] == 1, "C03: a pending task is claimed by at most one consumer")
		rt.Assert(r.task.Consumer == "c"+ids[i], "C03: a consumer gets its own claim")
		for k := range ids {
			if ids[k] == r.task.ID {
				rt.Assert(end[k] != nil, "C03: a claimed task is stored")
				if end[k] != nil {
					rt.Assert(same(end[k], r.task), "C03: the stored task carries the data of the consumer that owns it")
				}
			}
		}
	}
	rt.Assert(serial(mk, ts, thr, got, end), "C03: concurrent claims behave as if made one after another")
}

// CommitConcMem: a claim and its commit beside operations that end the claim.
func CommitConcMem() { commitConc(mem) }

func commitConc(mk func() engine.Engine) {
	ts := concTasks(rt.Arg("n", 1))
	rt.SetNow(time.Unix(rt.Int64("now", 0, 2000), 0).UTC())
	first := []int{opPoll, opInsertPromise, opUpsertPromise}
	other := []int{opPoll, opInsertPromise, opUpsertPromise, opCommit, opDeletePromise, opChore, opDeletePromises}
	a := append(chooseOps("a", first, ts), makeOp("a", opCommitOwn, ts))
	thr := [][]op{a, chooseOps("b", other, ts)}
	if rt.Arg("more", 0) == 1 {
		thr[1] = append(thr[1], chooseOps("B", other, ts)...)
	}
	if rt.Arg("threads", 2) > 2 {
		thr = append(thr, chooseOps("c", other, ts))
	}
	got, end := runPar(mk, ts, thr)
	rt.Reach("claim and commit")
	rt.Assert(serial(mk, ts, thr, got, end), "C04: claims, commits, releases and chores behave as if made one after another")
}

// BatchConcMem: batches beside readers and other writers.
func BatchConcMem() {
	ts := concTasks(rt.Arg("n", 1))
	rt.SetNow(time.Unix(1000, 0).UTC())
	a := []int{opInsertTasks, opUpsertTasks, opDeleteTopic, opDeletePromises}
	b := []int{opList, opInsertTasks, opUpsertTasks, opPoll, opDeleteTopic}
	thr := [][]op{chooseOps("a", a, ts), chooseOps("b", b, ts)}
	if rt.Arg("reads", 0) == 1 {
		thr[1] = []op{makeOp("b", opList, ts), makeOp("b", opList, ts)}
	}
	got, end := runPar(mem, ts, thr)
	rt.Reach("batch")
	rt.Assert(serial(mem, ts, thr, got, end), "C07,C14: a batch takes effect all at once")
}

// PairConcMem: any two operations at the same time.
func PairConcMem() { pairConc(mem) }

func pairConc(mk func() engine.Engine) {
	ts := concTasks(rt.Arg("n", 1))
	rt.SetNow(time.Unix(rt.Int64("now", 0, 2000), 0).UTC())
	kinds := []int{opPoll, opInsertPromise, opUpsertPromise, opCommit, opMove, opDeletePromise, opDeletePromises, opChore,
		opInsertTasks, opUpsertTasks, opInsertTask, opUpsertTask, opDeleteTask, opDeleteTopic, opList}
	switch rt.Arg("mongo", 0) {
	case 1: // single commands
		kinds = []int{opPoll, opInsertPromise, opUpsertPromise, opCommit, opMove, opDeletePromise, opDeletePromises, opChore,
			opInsertTask, opUpsertTask, opDeleteTask, opDeleteTopic, opList}
	case 2: // fallbacks
		kinds = []int{opPoll, opInsertPromise, opUpsertPromise, opCommit, opDeletePromise, opDeletePromises, opChore,
			opInsertTask, opDeleteTask, opDeleteTopic, opList}
	}
	ka := kinds[rt.Choose("a.op", len(kinds))]
	kb := kinds[rt.Choose("b.op", len(kinds))]
	if ka > kb {
		rt.Assume(false)
	}
	thr := [][]op{{makeOp("a", ka, ts)}, {makeOp("b", kb, ts)}}
	got, end := runPar(mk, ts, thr)
	rt.Reach("pair")
	rt.Assert(serial(mk, ts, thr, got, end), propsOf(ka, kb)+": two concurrent operations behave as if made one after the other")
}
