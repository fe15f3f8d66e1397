// Package hm holds the harnesses for the main program: the real code of cmd/ratus, with the real
// router, controllers and in-memory engine, on virtual time.
package hm

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"syscall"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/mc"
	"github.com/hyperonym/ratus/internal/zzverif/mf"
	_ "github.com/hyperonym/ratus/internal/zzverif/mg"
	_ "github.com/hyperonym/ratus/internal/zzverif/mj"
	_ "github.com/hyperonym/ratus/internal/zzverif/mp"
	"github.com/hyperonym/ratus/internal/zzverif/prog"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

const path = "/data/ratus.db"

var (
	ctx   = context.Background()
	start = time.Date(2022, 7, 1, 12, 0, 0, 0, time.UTC)
)

func setup(opts ...mc.Option) {
	rt.Idle(40 * time.Millisecond)
	gin.SetMode(gin.ReleaseMode)
	mf.Reset()
	rt.SetNow(start)
	mc.Options = opts
	mc.OnOpen, mc.OnChore, mc.OnInsert, mc.OnClose, mc.OnList, mc.ErrNew, mc.Made = nil, nil, nil, nil, nil, nil, nil
	mc.Busy = map[string]bool{}
}

// launch starts the process; nothing it does after its end reaches the disk.
func launch() <-chan struct{} { return mc.Start(prog.Main, func() { mf.Crashed = true }) }

// await waits for the end of the process, up to a time.
func await(done <-chan struct{}, limit time.Duration) bool {
	late := make(chan struct{})
	rt.At(limit, func() { close(late) })
	select {
	case <-done:
		return true
	case <-late:
		return mc.Exited
	}
}

func signal() os.Signal {
	if rt.Choose("signal", 2) == 1 {
		return os.Interrupt
	}
	return syscall.SIGTERM
}

type recorder struct {
	code int
	head http.Header
}

func (r *recorder) Header() http.Header { return r.head }
func (r *recorder) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	return len(b), nil
}
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}

// send sends a request to the process.
func send(addr, method, p, query, body string) (code int, accepted, answered bool) {
	r := &http.Request{
		Method: method, URL: &url.URL{Path: p, RawQuery: query},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h",
		Body: io.NopCloser(bytes.NewReader([]byte(body))), ContentLength: int64(len(body)),
	}
	if body != "" {
		r.Header.Set("Content-Type", "application/json")
	}
	w := &recorder{head: http.Header{}}
	accepted, answered = mc.Do(addr, w, r)
	return w.code, accepted, answered
}

// stored tells whether a new process finds the task.
func stored(id string) bool {
	mf.Restart()
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
	if err != nil {
		return false
	}
	if err := g.Open(ctx); err != nil {
		return false
	}
	t, err := g.GetTask(ctx, id)
	return err == nil && t.ID == id
}

// ServeStop sends a request and a signal to the process at any times.
func ServeStop() {
	setup(mc.Opt("port", int64(8080)), mc.Opt("memdb-snapshot-path", path),
		mc.Dur("chore-interval", time.Duration(rt.Choose("chores", 2))*4*time.Second), mc.Dur("memdb-snapshot-interval", 0))
	at := rt.Int64("at", 1, 5_000_000_000)
	need := rt.Int64("need", 0, 5_000_000_000)
	stop := rt.Int64("stop", 1, 5_000_000_000)
	rt.Assume(at != stop)
	rt.Assume(at+need != stop)
	sig := signal()
	again := rt.Arg("again", 0) == 1 && rt.Choose("again", 2) == 1
	busy := 0
	mc.OnInsert = func() {
		busy++
		rt.Sleep(time.Duration(need))
		busy--
	}
	mc.OnClose = func() {
		rt.Assert(busy == 0, "C27: the engine is closed after the requests being served")
	}
	var code int
	var accepted, answered bool
	rt.At(time.Duration(at), func() {
		code, accepted, answered = send("0.0.0.0:8080", "POST", "/v1/topics/t/tasks/x", "", `{"payload":1}`)
	})
	faults := rt.Arg("faults", 0)
	rt.At(time.Duration(stop), func() {
		mf.Faults = faults
		mc.Raise(sig)
		if again {
			mc.Raise(sig)
		}
	})
	done := launch()
	ended := await(done, 60*time.Second)
	rt.Assert(ended, "C27: the process ends after the signal")
	if !ended {
		return
	}
	left := mf.Faults
	rt.Assert(!mc.Killed, "C27: the signal is handled")
	if left == faults {
		rt.Assert(mc.Code == 0, "C27: the process ends with status 0")
	}
	if at < stop {
		rt.Reach("before the signal")
		rt.Assert(accepted && answered, "C27: a request sent before the signal is answered")
		rt.Assert(rt.Implies(answered, code == 201), "C27: the task is created")
	} else {
		rt.Reach("after the signal")
		rt.Assert(!accepted, "C27: no request is accepted after the signal")
	}
	if answered && code/100 == 2 && mc.Code == 0 {
		rt.Assert(stored("x"), "C27: after a clean exit an acknowledged task is in the snapshot")
	}
	if mc.Code != 0 {
		rt.Reach("failed")
	}
}

var errStart = errors.New("no such host")

// ServeFail makes the start of the process fail.
func ServeFail() {
	kind := rt.Choose("kind", 7)
	opts := []mc.Option{mc.Opt("port", int64(8080)), mc.Opt("memdb-snapshot-path", path), mc.Dur("chore-interval", time.Second)}
	switch kind {
	case 3:
		opts = append(opts, mc.Opt("engine", "memory"))
	case 4:
		opts = append(opts, mc.Opt("chore-interval", "soon"))
	case 5:
		opts = append(opts, mc.Opt("unknown", "x"))
	}
	setup(opts...)
	// an earlier process left a task
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
	rt.Assume(err == nil)
	rt.Assume(g.Open(ctx) == nil)
	_, err = g.InsertTask(ctx, &ratus.Task{ID: "x", Topic: "t", Produced: &start, Scheduled: &start})
	rt.Assume(err == nil)
	rt.Assume(g.Close(ctx) == nil)
	switch kind {
	case 0:
		mc.Busy["0.0.0.0:8080"] = true
	case 1:
		mc.OnOpen = func() error { return errStart }
	case 2:
		mc.ErrNew = errStart
	case 6:
		mf.WriteFile(path, []byte("not a snapshot"), 0o600)
	}
	runs := 0
	mc.OnChore = func() error { runs++; return nil }
	done := launch()
	ended := await(done, time.Minute)
	rt.Assert(ended, "C27: the process ends when it cannot start")
	if !ended {
		return
	}
	rt.Assert(mc.Code != 0, "C27: the process ends with an error when it cannot start")
	rt.Assert(len(mc.Listened) == 0, "C27: a process without its engine does not listen")
	if kind != 6 {
		rt.Assert(stored("x"), "C27: a process that cannot start leaves the snapshot as it was")
	}
}

// Chores runs the background jobs of a process that is told to stop after some time.
func Chores() {
	hour := int64(time.Hour)
	long := rt.Arg("long", 0) == 1
	var every, delay int64
	if long { // whole units of about a millisecond
		hour = 1 << 33
		every, delay = rt.Int64("every", 1, 1<<13)<<20, rt.Int64("delay", 0, 1<<13)<<20
	} else {
		every, delay = rt.Int64("every", 1_000_000, hour), rt.Int64("delay", 0, hour)
	}
	random := rt.Arg("random", 0) == 1
	n := rt.Arg("runs", 3)
	opts := []mc.Option{mc.Opt("port", int64(0)), mc.Dur("chore-interval", time.Duration(every)), mc.Dur("chore-initial-delay", time.Duration(delay))}
	if random {
		opts = append(opts, mc.Opt("chore-initial-random", true))
	}
	setup(opts...)
	var begin, end []int64
	running, closed := false, false
	fails := rt.Bool("fails")
	sig := signal()
	full := make(chan struct{})
	mc.OnChore = func() error {
		rt.Assert(!running, "C28: the background jobs never overlap")
		rt.Assert(!closed, "C27: no background job uses a closed engine")
		running = true
		begin = append(begin, rt.Elapsed())
		if long && len(begin) <= n {
			took := rt.Int64("took", 0, 1<<14) << 20
			rt.Assume(took <= 2*every)
			rt.Sleep(time.Duration(took))
		}
		end = append(end, rt.Elapsed())
		running = false
		if len(begin) == n {
			close(full)
		}
		if fails {
			return errStart
		}
		return nil
	}
	mc.OnClose = func() {
		closed = true
		rt.Assert(!running, "C27: the engine is closed after the background job being run")
	}
	done := launch()
	rt.At(time.Duration(int64(n+2)*3*hour), func() {
		rt.Assert(len(begin) >= n, "C28: the background jobs go on")
	})
	select {
	case <-full:
	case <-done:
		rt.Assert(false, "C28: the process goes on until the signal")
		return
	}
	const slack = 2000
	if random {
		rt.Assert(begin[0] <= delay+slack, "C28: the random delay does not exceed the initial delay")
	} else {
		rt.Assert(begin[0] >= delay && begin[0] <= delay+slack, "C28: the background jobs start after the initial delay")
	}
	for i := 1; i < n; i++ {
		rt.Assert(begin[i] >= begin[0]+int64(i)*every-slack, "C28: the background jobs do not run more often than the interval")
		rt.Assert(begin[i] <= end[i-1]+every+slack, "C28: the background jobs run every interval")
	}
	mc.Raise(sig)
	ended := await(done, 3*time.Hour)
	rt.Assert(ended && !mc.Killed && mc.Code == 0, "C27: the process ends after the signal")
	if long {
		// one that was due when the previous one ended may have started
		rt.Assert(len(begin) <= n+1, "C28: no background job starts after the signal")
	} else {
		rt.Assert(len(begin) == n, "C28: no background job starts after the signal")
	}
}

// ChoresOff runs a process without background jobs.
func ChoresOff() {
	every := rt.Int64("every", -int64(time.Hour), 0)
	port := int64(rt.Choose("port", 2)) * 8080
	setup(mc.Opt("port", port), mc.Dur("chore-interval", time.Duration(every)))
	mc.OnChore = func() error {
		rt.Assert(false, "C28: no background job runs without an interval")
		return nil
	}
	done := launch()
	rt.At(time.Minute, func() {
		rt.Assert(mc.Exited == (port == 0), "C28: the process serves requests only")
		if !mc.Exited {
			_, _, ok := send("0.0.0.0:8080", "GET", "/v1/topics", "", "")
			rt.Assert(ok, "C28: the process serves requests only")
		}
		mc.Raise(os.Interrupt)
	})
	rt.Assert(await(done, time.Hour), "C27: the process ends after the signal")
}
