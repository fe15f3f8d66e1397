package hh

import (
	"context"
	"errors"
	"strconv"
	"sync"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// interval is a configured duration and the one it stands for.
func interval(l string, missing bool, def time.Duration) (time.Duration, int64) {
	if missing {
		return time.Duration(rt.Int64(l, -1, 0)), int64(def)
	}
	d := rt.Int64(l, 1, 100*second)
	return time.Duration(d), d
}

type poll struct {
	nonce         string
	handled, sent int
	state         ratus.TaskState
	fails         int // commits that fail
	explicit      bool
}

const second = int64(1000000000)

// HTTPSubscribe: a subscription over arbitrary outcomes of polls, handlers and commits.
func HTTPSubscribe() {
	now := setNow()
	n := rt.Arg("n", 1)
	steps := rt.Arg("k", 2)
	conc := n
	narrow := rt.Arg("narrow", 0) == 1
	handlers, commits := []int{0, 1, 2, 3, 4}, 4
	if narrow {
		handlers, commits = []int{0, 3, 4}, 2
	}
	missing := rt.Arg("missing", 0) == 1
	if missing {
		conc, n = int(rt.Int64("concurrency", -1<<63, 1)), 1
	}
	cd, due0 := interval("concurrencyDelay", missing, ratus.DefaultConcurrencyDelay)
	pi, wait := interval("poll", missing, 0)
	dd, drain := interval("drain", missing, ratus.DefaultDrainInterval)
	ed, after := interval("error", missing, ratus.DefaultErrorInterval)
	c := newClient()
	slow := rt.Arg("slow", 0) == 1
	outcomes := 4
	limit := second // the client's limit of time passes, but natively not on the clock of the timers
	if rt.Native() {
		limit = 0
	}
	if slow { // requests that take longer than the client waits
		outcomes = 5
		var err error
		if c, err = ratus.NewClient(&ratus.ClientOptions{Origin: origin(), Timeout: time.Second}); err != nil {
			panic(err)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var mu sync.Mutex
	var due []int64
	for i := 0; i < n; i++ {
		due = append(due, due0*int64(i))
	}
	var tasks []*poll
	polls, running, failed := 0, 0, 0
	stopped := false
	stop := func() {
		stopped = true
		cancel()
	}
	next := func(t int64) { due = append(due, t) }

	eng.onPoll = func(rc context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			rt.Assert(n > 1, "C24: a canceled subscription does not poll again")
			return nil, ratus.ErrNotFound
		}
		at := rt.Elapsed()
		found := -1
		for i, d := range due {
			if found < 0 && d == at {
				found = i
			} else {
				rt.Assert(d >= at, "C24: a poll follows when its interval has passed")
			}
		}
		rt.Assert(found >= 0, "C24: a poll follows exactly when its interval has passed")
		if found >= 0 {
			due = append(due[:found], due[found+1:]...)
		}
		rt.Assert(topic == "t" && p.ID == "" && p.Consumer == "c" && p.Deadline != nil && p.Deadline.Equal(now.Add(90*time.Second)), "C24: every poll makes the configured promise for the configured topic")
		k := polls
		polls++
		if k == steps {
			stop()
			if rt.Native() {
				select {
				case <-rc.Done():
				case <-time.After(2 * time.Second):
				}
			}
			rt.Reach("canceled in a poll")
			return nil, ratus.ErrNotFound
		}
		switch rt.Choose("outcome", outcomes) {
		case 4:
			rt.Reach("slow")
			next(at + limit + after)
			failed++
			mu.Unlock()
			<-rc.Done()
			mu.Lock()
			return nil, ratus.ErrNotFound
		case 1:
			next(at + drain)
			rt.Reach("empty")
			return nil, ratus.ErrNotFound
		case 2:
			next(at + after)
			failed++
			rt.Reach("error")
			return nil, ratus.ErrServiceUnavailable
		case 3:
			next(at + after)
			failed++
			rt.Reach("broken")
			return nil, errAbort
		}
		i := strconv.Itoa(len(tasks))
		t := &poll{nonce: "nonce" + i, state: ratus.TaskStateCompleted}
		tasks = append(tasks, t)
		rt.Reach("task")
		return &ratus.Task{ID: i, Topic: "t", State: ratus.TaskStateActive, Nonce: t.nonce}, nil
	}
	eng.onCommit = func(rc context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
		mu.Lock()
		defer mu.Unlock()
		k, err := strconv.Atoi(id)
		rt.Assert(err == nil && k < len(tasks), "C24: a commit is for a polled task")
		if err != nil || k >= len(tasks) {
			return nil, ratus.ErrBadRequest
		}
		t := tasks[k]
		t.sent++
		at := rt.Elapsed()
		rt.Assert(t.handled == 1, "C24: a task is committed after its handler was called")
		rt.Assert(m.Nonce == t.nonce && m.State != nil && *m.State == t.state, "C24: a commit is what the handler set up for the task")
		o := rt.Choose("commit", commits)
		if slow && rt.Choose("slow", 2) == 1 {
			o = 4
		}
		if o > 0 {
			t.fails++
		}
		if t.explicit && t.sent == 1 && o > 0 {
			return nil, ratus.ErrServiceUnavailable // then the commit is tried again by the subscription
		}
		rt.Assert(t.sent == t.fails+1 || o > 0, "C24: a task is committed once")
		switch o {
		case 1:
			next(at + after)
			failed++
			return nil, ratus.ErrConflict
		case 2:
			next(at + drain)
			return nil, ratus.ErrNotFound
		case 3:
			next(at + after)
			failed++
			return nil, errAbort
		case 4:
			next(at + limit + after)
			failed++
			mu.Unlock()
			<-rc.Done()
			mu.Lock()
			return nil, ratus.ErrNotFound
		}
		next(at + wait)
		return &ratus.Task{ID: id}, nil
	}
	handler := func(x *ratus.Context, err error) {
		mu.Lock()
		defer mu.Unlock()
		running++
		rt.Assert(running <= n, "C24: the configured concurrency bounds the handlers running at once")
		defer func() { running-- }()
		if err != nil {
			rt.Assert(x == nil, "C24: an error comes without a task")
			rt.Assert(!errors.Is(err, ratus.ErrNotFound), "C24: an empty topic is not reported")
			failed--
			rt.Assert(failed >= 0, "C24: an error is passed on once")
			rt.Reach("told")
			return
		}
		rt.Assert(x != nil && x.Task != nil, "C24: a task comes without an error")
		if x == nil || x.Task == nil {
			return
		}
		k, e := strconv.Atoi(x.Task.ID)
		rt.Assert(e == nil && k < len(tasks), "C24: a handled task was polled")
		if e != nil || k >= len(tasks) {
			return
		}
		t := tasks[k]
		t.handled++
		rt.Assert(t.handled == 1, "C24: a task is handled once")
		rt.Assert(x.Task.Nonce == t.nonce, "C24: the handler gets the polled task")
		switch handlers[rt.Choose("handler", len(handlers))] {
		case 1:
			rt.Reach("abstains")
			t.state = ratus.TaskStatePending
			x.Abstain()
		case 2:
			rt.Reach("commits")
			t.explicit = true
			mu.Unlock()
			x.Commit()
			mu.Lock()
		case 3:
			rt.Reach("sleeps")
			d := time.Duration(rt.Int64("sleep", 1, 100*second))
			mu.Unlock()
			rt.Sleep(d)
			mu.Lock()
		case 4:
			rt.Reach("cancels")
			stop()
		}
	}
	rt.Workers(n)
	rt.MustFinish("C24: the subscription does not stall")
	if !narrow && !slow && rt.Choose("later", 2) == 1 {
		rt.At(time.Duration(rt.Int64("later", 0, 100*second)), func() {
			mu.Lock()
			defer mu.Unlock()
			rt.Reach("canceled while waiting")
			stop()
		})
	}
	deadline := now.Add(time.Second)
	err := c.Subscribe(ctx, &ratus.SubscribeOptions{
		Promise: &ratus.Promise{ID: "zz", Consumer: "c", Timeout: "90s", Deadline: &deadline}, Topic: "t",
		Concurrency: conc, ConcurrencyDelay: cd, PollInterval: pi, DrainInterval: dd, ErrorInterval: ed,
	}, handler)
	mu.Lock()
	defer mu.Unlock()
	rt.Reach("returned")
	rt.Assert(stopped, "C24: the subscription goes on until it is canceled")
	rt.Assert(errors.Is(err, context.Canceled), "C24: a canceled subscription returns the cancellation")
	rt.Assert(running == 0, "C24: a returned subscription runs no handler")
	cancel()
}
