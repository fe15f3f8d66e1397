package hm

import (
	"strconv"
	"time"

	"github.com/hyperonym/ratus/internal/zzverif/mc"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type option struct {
	name, short, env string
	def              any
	alt              int // how an other value is made: see value
}

// The options of the program, with the defaults its help shows.
var table = []option{
	{"engine", "", "ENGINE", "memdb", 0},
	{"port", "p", "PORT", int64(80), 1},
	{"bind", "b", "BIND", "0.0.0.0", 2},
	{"chore-interval", "", "CHORE_INTERVAL", 10 * time.Second, 3},
	{"chore-initial-delay", "", "CHORE_INITIAL_DELAY", time.Duration(0), 3},
	{"chore-initial-random", "", "CHORE_INITIAL_RANDOM", false, 4},
	{"pagination-max-limit", "", "PAGINATION_MAX_LIMIT", int64(100), 5},
	{"pagination-max-offset", "", "PAGINATION_MAX_OFFSET", int64(10000), 5},
	{"memdb-snapshot-path", "", "MEMDB_SNAPSHOT_PATH", "", 6},
	{"memdb-snapshot-interval", "", "MEMDB_SNAPSHOT_INTERVAL", 5 * time.Minute, 3},
	{"memdb-retention-period", "", "MEMDB_RETENTION_PERIOD", 72 * time.Hour, 3},
	{"mongodb-uri", "", "MONGODB_URI", "mongodb://127.0.0.1:27017", 6},
	{"mongodb-database", "", "MONGODB_DATABASE", "ratus", 6},
	{"mongodb-collection", "", "MONGODB_COLLECTION", "tasks", 6},
	{"mongodb-retention-period", "", "MONGODB_RETENTION_PERIOD", 72 * time.Hour, 3},
	{"mongodb-disable-index-creation", "", "MONGODB_DISABLE_INDEX_CREATION", false, 4},
	{"mongodb-disable-auto-fallback", "", "MONGODB_DISABLE_AUTO_FALLBACK", false, 4},
	{"mongodb-disable-atomic-poll", "", "MONGODB_DISABLE_ATOMIC_POLL", false, 4},
}

func value(l string, kind int) any {
	switch kind {
	case 0:
		return []string{"mongodb", "MongoDB", "MEMDB", "memdb"}[rt.Choose(l, 4)]
	case 1:
		return []int64{1, 8080, 65535}[rt.Choose(l, 3)]
	case 2:
		return []string{"127.0.0.1", "localhost", ""}[rt.Choose(l, 2)]
	case 3:
		return time.Duration(rt.Int64(l, 1_000_000, int64(1000*time.Hour)))
	case 4:
		return true
	case 5:
		return int64([]int{1, 7, 100000}[rt.Choose(l, 3)])
	}
	return rt.StringIn(l, 3, 3, 'a', 'z')
}

// Options starts the process with one option set in any way, or several.
func Options() {
	i := rt.Choose("option", len(table)+1)
	want := map[string]any{}
	for _, o := range table {
		want[o.name] = o.def
	}
	var opts []mc.Option
	flag := func(n string, v any) {
		opts = append(opts, mc.Opt(n, v))
		want[n] = v
	}
	mongo := false
	if i < len(table) {
		o := table[i]
		v := value("value", o.alt)
		ways := 3
		if o.short != "" {
			ways = 5
		}
		switch rt.Choose("way", ways) {
		case 0:
			flag(o.name, v)
		case 1:
			opts = append(opts, mc.Env(o.env, v))
			want[o.name] = v
		case 2:
			opts = append(opts, mc.Env(o.env, value("hidden", o.alt)))
			flag(o.name, v)
		case 3:
			flag(o.short, v)
			want[o.name] = v
		case 4:
			opts = append(opts, mc.Env(o.env, value("hidden", o.alt)))
			flag(o.short, v)
			want[o.name] = v
		}
		mongo = i >= 11
	} else {
		mongo = rt.Choose("mongo", 2) == 1
	}
	if mongo {
		flag("engine", "mongodb")
	}
	if i == 5 {
		flag("chore-initial-delay", time.Minute)
	}
	setup(opts...)
	rt.RandFloats = []int{512}
	var runs []int64
	mc.OnChore = func() error { runs = append(runs, rt.Elapsed()); return nil }
	limit, offset := -1, -1
	mc.OnList = func(l, o int) { limit, offset = l, o }
	done := launch()
	addr := want["bind"].(string) + ":" + strconv.FormatInt(want["port"].(int64), 10)
	every, delay := int64(want["chore-interval"].(time.Duration)), int64(want["chore-initial-delay"].(time.Duration))
	if want["chore-initial-random"].(bool) {
		delay /= 2
	}
	rt.At(time.Duration(delay+every+every/2+1000), func() {
		rt.Assert(len(mc.Listened) == 1 && mc.Listened[0] == addr, "C29: the server listens on the configured port and address")
		rt.Assert(len(runs) == 2, "C29: the background jobs run as configured")
		if len(runs) == 2 {
			rt.Assert(runs[0] >= delay && runs[0] <= delay+100 && runs[1]-runs[0] >= every-100 && runs[1]-runs[0] <= every+100, "C29: the background jobs run as configured")
		}
		maxL, maxO := want["pagination-max-limit"].(int64), want["pagination-max-offset"].(int64)
		get := func(l, o int64) bool {
			limit, offset = -1, -1
			code, _, ok := send(addr, "GET", "/v1/topics", "limit="+strconv.FormatInt(l, 10)+"&offset="+strconv.FormatInt(o, 10), "")
			return ok && code == 200 && int64(limit) == l && int64(offset) == o
		}
		rt.Assert(get(maxL, maxO), "C29: pages up to the configured limits are served")
		rt.Assert(!get(maxL+1, 0) && !get(1, maxO+1), "C29: pages beyond the configured limits are not")
		m := mc.Made
		switch engine := want["engine"].(string); {
		case engine == "memdb" || engine == "MEMDB":
			rt.Assert(m != nil && m.Memdb != nil, "C29: the configured engine is used")
			rt.Assert(m.Memdb.SnapshotPath == want["memdb-snapshot-path"].(string) &&
				m.Memdb.SnapshotInterval == want["memdb-snapshot-interval"].(time.Duration) &&
				m.Memdb.RetentionPeriod == want["memdb-retention-period"].(time.Duration), "C29: the in-memory engine is configured")
		default:
			rt.Assert(m != nil && m.Mongo != nil, "C29: the configured engine is used")
			c := m.Mongo
			rt.Assert(c.URI == want["mongodb-uri"].(string) && c.Database == want["mongodb-database"].(string) && c.Collection == want["mongodb-collection"].(string) &&
				c.RetentionPeriod == want["mongodb-retention-period"].(time.Duration), "C29: the MongoDB engine is configured")
			rt.Assert(c.DisableIndexCreation == want["mongodb-disable-index-creation"].(bool) && c.DisableAutoFallback == want["mongodb-disable-auto-fallback"].(bool) &&
				c.DisableAtomicPoll == want["mongodb-disable-atomic-poll"].(bool), "C29: the MongoDB engine is configured")
		}
		mc.Raise(signal())
	})
	rt.Assert(await(done, 10000*time.Hour), "C27: the process ends after the signal")
}
