From c39421d5de554cda2fee21e16fbe4e5ebae14976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 01/19] fix: do not poll tasks of other topics in MemDB

The lower bound iterator continues into the next topic when the polled
topic has no pending tasks, so a task of another topic was returned.
---
 internal/engine/memdb/queue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..c550422 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,13 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound scan may run past the end of the topic.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From 37f4c8f81c5845245c122a10086a779498d86c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 02/19] fix: include times before the Unix epoch in MemDB queue
 operations

Tasks with a scheduled time, deadline or consumed time before 1970 were
never polled, recovered or deleted as the scans started at the epoch.
---
 internal/engine/memdb/queue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index c550422..4f58b66 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -2,11 +2,15 @@ package memdb
 
 import (
 	"context"
+	"math"
 	"time"
 
 	"github.com/hyperonym/ratus"
 )
 
+// minTime is the lower bound of the instants encoded in the time indexes.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // Chore recovers timed out tasks and deletes expired tasks.
 func (g *Engine) Chore(ctx context.Context) error {
 	txn := g.database.Txn(true)
@@ -14,7 +18,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +34,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +78,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 85f2df54a036ed570c309072aece75f553a80213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 03/19] fix: index names containing null bytes correctly in
 MemDB

Index values are null-terminated, so a name followed by a null byte was a
prefix of other names: deleting or listing one topic, or deleting one task,
also hit others, and index keys of different tasks could collide.
---
 internal/engine/memdb/indexer.go | 44 ++++++++++++++++++++++++++++++++
 internal/engine/memdb/memdb.go   |  8 +++---
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..d37ef83 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -6,9 +6,53 @@ import (
 	"reflect"
 	"time"
 
+	"github.com/hashicorp/go-memdb"
+
 	"github.com/hyperonym/ratus"
 )
 
+// NameFieldIndex encodes name fields for index building. In contrast to
+// memdb.StringFieldIndex, null bytes within the names will not be mistaken for
+// the end of the value.
+type NameFieldIndex struct {
+	Field string
+}
+
+// FromObject implements the memdb.SingleIndexer interface.
+func (i *NameFieldIndex) FromObject(obj any) (bool, []byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	ok, b, err := x.FromObject(obj)
+	if !ok || err != nil {
+		return ok, nil, err
+	}
+	return true, i.escape(b), nil
+}
+
+// FromArgs implements the memdb.Indexer interface.
+func (i *NameFieldIndex) FromArgs(args ...any) ([]byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	b, err := x.FromArgs(args...)
+	if err != nil {
+		return nil, err
+	}
+	return i.escape(b), nil
+}
+
+// escape encodes null bytes within the null-terminated value in an order
+// preserving manner, so that no value is a prefix of another value.
+func (i *NameFieldIndex) escape(b []byte) []byte {
+	n := len(b) - 1
+	v := make([]byte, 0, len(b))
+	for _, c := range b[:n] {
+		if c <= 1 {
+			v = append(v, 1, c+1)
+		} else {
+			v = append(v, c)
+		}
+	}
+	return append(v, b[n])
+}
+
 // StateFieldIndex encodes task state fields for index building.
 type StateFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..6280e36 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -72,13 +72,13 @@ func New(c *Config) (*Engine, error) {
 						Name:         indexID,
 						AllowMissing: false,
 						Unique:       true,
-						Indexer:      &memdb.StringFieldIndex{Field: keyID},
+						Indexer:      &NameFieldIndex{Field: keyID},
 					},
 					indexTopic: {
 						Name:         indexTopic,
 						AllowMissing: false,
 						Unique:       false,
-						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},
+						Indexer:      &NameFieldIndex{Field: keyTopic},
 					},
 					indexPendingTopicScheduled: {
 						Name:         indexPendingTopicScheduled,
@@ -87,7 +87,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStatePending},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&NameFieldIndex{Field: keyTopic},
 								&TimeFieldIndex{Field: keyScheduled},
 							},
 						},
@@ -110,7 +110,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&NameFieldIndex{Field: keyTopic},
 							},
 						},
 					},
-- 
2.43.0


From f4041d8d0ef10649101f4d62293bc76f2cac69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 04/19] fix: reject null elements in task lists

A request body such as {"data":[null]} caused a nil pointer dereference.
---
 internal/middleware/task.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..9185d90 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -77,6 +77,11 @@ func Tasks() gin.HandlerFunc {
 
 func normalizeTask(t *ratus.Task, id, topic string) error {
 
+	// Elements in a task list could be null.
+	if t == nil {
+		return errors.New("task must not be null")
+	}
+
 	// Normalize and validate ID.
 	if t.ID == "" {
 		t.ID = id
-- 
2.43.0


From 1eb1ddbbe89c6be30488463f081fc4f59bf27466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 05/19] fix: reject malformed commits and promises

Errors of binding the request were ignored, so a malformed commit completed
the task and a malformed promise claimed a task with the default timeout.
---
 internal/middleware/commit.go  |  6 +++++-
 internal/middleware/promise.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From e05b7271f0b033a167b77e9e8a5884846466da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 06/19] fix: reject parameters that are not valid UTF-8

Prometheus panics on label values that are not valid UTF-8, so such requests
were executed but their handlers crashed.
---
 internal/controller/controller.go |  2 +-
 internal/middleware/encoding.go   | 32 +++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)
 create mode 100644 internal/middleware/encoding.go

diff --git a/internal/controller/controller.go b/internal/controller/controller.go
index 4bdaaf5..b4bd917 100644
--- a/internal/controller/controller.go
+++ b/internal/controller/controller.go
@@ -54,7 +54,7 @@ func (v *V1) Prefixes() []string {
 
 // Mount initializes group-level middlewares and mounts the endpoints.
 func (v *V1) Mount(r *gin.RouterGroup) {
-	r.Use(middleware.Prometheus())
+	r.Use(middleware.Encoding(), middleware.Prometheus())
 
 	r.GET("/topics", v.Pagination, v.Topic.GetTopics)
 	r.DELETE("/topics", v.Topic.DeleteTopics)
diff --git a/internal/middleware/encoding.go b/internal/middleware/encoding.go
new file mode 100644
index 0000000..614dd71
--- /dev/null
+++ b/internal/middleware/encoding.go
@@ -0,0 +1,32 @@
+package middleware
+
+import (
+	"fmt"
+	"unicode/utf8"
+
+	"github.com/gin-gonic/gin"
+
+	"github.com/hyperonym/ratus"
+)
+
+// Encoding returns a middleware that rejects requests with parameters that are
+// not valid UTF-8, which could neither be represented in JSON nor in metrics.
+func Encoding() gin.HandlerFunc {
+	return func(c *gin.Context) {
+		for _, p := range c.Params {
+			if !utf8.ValidString(p.Value) {
+				fail(c, fmt.Errorf("%w: path parameters must be valid UTF-8", ratus.ErrBadRequest))
+				return
+			}
+		}
+		for _, vs := range c.Request.URL.Query() {
+			for _, v := range vs {
+				if !utf8.ValidString(v) {
+					fail(c, fmt.Errorf("%w: query parameters must be valid UTF-8", ratus.ErrBadRequest))
+					return
+				}
+			}
+		}
+		c.Next()
+	}
+}
-- 
2.43.0


From 393a1793ff7ee83990de0b7592ef49d4ebbf84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 07/19] fix: report failures to finish writing snapshots

Errors of closing or renaming the temporary snapshot file were ignored, so a
snapshot could be reported as saved, or replace the previous one, although it
was not completely written.
---
 internal/engine/memdb/memdb.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 6280e36..76a9f95 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -236,7 +236,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -246,13 +246,15 @@ func save(db *memdb.MemDB, path string) error {
 	}
 
 	// Rename or delete the temporary file before returning.
-	var ok bool
 	defer func() {
-		f.Close()
-		if !ok {
+		if e := f.Close(); err == nil {
+			err = e
+		}
+		if err == nil {
+			err = os.Rename(p, path)
+		}
+		if err != nil {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
@@ -271,9 +273,6 @@ func save(db *memdb.MemDB, path string) error {
 	}
 	txn.Commit()
 
-	// Mark the operation as successful.
-	ok = true
-
 	return nil
 }
 
-- 
2.43.0


From 4a347d054ae5b84a70cde835811b21f591132092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 08/19] fix: accept empty task lists in MongoDB

The driver rejects bulk writes without operations, so inserting or upserting
an empty list of tasks resulted in an internal server error.
---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..197b3d2 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must contain at least one operation.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 89203a0fe8d7d252df1489454073dd6f9f2164fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 09/19] fix: do not redirect empty names to the endpoint of the
 collection

Deleting a topic with an empty name was redirected to the deletion of all
topics, and getting one to the list of topics.
---
 internal/router/router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..47dac4b 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,11 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// Do not redirect paths that end with an empty name to the endpoint of the
+	// collection, otherwise deleting a topic with an empty name would delete
+	// all the topics.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From a9e31202c72a5cdf6b8627f2cdf7d9b8baf4f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 10/19] fix: keep request headers that are configured in
 another spelling

---
 transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 607611c..6de7d0a 100644
--- a/transport.go
+++ b/transport.go
@@ -55,7 +55,7 @@ func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
 
 	// Set common header fields.
 	for k, v := range t.headers {
-		if _, ok := r.Header[k]; !ok {
+		if _, ok := r.Header[http.CanonicalHeaderKey(k)]; !ok {
 			r.Header.Set(k, v)
 		}
 	}
-- 
2.43.0


From 945632202d5f7454a23f89f0e0556e0c736d5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 11/19] fix: write snapshots of times that cannot be encoded
 with their time zone

---
 internal/engine/memdb/memdb.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 76a9f95..758045d 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -267,7 +267,12 @@ func save(db *memdb.MemDB, path string) (err error) {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		u := clone(r.(*ratus.Task))
+		u.Produced = encodable(u.Produced)
+		u.Scheduled = encodable(u.Scheduled)
+		u.Consumed = encodable(u.Consumed)
+		u.Deadline = encodable(u.Deadline)
+		if err := enc.Encode(u); err != nil {
 			return err
 		}
 	}
@@ -276,6 +281,19 @@ func save(db *memdb.MemDB, path string) (err error) {
 	return nil
 }
 
+// encodable returns the specified time, or the same instant in UTC if its time
+// zone could not be represented in binary encoding.
+func encodable(t *time.Time) *time.Time {
+	if t == nil {
+		return nil
+	}
+	if _, err := t.MarshalBinary(); err != nil {
+		u := t.UTC()
+		return &u
+	}
+	return t
+}
+
 // load recovers data from a snapshot file.
 func load(db *memdb.MemDB, path string) error {
 
-- 
2.43.0


From 01294a9a3ca9a134445794d6b23b579bb25260b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 12/19] fix: keep empty lists in payloads when restoring
 snapshots

---
 internal/engine/memdb/memdb.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 758045d..01df6ce 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -319,6 +319,7 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		t.Payload = restore(t.Payload)
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
@@ -327,3 +328,29 @@ func load(db *memdb.MemDB, path string) error {
 
 	return nil
 }
+
+// restore recovers empty lists in a decoded payload, as they are decoded to
+// nil slices which represent null values.
+func restore(v any) any {
+	switch p := v.(type) {
+	case []any:
+		if p == nil {
+			return []any{}
+		}
+		for i := range p {
+			p[i] = restore(p[i])
+		}
+	case []map[string]any:
+		if p == nil {
+			return []map[string]any{}
+		}
+		for i := range p {
+			restore(p[i])
+		}
+	case map[string]any:
+		for k := range p {
+			p[k] = restore(p[k])
+		}
+	}
+	return v
+}
-- 
2.43.0


From 79570105a585d2c3c7f5b938bbad219b436d3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 13/19] fix: report tasks replaced with identical ones as
 updated

---
 internal/engine/mongodb/task.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 197b3d2..3573743 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -91,9 +91,10 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 		return nil, err
 	}
 
+	// Replacing a task with an identical one matches but does not modify it.
 	return &ratus.Updated{
 		Created: r.InsertedCount + r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
@@ -195,9 +196,10 @@ func (g *Engine) upsertTaskReplace(ctx context.Context, t *ratus.Task) (*ratus.U
 		return nil, err
 	}
 
+	// Replacing a task with an identical one matches but does not modify it.
 	return &ratus.Updated{
 		Created: r.UpsertedCount,
-		Updated: r.ModifiedCount,
+		Updated: r.MatchedCount,
 	}, nil
 }
 
-- 
2.43.0


From 9366f2c5ba34a6332f5fc3df37f13b299e95b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 14/19] fix: let the last task win when a batch falls back to
 delete and insert

---
 internal/engine/mongodb/task.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 3573743..d3d9660 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -101,6 +101,10 @@ func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*rat
 // upsertTasksDeleteAndInsert is the fallback implementation of UpsertTasks.
 func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
+	// Later tasks in the batch replace earlier ones with the same ID.
+	n := len(ts)
+	ts = lastOccurrences(ts)
+
 	// Delete tasks with the same IDs before inserting to avoid modification of
 	// shard key values. It's ugly, but as far as I know it's the only way to
 	// circumvent MongoDB's own limitations on sharded collections:
@@ -129,10 +133,25 @@ func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Tas
 
 	return &ratus.Updated{
 		Created: int64(len(ts)) - r.DeletedCount,
-		Updated: r.DeletedCount,
+		Updated: int64(n-len(ts)) + r.DeletedCount,
 	}, nil
 }
 
+// lastOccurrences returns the tasks with only the last one of each ID.
+func lastOccurrences(ts []*ratus.Task) []*ratus.Task {
+	m := make(map[string]int, len(ts))
+	for i, t := range ts {
+		m[t.ID] = i
+	}
+	v := make([]*ratus.Task, 0, len(m))
+	for i, t := range ts {
+		if m[t.ID] == i {
+			v = append(v, t)
+		}
+	}
+	return v
+}
+
 // DeleteTasks deletes all tasks in a topic.
 func (g *Engine) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
 	f := bson.D{{Key: keyTopic, Value: topic}}
-- 
2.43.0


From d395a788943ae79978ca117c3055d0137ea11348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 15/19] fix: store zero payloads and the zero time in MongoDB

---
 ratus.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratus.go b/ratus.go
index 66b82d6..6e11b61 100644
--- a/ratus.go
+++ b/ratus.go
@@ -116,25 +116,25 @@ type Task struct {
 	// The time the task was created.
 	// Timestamps are generated by the instance running Ratus, remember to
 	// perform clock synchronization before running multiple instances.
-	Produced *time.Time `json:"produced,omitempty" bson:"produced,omitempty"`
+	Produced *time.Time `json:"produced,omitempty" bson:"produced"`
 	// The time the task is scheduled to be executed. Tasks will not be
 	// executed until the scheduled time arrives. After the scheduled time,
 	// excessive tasks will be executed in the order of the scheduled time.
-	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled,omitempty"`
+	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled"`
 	// The time the task was claimed by a consumer.
 	// Not to confuse this with the time of commit, which is not recorded.
-	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed,omitempty"`
+	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed"`
 	// The deadline for the completion of execution promised by the consumer.
 	// Consumer code needs to commit the task before this deadline, otherwise
 	// the task is determined to have timed out and will be reset to the
 	// "pending" state, allowing other consumers to retry.
-	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty"`
+	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline"`
 
 	// A minimal descriptor of the task to be executed.
 	// It is not recommended to rely on Ratus as the main storage of tasks.
 	// Instead, consider storing the complete task record in a database, and
 	// use a minimal descriptor as the payload to reference the task.
-	Payload any `json:"payload,omitempty" bson:"payload,omitempty"`
+	Payload any `json:"payload,omitempty" bson:"payload"`
 
 	// A duration relative to the time the task is accepted, indicating that
 	// the task will be scheduled to execute after this duration. When the
-- 
2.43.0


From 42d426708ce2d86208ad469d21b82d79dd3cfd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 16/19] fix: report errors other than duplicates when inserting
 batches

---
 internal/engine/mongodb/task.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index d3d9660..2f1c1dc 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -45,7 +45,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !onlyDuplicates(err) {
 		return nil, err
 	}
 
@@ -55,6 +55,21 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	}, nil
 }
 
+// onlyDuplicates returns whether all failures of a bulk write are caused by
+// duplicate keys.
+func onlyDuplicates(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok || e.WriteConcernError != nil {
+		return false
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w.WriteError) {
+			return false
+		}
+	}
+	return true
+}
+
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
-- 
2.43.0


From 1febf074cbee55c9d1ee1410876370af97c2f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 17/19] fix: report errors of the lookup after an unmatched
 claim or commit

---
 internal/engine/mongodb/mongodb.go |  7 +++++--
 internal/engine/mongodb/promise.go |  8 ++++++--
 internal/engine/mongodb/queue.go   | 11 +++++++++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..a0099bd 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,12 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
 	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+	if err == mongo.ErrNoDocuments {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..1174aab 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,9 +100,13 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			switch {
+			case e != nil:
+				err = e
+			case ok:
 				err = ratus.ErrConflict
-			} else {
+			default:
 				err = ratus.ErrNotFound
 			}
 		}
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..d66edc2 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,9 +130,16 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
+			if m.Nonce == "" {
+				return nil, ratus.ErrNotFound
+			}
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+			switch {
+			case e != nil:
+				err = e
+			case ok:
 				err = ratus.ErrConflict
-			} else {
+			default:
 				err = ratus.ErrNotFound
 			}
 		}
-- 
2.43.0


From f9a55706a06ac50d275dde8924c5cb1c977f0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 18/19] fix: complete the requests in progress before closing
 the engine

---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..4452c1c 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// The server stops listening as soon as the shutdown begins. Wait until
+	// the requests in progress have been completed.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From 70003af78f85604bcfd583dfa82ab42b06f15075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 19/19] fix: report the failure of the storage engine to close

---
 cmd/ratus/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 4452c1c..d871a59 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -104,7 +101,11 @@ func run() error {
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func() {
+		if cerr := g.Close(ctx); err == nil {
+			err = cerr
+		}
+	}()
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0

