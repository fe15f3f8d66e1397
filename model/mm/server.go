// Package mm models a MongoDB server: one collection of documents, its indexes, and the commands the
// engine sends. It runs both under the executor and, behind the wire protocol, under the real driver.
package mm

import (
	"sort"
	"strings"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// E, D and A are elements, documents and arrays. Other values are nil, string, bool, int32, int64,
// float64 and DT.
type E struct {
	K string
	V any
}
type D []E
type A []any

// DT is an instant in milliseconds.
type DT struct{ Sec, Ms int64 }

// Err is what a server answers when a command or a write fails.
type Err struct {
	Code      int64
	Name, Msg string
}

// Index is an index of the collection.
type Index struct {
	Name    string
	Keys    D
	Partial D
	TTL     any // seconds, or nil
	Unique  bool
}

// The server's state.
var (
	docs    []D
	indexes []*Index
	fresh   int

	// ShardKey is the field the collection is sharded by, or empty.
	ShardKey string
	// Fault is asked before every command; statement is -1 for the whole command.
	Fault func(cmd string, statement int) *Err
	// Gates makes commands, and the documents of a command, places where other threads may go on.
	Gates bool
	// Log lists the commands that were received.
	Log []string
)

// Reset empties the server.
func Reset() {
	docs, indexes, fresh = nil, []*Index{{Name: "_id_", Keys: D{{"_id", int32(1)}}, Unique: true}}, 0
	ShardKey, Fault, Gates, Log = "", nil, false, nil
	reset()
}

// Clear removes the documents and settings and keeps the indexes.
func Clear() {
	docs, ShardKey, Fault, Gates, Log = nil, "", nil, false, nil
}

// Docs returns the stored documents.
func Docs() []D { return docs }

// Restore puts back documents that Docs returned.
func Restore(ds []D) { docs = ds }

// Put stores a document as it is.
func Put(d D) { docs = append(docs, d) }

// Indexes returns the indexes.
func Indexes() []*Index { return indexes }

func gate() {
	if Gates {
		rt.Gate(nil)
	}
}

// begin is called once for every command.
func begin(cmd string) *Err {
	gate()
	Log = append(Log, cmd)
	if Fault != nil {
		return Fault(cmd, -1)
	}
	return nil
}

func statement(cmd string, i int) *Err {
	if i > 0 {
		gate()
	}
	if Fault != nil {
		return Fault(cmd, i)
	}
	return nil
}

// Get finds a field.
func (d D) Get(k string) (any, bool) {
	for _, e := range d {
		if e.K == k {
			return e.V, true
		}
	}
	return nil, false
}

func (d D) with(k string, v any) D {
	r := append(D{}, d...)
	for i := range r {
		if r[i].K == k {
			r[i].V = v
			return r
		}
	}
	return append(r, E{k, v})
}

func (d D) without(k string) D {
	var r D
	for _, e := range d {
		if e.K != k {
			r = append(r, e)
		}
	}
	return r
}

// rank orders values of different types.
func rank(v any) int {
	switch v.(type) {
	case nil:
		return 0
	case int32, int64, float64:
		return 1
	case string:
		return 2
	case D:
		return 3
	case A:
		return 4
	case bool:
		return 5
	case DT:
		return 6
	}
	panic("mm: value of unknown type")
}

func num(v any) (int64, float64, bool) {
	switch x := v.(type) {
	case int32:
		return int64(x), 0, true
	case int64:
		return x, 0, true
	case float64:
		return 0, x, false
	}
	return 0, 0, false
}

// equal compares two values without forking on what they hold.
func equal(a, b any) bool {
	if rank(a) != rank(b) {
		return false
	}
	switch x := a.(type) {
	case nil:
		return true
	case string:
		return x == b.(string)
	case bool:
		return x == b.(bool)
	case DT:
		y := b.(DT)
		return rt.And(x.Sec == y.Sec, x.Ms == y.Ms)
	case D:
		y := b.(D)
		if len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			if x[i].K != y[i].K {
				return false
			}
			r = rt.And(r, equal(x[i].V, y[i].V))
		}
		return r
	case A:
		y := b.(A)
		if len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = rt.And(r, equal(x[i], y[i]))
		}
		return r
	}
	i, f, ai := num(a)
	j, g, bi := num(b)
	switch {
	case ai && bi:
		return i == j
	case !ai && !bi:
		return f == g
	case ai:
		return float64(i) == g
	}
	return f == float64(j)
}

// less compares two values of one type without forking on what they hold.
func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case bool:
		return rt.And(rt.Not(x), b.(bool))
	case DT:
		y := b.(DT)
		return rt.Or(x.Sec < y.Sec, rt.And(x.Sec == y.Sec, x.Ms < y.Ms))
	case int32, int64, float64:
		i, f, ai := num(a)
		j, g, bi := num(b)
		switch {
		case ai && bi:
			return i < j
		case !ai && !bi:
			return f < g
		case ai:
			return float64(i) < g
		}
		return f < float64(j)
	}
	return false
}

// before is the order of sorts.
func before(a, b any) bool {
	if rank(a) != rank(b) {
		return rank(a) < rank(b)
	}
	return less(a, b)
}

// cond applies one condition to a field.
func cond(d D, k string, c any) bool {
	v, ok := d.Get(k)
	ops, isD := c.(D)
	if !isD || len(ops) == 0 || !strings.HasPrefix(ops[0].K, "$") {
		return equal(v, c)
	}
	r := true
	for _, o := range ops {
		r = rt.And(r, op(v, ok, o.K, o.V))
	}
	return r
}

func op(v any, ok bool, o string, c any) bool {
	typed := rank(v) == rank(c)
	switch o {
	case "$eq":
		return equal(v, c)
	case "$ne":
		return rt.Not(equal(v, c))
	case "$lt":
		return typed && less(v, c)
	case "$gt":
		return typed && less(c, v)
	case "$lte":
		return typed && rt.Or(less(v, c), equal(v, c))
	case "$gte":
		return typed && rt.Or(less(c, v), equal(v, c))
	case "$in", "$nin":
		in := false
		for _, x := range c.(A) {
			in = rt.Or(in, equal(v, x))
		}
		if o == "$nin" {
			in = rt.Not(in)
		}
		return in
	case "$exists":
		if b, isB := c.(bool); isB {
			return ok == b
		}
		return ok == !equal(c, int32(0))
	case "$not":
		r := true
		for _, x := range c.(D) {
			r = rt.And(r, op(v, ok, x.K, x.V))
		}
		return rt.Not(r)
	case "$type":
		return ok && (equal(c, "date") && rank(v) == 6 || equal(c, "string") && rank(v) == 2)
	}
	panic("mm: operator " + o)
}

// matches tells whether a document fits a filter.
func matches(d, f D) bool {
	r := true
	for _, e := range f {
		switch e.K {
		case "$and":
			for _, x := range e.V.(A) {
				r = rt.And(r, matches(d, x.(D)))
			}
		case "$or", "$nor":
			any := false
			for _, x := range e.V.(A) {
				any = rt.Or(any, matches(d, x.(D)))
			}
			if e.K == "$nor" {
				any = rt.Not(any)
			}
			r = rt.And(r, any)
		default:
			if strings.HasPrefix(e.K, "$") {
				panic("mm: operator " + e.K)
			}
			r = rt.And(r, cond(d, e.K, e.V))
		}
	}
	return r
}

// pinned returns the value a filter demands of a field.
func pinned(f D, k string) (any, bool) {
	for _, e := range f {
		if e.K == "$and" {
			for _, x := range e.V.(A) {
				if v, ok := pinned(x.(D), k); ok {
					return v, true
				}
			}
		}
		if e.K != k {
			continue
		}
		if c, isD := e.V.(D); isD && len(c) > 0 && strings.HasPrefix(c[0].K, "$") {
			if v, ok := c.Get("$eq"); ok {
				return v, true
			}
			continue
		}
		return e.V, true
	}
	return nil, false
}

func sameKeys(a, b D) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || !equal(a[i].V, b[i].V) {
			return false
		}
	}
	return true
}

// hinted checks that an index can be used for a filter.
func hinted(h any, f D) *Err {
	if h == nil {
		return nil
	}
	for _, x := range indexes {
		switch n := h.(type) {
		case string:
			if x.Name != n {
				continue
			}
		case D:
			if !sameKeys(x.Keys, n) {
				continue
			}
		}
		for _, p := range x.Partial {
			if v, ok := pinned(f, p.K); !ok || !equal(v, p.V) {
				return &Err{291, "NoQueryExecutionPlans", "error processing query: hint provided does not cover the query"}
			}
		}
		return nil
	}
	return &Err{2, "BadValue", "error processing query: hint provided does not correspond to an existing index"}
}

// sorted puts documents in the order of a sort; ties stay in the order of insertion.
func sorted(in []D, by D) []D {
	out := append([]D{}, in...)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && sortsBefore(out[j], out[j-1], by); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func sortsBefore(a, b D, by D) bool {
	for _, k := range by {
		x, _ := a.Get(k.K)
		y, _ := b.Get(k.K)
		if less(int32(0), k.V) {
			if before(x, y) {
				return true
			}
			if before(y, x) {
				return false
			}
		} else {
			if before(y, x) {
				return true
			}
			if before(x, y) {
				return false
			}
		}
	}
	return false
}

func selected(f D) []int {
	var r []int
	for i, d := range docs {
		if matches(d, f) {
			r = append(r, i)
		}
	}
	return r
}

// project keeps the fields a projection includes.
func project(d, p D) D {
	if len(p) == 0 {
		return d
	}
	include, id := false, true
	for _, e := range p {
		on := truthy(e.V)
		if e.K == "_id" {
			id = on
		} else if on {
			include = true
		}
	}
	if len(p) == 1 && p[0].K == "_id" {
		include = id
	}
	var r D
	for _, e := range d {
		if e.K == "_id" {
			if id {
				r = append(r, e)
			}
			continue
		}
		if _, named := p.Get(e.K); named == include {
			r = append(r, e)
		}
	}
	return r
}

func truthy(v any) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return !equal(v, int32(0))
}

// Query are the arguments of a find.
type Query struct {
	Filter, Sort, Proj D
	Hint               any
	Skip, Limit        int64
}

// Find runs the find command.
func Find(q Query) ([]D, *Err) {
	if e := begin("find"); e != nil {
		return nil, e
	}
	if e := hinted(q.Hint, q.Filter); e != nil {
		return nil, e
	}
	var in []D
	for _, i := range selected(q.Filter) {
		in = append(in, docs[i])
	}
	in = page(sorted(in, q.Sort), q.Skip, q.Limit)
	var out []D
	for _, d := range in {
		out = append(out, project(d, q.Proj))
	}
	return out, nil
}

func page(in []D, skip, limit int64) []D {
	if skip >= int64(len(in)) {
		return nil
	}
	in = in[skip:]
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && limit < int64(len(in)) {
		in = in[:limit]
	}
	return in
}

// sharded tells whether the router refuses a single-document write whose filter lacks the shard key.
func sharded(f D, need bool) *Err {
	if ShardKey == "" || !need {
		return nil
	}
	if _, ok := pinned(f, ShardKey); ok {
		return nil
	}
	return &Err{61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key"}
}

func moved(f, old, now D) *Err {
	if ShardKey == "" {
		return nil
	}
	a, _ := old.Get(ShardKey)
	b, _ := now.Get(ShardKey)
	if equal(a, b) {
		return nil
	}
	if _, ok := pinned(f, ShardKey); ok {
		return nil
	}
	return &Err{31025, "Location31025", "Shard key update is not allowed without specifying the full shard key in the query"}
}

// change applies update operators, or a replacement.
func change(d, u D, inserting bool) (D, *Err) {
	if len(u) == 0 || !strings.HasPrefix(u[0].K, "$") {
		id, had := d.Get("_id")
		r := append(D{}, u...)
		if nid, ok := u.Get("_id"); ok {
			if had && !equal(id, nid) {
				return nil, &Err{66, "ImmutableField", "the _id field cannot be changed"}
			}
		} else if had {
			r = append(D{{"_id", id}}, r...)
		}
		return r, nil
	}
	r := append(D{}, d...)
	for _, o := range u {
		fields, ok := o.V.(D)
		if !ok {
			return nil, &Err{9, "FailedToParse", "modifiers operate on fields"}
		}
		for _, e := range fields {
			if e.K == "_id" {
				id, had := d.Get("_id")
				if had && (o.K == "$unset" || o.K == "$set" && !equal(id, e.V)) {
					return nil, &Err{66, "ImmutableField", "the _id field cannot be changed"}
				}
			}
			switch o.K {
			case "$set":
				r = r.with(e.K, e.V)
			case "$setOnInsert":
				if inserting {
					r = r.with(e.K, e.V)
				}
			case "$unset":
				r = r.without(e.K)
			default:
				panic("mm: update " + o.K)
			}
		}
	}
	return r, nil
}

func idOf(d D) any {
	id, ok := d.Get("_id")
	if !ok {
		fresh++
		return D{{"$oid", int64(fresh)}}
	}
	return id
}

func insert(d D) *Err {
	id := idOf(d)
	for _, x := range docs {
		y, _ := x.Get("_id")
		if equal(id, y) {
			return &Err{11000, "DuplicateKey", "E11000 duplicate key error"}
		}
	}
	docs = append(docs, append(D{{"_id", id}}, d.without("_id")...))
	return nil
}

// upserted is the document an upsert inserts.
func upserted(f, u D) (D, *Err) {
	var d D
	for _, e := range f {
		if strings.HasPrefix(e.K, "$") {
			continue
		}
		if v, ok := pinned(D{e}, e.K); ok {
			d = append(d, E{e.K, v})
		}
	}
	return change(d, u, true)
}

// Modify are the arguments of findAndModify.
type Modify struct {
	Filter, Sort, Update, Proj D
	Hint                       any
	Remove, New, Upsert        bool
}

// FindAndModify runs findAndModify; a nil document means that nothing matched.
func FindAndModify(m Modify) (D, *Err) {
	if e := begin("findAndModify"); e != nil {
		return nil, e
	}
	if e := sharded(m.Filter, true); e != nil {
		return nil, e
	}
	if e := hinted(m.Hint, m.Filter); e != nil {
		return nil, e
	}
	in := selected(m.Filter)
	if len(in) == 0 {
		if !m.Upsert || m.Remove {
			return nil, nil
		}
		d, e := upserted(m.Filter, m.Update)
		if e == nil {
			e = insert(d)
		}
		if e != nil || !m.New {
			return nil, e
		}
		return project(docs[len(docs)-1], m.Proj), nil
	}
	k := in[0]
	for _, i := range in[1:] {
		if sortsBefore(docs[i], docs[k], m.Sort) {
			k = i
		}
	}
	old := docs[k]
	if m.Remove {
		docs = append(append([]D{}, docs[:k]...), docs[k+1:]...)
		return project(old, m.Proj), nil
	}
	now, e := change(old, m.Update, false)
	if e == nil {
		e = moved(m.Filter, old, now)
	}
	if e != nil {
		return nil, e
	}
	replace(k, now)
	if m.New {
		return project(now, m.Proj), nil
	}
	return project(old, m.Proj), nil
}

func replace(k int, d D) {
	r := append([]D{}, docs...)
	r[k] = d
	docs = r
}

// Stmt is one write of a command.
type Stmt struct {
	Filter, Update D
	Hint           any
	Multi, Upsert  bool
	Limit          int64
}

// WErr is a write that failed.
type WErr struct {
	Index int
	Err   *Err
}

// Result is what a write command answers.
type Result struct {
	N, Modified int64
	Upserted    []WErr // indexes only
	UpsertedIDs []any
	Errs        []WErr
}

func (r *Result) fail(i int, e *Err, ordered bool) bool {
	r.Errs = append(r.Errs, WErr{i, e})
	return ordered
}

// Insert runs the insert command.
func Insert(ds []D, ordered bool) (Result, *Err) {
	var r Result
	if e := begin("insert"); e != nil {
		return r, e
	}
	for i, d := range ds {
		e := statement("insert", i)
		if e == nil {
			e = insert(d)
		}
		if e != nil {
			if r.fail(i, e, ordered) {
				break
			}
			continue
		}
		r.N++
	}
	return r, nil
}

func has(in []any, v any) bool {
	for _, x := range in {
		if equal(x, v) {
			return true
		}
	}
	return false
}

// selectedIDs lists what a filter selects, so that a command can work on one document after another.
func selectedIDs(f D) []any {
	var r []any
	for _, i := range selected(f) {
		id, _ := docs[i].Get("_id")
		r = append(r, id)
	}
	return r
}

func indexOf(id any) int {
	for i, d := range docs {
		x, _ := d.Get("_id")
		if equal(x, id) {
			return i
		}
	}
	return -1
}

// Update runs the update command.
func Update(ss []Stmt, ordered bool) (Result, *Err) {
	var r Result
	if e := begin("update"); e != nil {
		return r, e
	}
	for i, s := range ss {
		if e := statement("update", i); e != nil {
			if r.fail(i, e, ordered) {
				break
			}
			continue
		}
		if e := update(&r, i, s); e != nil {
			if r.fail(i, e, ordered) {
				break
			}
		}
	}
	return r, nil
}

func update(r *Result, i int, s Stmt) *Err {
	_, byID := pinned(s.Filter, "_id")
	if e := sharded(s.Filter, !s.Multi && (s.Upsert || !byID)); e != nil {
		return e
	}
	if e := hinted(s.Hint, s.Filter); e != nil {
		return e
	}
	in := selectedIDs(s.Filter)
	if len(in) == 0 {
		if !s.Upsert {
			return nil
		}
		d, e := upserted(s.Filter, s.Update)
		if e == nil {
			e = insert(d)
		}
		if e != nil {
			return e
		}
		r.N++
		id, _ := docs[len(docs)-1].Get("_id")
		r.Upserted = append(r.Upserted, WErr{Index: i})
		r.UpsertedIDs = append(r.UpsertedIDs, id)
		return nil
	}
	if !s.Multi {
		in = in[:1]
	}
	for k, id := range in {
		if k > 0 {
			gate()
		}
		j := indexOf(id)
		if j < 0 || (k > 0 && Gates && !matches(docs[j], s.Filter)) {
			continue // changed in the meantime
		}
		now, e := change(docs[j], s.Update, false)
		if e == nil {
			e = moved(s.Filter, docs[j], now)
		}
		if e != nil {
			return e
		}
		r.N++
		if !equal(docs[j], now) {
			r.Modified++
		}
		replace(j, now)
	}
	return nil
}

// Delete runs the delete command.
func Delete(ss []Stmt, ordered bool) (Result, *Err) {
	var r Result
	if e := begin("delete"); e != nil {
		return r, e
	}
	for i, s := range ss {
		e := statement("delete", i)
		if e == nil {
			_, byID := pinned(s.Filter, "_id")
			e = sharded(s.Filter, s.Limit == 1 && !byID)
		}
		if e == nil {
			e = hinted(s.Hint, s.Filter)
		}
		if e != nil {
			if r.fail(i, e, ordered) {
				break
			}
			continue
		}
		in := selectedIDs(s.Filter)
		if s.Limit == 1 && len(in) > 1 {
			in = in[:1]
		}
		for k, id := range in {
			if k > 0 {
				gate()
			}
			j := indexOf(id)
			if j < 0 || (k > 0 && Gates && !matches(docs[j], s.Filter)) {
				continue
			}
			docs = append(append([]D{}, docs[:j]...), docs[j+1:]...)
			r.N++
		}
	}
	return r, nil
}

// expr evaluates an expression of a pipeline.
func expr(d D, x any) any {
	if s, ok := x.(string); ok && strings.HasPrefix(s, "$") {
		v, _ := d.Get(s[1:])
		return v
	}
	return x
}

// Aggregate runs a pipeline.
func Aggregate(stages A, hint any) ([]D, *Err) {
	if e := begin("aggregate"); e != nil {
		return nil, e
	}
	var first D
	if len(stages) > 0 {
		if m, ok := stages[0].(D).Get("$match"); ok {
			first = m.(D)
		}
	}
	if e := hinted(hint, first); e != nil {
		return nil, e
	}
	in := docs
	for _, st := range stages {
		s := st.(D)[0]
		switch s.K {
		case "$match":
			var out []D
			for _, d := range in {
				if matches(d, s.V.(D)) {
					out = append(out, d)
				}
			}
			in = out
		case "$sort":
			in = sorted(in, s.V.(D))
		case "$skip", "$limit":
			n, _, ok := num(s.V)
			if !ok || n < 0 || n == 0 && s.K == "$limit" {
				return nil, &Err{15958, "Location15958", "the limit must be positive"}
			}
			if s.K == "$skip" {
				in = page(in, n, 0)
			} else {
				in = page(in, 0, n)
			}
		case "$count":
			if len(in) > 0 {
				in = []D{{{s.V.(string), int32(len(in))}}}
			}
		case "$project":
			var out []D
			for _, d := range in {
				out = append(out, project(d, s.V.(D)))
			}
			in = out
		case "$group":
			out, e := group(in, s.V.(D))
			if e != nil {
				return nil, e
			}
			in = out
		default:
			panic("mm: stage " + s.K)
		}
	}
	return in, nil
}

func group(in []D, g D) ([]D, *Err) {
	by, ok := g.Get("_id")
	if !ok {
		return nil, &Err{15955, "Location15955", "a group specification must include an _id"}
	}
	var keys []any
	var out []D
	for _, d := range in {
		k := expr(d, by)
		at := -1
		for i, x := range keys {
			if equal(x, k) {
				at = i
				break
			}
		}
		if at < 0 {
			at = len(keys)
			keys = append(keys, k)
			r := D{{"_id", k}}
			for _, e := range g {
				if e.K != "_id" {
					r = append(r, E{e.K, nil})
				}
			}
			out = append(out, r)
		}
		for _, e := range g {
			if e.K == "_id" {
				continue
			}
			acc := e.V.(D)[0]
			v := expr(d, acc.V)
			old, _ := out[at].Get(e.K)
			switch acc.K {
			case "$sum":
				n, _, isInt := num(v)
				if !isInt {
					n = 0
				}
				m, _, _ := num(old)
				out[at] = out[at].with(e.K, int32(m+n))
			case "$first":
				if old == nil {
					out[at] = out[at].with(e.K, v)
				}
			case "$last":
				out[at] = out[at].with(e.K, v)
			default:
				panic("mm: accumulator " + acc.K)
			}
		}
	}
	return out, nil
}

// CreateIndexes runs createIndexes.
func CreateIndexes(xs []*Index) *Err {
	if e := begin("createIndexes"); e != nil {
		return e
	}
	for _, x := range xs {
		for _, y := range indexes {
			if y.Name != x.Name && !(sameKeys(x.Keys, y.Keys) && sameKeys(x.Partial, y.Partial)) {
				continue
			}
			if y.Name == x.Name && !sameKeys(x.Keys, y.Keys) {
				return &Err{86, "IndexKeySpecsConflict", "an index with the same name has other keys"}
			}
			if y.Name != x.Name || !sameKeys(x.Partial, y.Partial) || !sameTTL(x.TTL, y.TTL) || x.Unique != y.Unique {
				return &Err{85, "IndexOptionsConflict", "an equivalent index already exists with different options"}
			}
			x = nil
			break
		}
		if x != nil {
			indexes = append(indexes, x)
		}
	}
	return nil
}

func sameTTL(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return equal(a, b)
}

// CollMod changes how long documents of an index live.
func CollMod(keys D, name string, ttl any) *Err {
	if e := begin("collMod"); e != nil {
		return e
	}
	for _, x := range indexes {
		if name != "" && x.Name == name || name == "" && sameKeys(x.Keys, keys) {
			x.TTL = ttl
			return nil
		}
	}
	return &Err{27, "IndexNotFound", "cannot find index"}
}

// Drop drops the collection.
func Drop() *Err {
	if e := begin("drop"); e != nil {
		return e
	}
	docs, indexes = nil, indexes[:1]
	return nil
}

// Expire deletes what the indexes' lifetimes end by now.
func Expire(now DT) {
	for _, x := range indexes {
		if x.TTL == nil || len(x.Keys) != 1 {
			continue
		}
		s, _, ok := num(x.TTL)
		if !ok {
			continue
		}
		var left []D
		for _, d := range docs {
			v, _ := d.Get(x.Keys[0].K)
			t, isT := v.(DT)
			if isT && matches(d, x.Partial) && less(DT{t.Sec + s, t.Ms}, now) {
				continue
			}
			left = append(left, d)
		}
		docs = left
	}
}

// Names lists the names of the indexes.
func Names() []string {
	var r []string
	for _, x := range indexes {
		r = append(r, x.Name)
	}
	sort.Strings(r)
	return r
}

func collMod(c D) *Err {
	x, ok := c.Get("index")
	if !ok {
		return begin("collMod")
	}
	d := x.(D)
	var keys D
	name := ""
	if k, ok := d.Get("keyPattern"); ok {
		keys = k.(D)
	}
	if n, ok := d.Get("name"); ok {
		name = n.(string)
	}
	ttl, _ := d.Get("expireAfterSeconds")
	return CollMod(keys, name, ttl)
}
