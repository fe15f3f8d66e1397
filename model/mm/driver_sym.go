//go:build verifsym

package mm

import (
	"context"
	"errors"
	"reflect"

	"go.mongodb.org/mongo-driver/bson/bsoncodec"
	"go.mongodb.org/mongo-driver/bson/bsontype"
	"go.mongodb.org/mongo-driver/mongo"
	"go.mongodb.org/mongo-driver/mongo/options"
	"go.mongodb.org/mongo-driver/mongo/readpref"
)

// A model of the driver on top of the model of the server.

type client struct{ connected bool }

type single struct {
	d    D
	err  error
	none bool
}

type cursor struct {
	ds []D
	at int
}

var (
	clients   = map[*mongo.Client]*client{}
	databases = map[*mongo.Database]*client{}
	colls     = map[*mongo.Collection]*client{}
	names     = map[*mongo.Collection]string{}
	owners    = map[*mongo.Collection]*mongo.Database{}
	singles   = map[*mongo.SingleResult]*single{}
	cursors   = map[*mongo.Cursor]*cursor{}
)

func reset() { embedded = false }

// URI is where the server listens.
func URI() string { return "mongodb://127.0.0.1:1" }

// Shutdown ends what a run started.
func Shutdown() {}

//verif:replaces go.mongodb.org/mongo-driver/bson.NewRegistryBuilder
func NewRegistryBuilder() *bsoncodec.RegistryBuilder { return new(bsoncodec.RegistryBuilder) }

//verif:replaces (*go.mongodb.org/mongo-driver/bson/bsoncodec.RegistryBuilder).RegisterTypeMapEntry
func RegisterTypeMapEntry(rb *bsoncodec.RegistryBuilder, bt bsontype.Type, rt reflect.Type) *bsoncodec.RegistryBuilder {
	if bt == bsontype.EmbeddedDocument && rt.Kind() == reflect.Map {
		embedded = true
	}
	return rb
}

//verif:replaces (*go.mongodb.org/mongo-driver/bson/bsoncodec.RegistryBuilder).Build
func Build(rb *bsoncodec.RegistryBuilder) *bsoncodec.Registry { return new(bsoncodec.Registry) }

//verif:replaces (*go.mongodb.org/mongo-driver/mongo/options.ClientOptions).ApplyURI
func ApplyURI(c *options.ClientOptions, uri string) *options.ClientOptions { return c }

//verif:replaces go.mongodb.org/mongo-driver/mongo.NewClient
func NewClient(opts ...*options.ClientOptions) (*mongo.Client, error) {
	reg := false
	for _, o := range opts {
		reg = reg || o.Registry != nil
	}
	if !reg {
		embedded = false
	}
	c := new(mongo.Client)
	clients[c] = &client{}
	return c, nil
}

//verif:replaces go.mongodb.org/mongo-driver/mongo.Connect
func Connect(ctx context.Context, opts ...*options.ClientOptions) (*mongo.Client, error) {
	c, err := NewClient(opts...)
	if err == nil {
		clients[c].connected = true
	}
	return c, err
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Client).Connect
func ClientConnect(c *mongo.Client, ctx context.Context) error {
	if clients[c].connected {
		return errors.New("topology is connected or connecting")
	}
	clients[c].connected = true
	return nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Client).Disconnect
func Disconnect(c *mongo.Client, ctx context.Context) error {
	if !clients[c].connected {
		return mongo.ErrClientDisconnected
	}
	clients[c].connected = false
	return nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Client).Ping
func Ping(c *mongo.Client, ctx context.Context, rp *readpref.ReadPref) error {
	if err := ready(clients[c], ctx); err != nil {
		return err
	}
	return cmdErr(begin("ping"))
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Client).Database
func ClientDatabase(c *mongo.Client, name string, opts ...*options.DatabaseOptions) *mongo.Database {
	d := new(mongo.Database)
	databases[d] = clients[c]
	return d
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Database).Collection
func DatabaseCollection(d *mongo.Database, name string, opts ...*options.CollectionOptions) *mongo.Collection {
	c := new(mongo.Collection)
	colls[c], names[c], owners[c] = databases[d], name, d
	return c
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Name
func CollectionName(c *mongo.Collection) string { return names[c] }

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Database
func CollectionDatabase(c *mongo.Collection) *mongo.Database { return owners[c] }

func ready(c *client, ctx context.Context) error {
	if !c.connected {
		return mongo.ErrClientDisconnected
	}
	if ctx != nil && ctx.Err() != nil {
		return ctx.Err()
	}
	return nil
}

func cmdErr(e *Err) error {
	if e == nil {
		return nil
	}
	return mongo.CommandError{Code: int32(e.Code), Name: e.Name, Message: e.Msg}
}

// CommandErr is what the driver returns for a command that failed.
func CommandErr(e *Err) error { return cmdErr(e) }

func opt(v any) D {
	if v == nil {
		return nil
	}
	d, _ := Enc(v).(D)
	return d
}

func hint(v any) any {
	if v == nil {
		return nil
	}
	return Enc(v)
}

func on(b *bool) bool { return b != nil && *b }

func one(d D, err error) *mongo.SingleResult {
	s := new(mongo.SingleResult)
	singles[s] = &single{d: d, err: err, none: d == nil && err == nil}
	return s
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.SingleResult).Err
func SingleErr(s *mongo.SingleResult) error {
	r := singles[s]
	if r.none {
		r.err = mongo.ErrNoDocuments
	}
	return r.err
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.SingleResult).Decode
func SingleDecode(s *mongo.SingleResult, v any) error {
	if err := SingleErr(s); err != nil {
		return err
	}
	return decode(singles[s].d, v)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Cursor).All
func CursorAll(c *mongo.Cursor, ctx context.Context, v any) error {
	k := cursors[c]
	ds := k.ds[k.at:]
	k.at = len(k.ds)
	return decodeAll(ds, v)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Cursor).Next
func CursorNext(c *mongo.Cursor, ctx context.Context) bool {
	k := cursors[c]
	if k.at >= len(k.ds) {
		return false
	}
	k.at++
	return true
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Cursor).Decode
func CursorDecode(c *mongo.Cursor, v any) error {
	k := cursors[c]
	return decode(k.ds[k.at-1], v)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Cursor).Err
func CursorErr(c *mongo.Cursor) error { return nil }

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Cursor).Close
func CursorClose(c *mongo.Cursor, ctx context.Context) error { return nil }

func many(ds []D) *mongo.Cursor {
	c := new(mongo.Cursor)
	cursors[c] = &cursor{ds: ds}
	return c
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Find
func CollFind(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.FindOptions) (*mongo.Cursor, error) {
	o := options.MergeFindOptions(opts...)
	f, err := document(filter)
	if err != nil {
		return nil, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	q := Query{Filter: f, Sort: opt(o.Sort), Proj: opt(o.Projection), Hint: hint(o.Hint)}
	if o.Limit != nil {
		q.Limit = *o.Limit
	}
	if o.Skip != nil {
		q.Skip = *o.Skip
	}
	ds, e := Find(q)
	if e != nil {
		return nil, cmdErr(e)
	}
	return many(ds), nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).FindOne
func CollFindOne(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.FindOneOptions) *mongo.SingleResult {
	o := options.MergeFindOneOptions(opts...)
	f, err := document(filter)
	if err == nil {
		err = ready(colls[c], ctx)
	}
	if err != nil {
		return one(nil, err)
	}
	q := Query{Filter: f, Sort: opt(o.Sort), Proj: opt(o.Projection), Hint: hint(o.Hint), Limit: 1}
	if o.Skip != nil {
		q.Skip = *o.Skip
	}
	ds, e := Find(q)
	if e != nil {
		return one(nil, cmdErr(e))
	}
	if len(ds) == 0 {
		return one(nil, nil)
	}
	return one(ds[0], nil)
}

func modify(c *mongo.Collection, ctx context.Context, filter any, m Modify) *mongo.SingleResult {
	f, err := document(filter)
	if err == nil {
		err = ready(colls[c], ctx)
	}
	if err != nil {
		return one(nil, err)
	}
	m.Filter = f
	d, e := FindAndModify(m)
	return one(d, cmdErr(e))
}

var (
	errUpdate  = errors.New("update document must contain key beginning with '$'")
	errReplace = errors.New("replacement document cannot contain keys beginning with '$'")
)

func updateDoc(v any, operators bool) (D, error) {
	d, err := document(v)
	if err != nil {
		return nil, err
	}
	if operators && (len(d) == 0 || len(d[0].K) == 0 || d[0].K[0] != '$') {
		return nil, errUpdate
	}
	if !operators && len(d) > 0 && len(d[0].K) > 0 && d[0].K[0] == '$' {
		return nil, errReplace
	}
	return d, nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).FindOneAndUpdate
func CollFindOneAndUpdate(c *mongo.Collection, ctx context.Context, filter, update any, opts ...*options.FindOneAndUpdateOptions) *mongo.SingleResult {
	o := options.MergeFindOneAndUpdateOptions(opts...)
	u, err := updateDoc(update, true)
	if err != nil {
		return one(nil, err)
	}
	return modify(c, ctx, filter, Modify{Update: u, Sort: opt(o.Sort), Proj: opt(o.Projection), Hint: hint(o.Hint), Upsert: on(o.Upsert), New: o.ReturnDocument != nil && *o.ReturnDocument == options.After})
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).FindOneAndReplace
func CollFindOneAndReplace(c *mongo.Collection, ctx context.Context, filter, update any, opts ...*options.FindOneAndReplaceOptions) *mongo.SingleResult {
	o := options.MergeFindOneAndReplaceOptions(opts...)
	u, err := updateDoc(update, false)
	if err != nil {
		return one(nil, err)
	}
	return modify(c, ctx, filter, Modify{Update: u, Sort: opt(o.Sort), Proj: opt(o.Projection), Hint: hint(o.Hint), Upsert: on(o.Upsert), New: o.ReturnDocument != nil && *o.ReturnDocument == options.After})
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).FindOneAndDelete
func CollFindOneAndDelete(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.FindOneAndDeleteOptions) *mongo.SingleResult {
	o := options.MergeFindOneAndDeleteOptions(opts...)
	return modify(c, ctx, filter, Modify{Remove: true, Sort: opt(o.Sort), Proj: opt(o.Projection), Hint: hint(o.Hint)})
}

// writeErr is the error of a command with one write.
func writeErr(r Result) error {
	if len(r.Errs) == 0 {
		return nil
	}
	var x mongo.WriteException
	for _, e := range r.Errs {
		x.WriteErrors = append(x.WriteErrors, mongo.WriteError{Index: e.Index, Code: int(e.Err.Code), Message: e.Err.Msg})
	}
	return x
}

func updateResult(r Result) *mongo.UpdateResult {
	u := &mongo.UpdateResult{MatchedCount: r.N, ModifiedCount: r.Modified, UpsertedCount: int64(len(r.Upserted))}
	if len(r.Upserted) > 0 {
		u.UpsertedID = r.UpsertedIDs[0]
		u.MatchedCount--
	}
	return u
}

func collUpdate(c *mongo.Collection, ctx context.Context, filter, update any, operators bool, s Stmt) (*mongo.UpdateResult, error) {
	f, err := document(filter)
	if err != nil {
		return nil, err
	}
	if s.Update, err = updateDoc(update, operators); err != nil {
		return nil, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	s.Filter = f
	r, e := Update([]Stmt{s}, true)
	if e != nil {
		return nil, cmdErr(e)
	}
	err = writeErr(r)
	if err != nil && !s.Multi {
		return nil, err
	}
	return updateResult(r), err
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).UpdateOne
func CollUpdateOne(c *mongo.Collection, ctx context.Context, filter, update any, opts ...*options.UpdateOptions) (*mongo.UpdateResult, error) {
	o := options.MergeUpdateOptions(opts...)
	return collUpdate(c, ctx, filter, update, true, Stmt{Hint: hint(o.Hint), Upsert: on(o.Upsert)})
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).UpdateByID
func CollUpdateByID(c *mongo.Collection, ctx context.Context, id, update any, opts ...*options.UpdateOptions) (*mongo.UpdateResult, error) {
	return CollUpdateOne(c, ctx, D{{"_id", Enc(id)}}, update, opts...)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).UpdateMany
func CollUpdateMany(c *mongo.Collection, ctx context.Context, filter, update any, opts ...*options.UpdateOptions) (*mongo.UpdateResult, error) {
	o := options.MergeUpdateOptions(opts...)
	return collUpdate(c, ctx, filter, update, true, Stmt{Multi: true, Hint: hint(o.Hint), Upsert: on(o.Upsert)})
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).ReplaceOne
func CollReplaceOne(c *mongo.Collection, ctx context.Context, filter, update any, opts ...*options.ReplaceOptions) (*mongo.UpdateResult, error) {
	o := options.MergeReplaceOptions(opts...)
	return collUpdate(c, ctx, filter, update, false, Stmt{Hint: hint(o.Hint), Upsert: on(o.Upsert)})
}

func collDelete(c *mongo.Collection, ctx context.Context, filter any, limit int64, opts []*options.DeleteOptions) (*mongo.DeleteResult, error) {
	o := options.MergeDeleteOptions(opts...)
	f, err := document(filter)
	if err != nil {
		return nil, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	r, e := Delete([]Stmt{{Filter: f, Hint: hint(o.Hint), Limit: limit}}, true)
	if e != nil {
		return nil, cmdErr(e)
	}
	err = writeErr(r)
	if err != nil && limit == 1 {
		return nil, err
	}
	return &mongo.DeleteResult{DeletedCount: r.N}, err
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).DeleteOne
func CollDeleteOne(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.DeleteOptions) (*mongo.DeleteResult, error) {
	return collDelete(c, ctx, filter, 1, opts)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).DeleteMany
func CollDeleteMany(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.DeleteOptions) (*mongo.DeleteResult, error) {
	return collDelete(c, ctx, filter, 0, opts)
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).InsertOne
func CollInsertOne(c *mongo.Collection, ctx context.Context, doc any, opts ...*options.InsertOneOptions) (*mongo.InsertOneResult, error) {
	d, err := document(doc)
	if err != nil {
		return nil, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	r, e := Insert([]D{d}, true)
	if e != nil {
		return nil, cmdErr(e)
	}
	if err := writeErr(r); err != nil {
		return nil, err
	}
	id, _ := d.Get("_id")
	return &mongo.InsertOneResult{InsertedID: dec(id)}, nil
}

func bulkErrs(es []WErr, at []int, ms []mongo.WriteModel) []mongo.BulkWriteError {
	var out []mongo.BulkWriteError
	for _, e := range es {
		out = append(out, mongo.BulkWriteError{WriteError: mongo.WriteError{Index: at[e.Index], Code: int(e.Err.Code), Message: e.Err.Msg}, Request: ms[at[e.Index]]})
	}
	return out
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).InsertMany
func CollInsertMany(c *mongo.Collection, ctx context.Context, documents []any, opts ...*options.InsertManyOptions) (*mongo.InsertManyResult, error) {
	if len(documents) == 0 {
		return nil, mongo.ErrEmptySlice
	}
	o := options.MergeInsertManyOptions(opts...)
	var ds []D
	var at []int
	res := &mongo.InsertManyResult{}
	for i, x := range documents {
		d, err := document(x)
		if err != nil {
			return nil, err
		}
		ds, at = append(ds, d), append(at, i)
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	r, e := Insert(ds, o.Ordered == nil || *o.Ordered)
	if e != nil {
		return nil, cmdErr(e)
	}
	for i, d := range ds {
		bad := false
		for _, x := range r.Errs {
			bad = bad || x.Index == i || (o.Ordered == nil || *o.Ordered) && x.Index <= i
		}
		if !bad {
			id, _ := d.Get("_id")
			res.InsertedIDs = append(res.InsertedIDs, dec(id))
		}
	}
	if len(r.Errs) > 0 {
		x := mongo.BulkWriteException{}
		for _, e := range r.Errs {
			x.WriteErrors = append(x.WriteErrors, mongo.BulkWriteError{WriteError: mongo.WriteError{Index: e.Index, Code: int(e.Err.Code), Message: e.Err.Msg}})
		}
		return res, x
	}
	return res, nil
}

// kind says which command a model belongs to.
func kind(m mongo.WriteModel) int {
	switch m.(type) {
	case *mongo.InsertOneModel:
		return 0
	case *mongo.DeleteOneModel:
		return 1
	case *mongo.DeleteManyModel:
		return 2
	case *mongo.ReplaceOneModel, *mongo.UpdateOneModel:
		return 3
	case *mongo.UpdateManyModel:
		return 4
	}
	panic("mm: write model")
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).BulkWrite
func CollBulkWrite(c *mongo.Collection, ctx context.Context, ms []mongo.WriteModel, opts ...*options.BulkWriteOptions) (*mongo.BulkWriteResult, error) {
	if len(ms) == 0 {
		return nil, mongo.ErrEmptySlice
	}
	o := options.MergeBulkWriteOptions(opts...)
	ordered := o.Ordered == nil || *o.Ordered
	for _, m := range ms {
		if m == nil {
			return nil, mongo.ErrNilDocument
		}
	}
	var groups [][]int
	if ordered {
		for i, m := range ms {
			if n := len(groups); n > 0 && kind(ms[groups[n-1][0]]) == kind(m) {
				groups[n-1] = append(groups[n-1], i)
				continue
			}
			groups = append(groups, []int{i})
		}
	} else {
		groups = make([][]int, 5)
		for i, m := range ms {
			groups[kind(m)] = append(groups[kind(m)], i)
		}
	}
	res := &mongo.BulkWriteResult{UpsertedIDs: map[int64]any{}}
	if err := ready(colls[c], ctx); err != nil {
		return res, err
	}
	var x mongo.BulkWriteException
	var last error
	for _, g := range groups {
		if len(g) == 0 {
			continue
		}
		errs, err := runBatch(res, ms, g, ordered)
		x.WriteErrors = append(x.WriteErrors, errs...)
		if ordered && (err != nil || len(errs) > 0) {
			if err != nil {
				return res, err
			}
			return res, x
		}
		if err != nil {
			last = err
		}
	}
	res.MatchedCount -= res.UpsertedCount
	if last != nil {
		return res, last
	}
	if len(x.WriteErrors) > 0 {
		return res, x
	}
	return res, nil
}

func runBatch(res *mongo.BulkWriteResult, ms []mongo.WriteModel, g []int, ordered bool) ([]mongo.BulkWriteError, error) {
	var ds []D
	var ss []Stmt
	for _, i := range g {
		var s Stmt
		var err, err2 error
		switch m := ms[i].(type) {
		case *mongo.InsertOneModel:
			var d D
			d, err = document(m.Document)
			ds = append(ds, d)
		case *mongo.DeleteOneModel:
			s.Filter, err = document(m.Filter)
			s.Hint, s.Limit = hint(m.Hint), 1
		case *mongo.DeleteManyModel:
			s.Filter, err = document(m.Filter)
			s.Hint = hint(m.Hint)
		case *mongo.ReplaceOneModel:
			s.Filter, err = document(m.Filter)
			s.Update, err2 = updateDoc(m.Replacement, false)
			s.Hint, s.Upsert = hint(m.Hint), on(m.Upsert)
		case *mongo.UpdateOneModel:
			s.Filter, err = document(m.Filter)
			s.Update, err2 = updateDoc(m.Update, true)
			s.Hint, s.Upsert = hint(m.Hint), on(m.Upsert)
		case *mongo.UpdateManyModel:
			s.Filter, err = document(m.Filter)
			s.Update, err2 = updateDoc(m.Update, true)
			s.Hint, s.Upsert, s.Multi = hint(m.Hint), on(m.Upsert), true
		}
		if err == nil {
			err = err2
		}
		if err != nil {
			return nil, err
		}
		ss = append(ss, s)
	}
	var r Result
	var e *Err
	switch kind(ms[g[0]]) {
	case 0:
		if r, e = Insert(ds, ordered); e == nil {
			res.InsertedCount += r.N
		}
	case 1, 2:
		if r, e = Delete(ss, ordered); e == nil {
			res.DeletedCount += r.N
		}
	default:
		if r, e = Update(ss, ordered); e == nil {
			res.MatchedCount += r.N
			res.ModifiedCount += r.Modified
			res.UpsertedCount += int64(len(r.Upserted))
			for k, u := range r.Upserted {
				res.UpsertedIDs[int64(g[u.Index])] = dec(r.UpsertedIDs[k])
			}
		}
	}
	if e != nil {
		return nil, cmdErr(e)
	}
	return bulkErrs(r.Errs, g, ms), nil
}

func pipeline(v any) (A, error) {
	var out A
	switch p := v.(type) {
	case mongo.Pipeline:
		for _, s := range p {
			out = append(out, Enc(s))
		}
		return out, nil
	}
	if a, ok := Enc(v).(A); ok {
		return a, nil
	}
	return nil, errors.New("can only marshal slices and arrays into aggregation pipelines")
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Aggregate
func CollAggregate(c *mongo.Collection, ctx context.Context, p any, opts ...*options.AggregateOptions) (*mongo.Cursor, error) {
	o := options.MergeAggregateOptions(opts...)
	a, err := pipeline(p)
	if err != nil {
		return nil, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return nil, err
	}
	ds, e := Aggregate(a, hint(o.Hint))
	if e != nil {
		return nil, cmdErr(e)
	}
	return many(ds), nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).CountDocuments
func CollCountDocuments(c *mongo.Collection, ctx context.Context, filter any, opts ...*options.CountOptions) (int64, error) {
	o := options.MergeCountOptions(opts...)
	f, err := document(filter)
	if err != nil {
		return 0, err
	}
	if err := ready(colls[c], ctx); err != nil {
		return 0, err
	}
	a := A{D{{"$match", f}}}
	if o.Skip != nil {
		a = append(a, D{{"$skip", *o.Skip}})
	}
	if o.Limit != nil {
		a = append(a, D{{"$limit", *o.Limit}})
	}
	a = append(a, D{{"$group", D{{"_id", int32(1)}, {"n", D{{"$sum", int32(1)}}}}}})
	ds, e := Aggregate(a, hint(o.Hint))
	if e != nil {
		return 0, cmdErr(e)
	}
	if len(ds) == 0 {
		return 0, nil
	}
	n, _ := ds[0].Get("n")
	k, _, _ := num(n)
	return k, nil
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Drop
func CollDrop(c *mongo.Collection, ctx context.Context) error {
	if err := ready(colls[c], ctx); err != nil {
		return err
	}
	return cmdErr(Drop())
}

var current *mongo.Collection // whose indexes are being looked at

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Collection).Indexes
func CollIndexes(c *mongo.Collection) mongo.IndexView {
	current = c
	return mongo.IndexView{}
}

//verif:replaces (go.mongodb.org/mongo-driver/mongo.IndexView).CreateOne
func IndexCreateOne(v mongo.IndexView, ctx context.Context, m mongo.IndexModel, opts ...*options.CreateIndexesOptions) (string, error) {
	ns, err := IndexCreateMany(v, ctx, []mongo.IndexModel{m}, opts...)
	if err != nil {
		return "", err
	}
	return ns[0], nil
}

//verif:replaces (go.mongodb.org/mongo-driver/mongo.IndexView).CreateMany
func IndexCreateMany(v mongo.IndexView, ctx context.Context, ms []mongo.IndexModel, opts ...*options.CreateIndexesOptions) ([]string, error) {
	var xs []*Index
	var out []string
	for _, m := range ms {
		k, err := document(m.Keys)
		if err != nil {
			return nil, err
		}
		x := &Index{Keys: k}
		for _, e := range k {
			if x.Name != "" {
				x.Name += "_"
			}
			x.Name += e.K
			if s, ok := e.V.(string); ok {
				x.Name += "_" + s
			} else if truthy(e.V) && less(int32(0), e.V) {
				x.Name += "_1"
			} else {
				x.Name += "_-1"
			}
		}
		if o := m.Options; o != nil {
			if o.Name != nil {
				x.Name = *o.Name
			}
			x.Partial = opt(o.PartialFilterExpression)
			if o.ExpireAfterSeconds != nil {
				x.TTL = *o.ExpireAfterSeconds
			}
			x.Unique = on(o.Unique)
		}
		xs, out = append(xs, x), append(out, x.Name)
	}
	if err := ready(colls[current], ctx); err != nil {
		return nil, err
	}
	return out, cmdErr(CreateIndexes(xs))
}

//verif:replaces (*go.mongodb.org/mongo-driver/mongo.Database).RunCommand
func RunCommand(d *mongo.Database, ctx context.Context, cmd any, opts ...*options.RunCmdOptions) *mongo.SingleResult {
	c, err := document(cmd)
	if err == nil {
		err = ready(databases[d], ctx)
	}
	if err != nil {
		return one(nil, err)
	}
	if c[0].K != "collMod" {
		panic("mm: command " + c[0].K)
	}
	return one(D{{"ok", 1.0}}, cmdErr(collMod(c)))
}
