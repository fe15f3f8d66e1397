//go:build !verifsym

package mm

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"go.mongodb.org/mongo-driver/mongo"
)

// The real driver talks to the model of the server over the loopback network.

var (
	listener net.Listener
	serving  sync.Mutex
)

func reset() {}

// URI is where the server listens.
func URI() string {
	if listener == nil {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		listener = l
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go serve(c)
			}
		}()
	}
	return fmt.Sprintf("mongodb://%s/?directConnection=true&retryReads=false&retryWrites=false", listener.Addr())
}

// CommandErr is what the driver returns for a command that failed.
func CommandErr(e *Err) error {
	if e == nil {
		return nil
	}
	return mongo.CommandError{Code: int32(e.Code), Name: e.Name, Message: e.Msg}
}

func in(v any) any {
	switch x := v.(type) {
	case nil, string, bool, int32, int64, float64:
		return v
	case primitive.DateTime:
		s, ms := int64(x)/1000, int64(x)%1000
		if ms < 0 {
			s, ms = s-1, ms+1000
		}
		return DT{s, ms}
	case primitive.D:
		d := D{}
		for _, e := range x {
			d = append(d, E{e.Key, in(e.Value)})
		}
		return d
	case primitive.A:
		a := A{}
		for _, y := range x {
			a = append(a, in(y))
		}
		return a
	case primitive.ObjectID:
		return D{{"$oid", x.Hex()}}
	}
	panic(fmt.Sprintf("mm: value of type %T", v))
}

func out(v any) any {
	switch x := v.(type) {
	case DT:
		return primitive.DateTime(x.Sec*1000 + x.Ms)
	case D:
		d := primitive.D{}
		for _, e := range x {
			d = append(d, primitive.E{Key: e.K, Value: out(e.V)})
		}
		return d
	case A:
		a := primitive.A{}
		for _, y := range x {
			a = append(a, out(y))
		}
		return a
	}
	return v
}

func serve(c net.Conn) {
	defer c.Close()
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		body := make([]byte, binary.LittleEndian.Uint32(h[:])-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id := binary.LittleEndian.Uint32(h[4:])
		var doc bson.Raw
		seqs := map[string]A{}
		query := false
		switch binary.LittleEndian.Uint32(h[12:]) {
		case 2004: // OP_QUERY
			query = true
			p := 4
			for body[p] != 0 {
				p++
			}
			doc = bson.Raw(body[p+9:])
		case 2013: // OP_MSG
			p := 4
			for p < len(body) {
				k := body[p]
				n := int(binary.LittleEndian.Uint32(body[p+1:]))
				if k == 0 {
					doc = bson.Raw(body[p+1 : p+1+n])
				} else {
					q := p + 5
					for body[q] != 0 {
						q++
					}
					name := string(body[p+5 : q])
					q++
					for q < p+1+n {
						m := int(binary.LittleEndian.Uint32(body[q:]))
						seqs[name] = append(seqs[name], raw(body[q:q+m]))
						q += m
					}
				}
				p += 1 + n
			}
		default:
			return
		}
		cmd := raw(doc)
		for k, v := range seqs {
			cmd = append(cmd, E{k, v})
		}
		b, err := bson.Marshal(out(answer(cmd)))
		if err != nil {
			panic(err)
		}
		var r []byte
		if query {
			r = append(make([]byte, 36), b...)
			binary.LittleEndian.PutUint32(r[12:], 1)
			binary.LittleEndian.PutUint32(r[32:], 1)
		} else {
			r = append(make([]byte, 21), b...)
			binary.LittleEndian.PutUint32(r[12:], 2013)
		}
		binary.LittleEndian.PutUint32(r, uint32(len(r)))
		binary.LittleEndian.PutUint32(r[8:], id)
		if _, err := c.Write(r); err != nil {
			return
		}
	}
}

func raw(b []byte) D {
	var d bson.D
	if err := bson.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return in(d).(D)
}

func ok() D { return D{{"ok", float64(1)}} }

func failed(e *Err) D {
	return D{{"ok", float64(0)}, {"code", int32(e.Code)}, {"codeName", e.Name}, {"errmsg", e.Msg}}
}

func get(c D, k string) D {
	v, _ := c.Get(k)
	d, _ := v.(D)
	return d
}

func list(c D, k string) A {
	v, _ := c.Get(k)
	a, _ := v.(A)
	return a
}

func flag(c D, k string, def bool) bool {
	v, has := c.Get(k)
	if !has {
		return def
	}
	return truthy(v)
}

func number(c D, k string) int64 {
	v, _ := c.Get(k)
	n, f, isInt := num(v)
	if !isInt {
		n = int64(f)
	}
	return n
}

func hintOf(c D) any {
	v, _ := c.Get("hint")
	return v
}

func batch(ds []D, ns any) D {
	a := A{}
	for _, d := range ds {
		a = append(a, d)
	}
	return append(ok(), E{"cursor", D{{"firstBatch", a}, {"id", int64(0)}, {"ns", ns}}})
}

func wrote(r Result, upd bool) D {
	d := append(ok(), E{"n", int32(r.N)})
	if upd {
		d = append(d, E{"nModified", int32(r.Modified)})
		if len(r.Upserted) > 0 {
			a := A{}
			for i, u := range r.Upserted {
				a = append(a, D{{"index", int32(u.Index)}, {"_id", r.UpsertedIDs[i]}})
			}
			d = append(d, E{"upserted", a})
		}
	}
	if len(r.Errs) > 0 {
		a := A{}
		for _, e := range r.Errs {
			a = append(a, D{{"index", int32(e.Index)}, {"code", int32(e.Err.Code)}, {"errmsg", e.Err.Msg}})
		}
		d = append(d, E{"writeErrors", a})
	}
	return d
}

func answer(c D) D {
	ns, _ := c.Get("$db")
	if s, isS := ns.(string); isS {
		n, _ := c[0].V.(string)
		ns = s + "." + n
	}
	switch c[0].K {
	case "hello", "ismaster", "isMaster":
		return append(ok(), D{{"ismaster", true}, {"isWritablePrimary", true}, {"helloOk", true}, {"maxBsonObjectSize", int32(16777216)}, {"maxMessageSizeBytes", int32(48000000)},
			{"maxWriteBatchSize", int32(100000)}, {"localTime", DT{time.Now().Unix(), 0}}, {"minWireVersion", int32(0)}, {"maxWireVersion", int32(17)}, {"readOnly", false}}...)
	case "endSessions", "killCursors", "buildInfo":
		return ok()
	}
	if !Gates {
		serving.Lock()
		defer serving.Unlock()
	}
	switch c[0].K {
	case "ping":
		if e := begin("ping"); e != nil {
			return failed(e)
		}
		return ok()
	case "find":
		q := Query{Filter: get(c, "filter"), Sort: get(c, "sort"), Proj: get(c, "projection"), Hint: hintOf(c), Skip: number(c, "skip"), Limit: number(c, "limit")}
		ds, e := Find(q)
		if e != nil {
			return failed(e)
		}
		return batch(ds, ns)
	case "aggregate":
		ds, e := Aggregate(list(c, "pipeline"), hintOf(c))
		if e != nil {
			return failed(e)
		}
		return batch(ds, ns)
	case "findAndModify":
		m := Modify{Filter: get(c, "query"), Sort: get(c, "sort"), Update: get(c, "update"), Proj: get(c, "fields"), Hint: hintOf(c), Remove: flag(c, "remove", false), New: flag(c, "new", false), Upsert: flag(c, "upsert", false)}
		d, e := FindAndModify(m)
		if e != nil {
			return failed(e)
		}
		var v any
		n := 0
		if d != nil {
			v, n = d, 1
		}
		return append(ok(), E{"value", v}, E{"lastErrorObject", D{{"n", int32(n)}, {"updatedExisting", n == 1}}})
	case "insert":
		var ds []D
		for _, d := range list(c, "documents") {
			ds = append(ds, d.(D))
		}
		r, e := Insert(ds, flag(c, "ordered", true))
		if e != nil {
			return failed(e)
		}
		return wrote(r, false)
	case "update", "delete":
		var ss []Stmt
		for _, x := range list(c, c[0].K+"s") {
			s := x.(D)
			ss = append(ss, Stmt{Filter: get(s, "q"), Update: get(s, "u"), Hint: hintOf(s), Multi: flag(s, "multi", false), Upsert: flag(s, "upsert", false), Limit: number(s, "limit")})
		}
		if c[0].K == "delete" {
			r, e := Delete(ss, flag(c, "ordered", true))
			if e != nil {
				return failed(e)
			}
			return wrote(r, false)
		}
		r, e := Update(ss, flag(c, "ordered", true))
		if e != nil {
			return failed(e)
		}
		return wrote(r, true)
	case "createIndexes":
		var xs []*Index
		for _, x := range list(c, "indexes") {
			d := x.(D)
			i := &Index{Keys: get(d, "key"), Partial: get(d, "partialFilterExpression"), Unique: flag(d, "unique", false)}
			n, _ := d.Get("name")
			i.Name, _ = n.(string)
			i.TTL, _ = d.Get("expireAfterSeconds")
			xs = append(xs, i)
		}
		if e := CreateIndexes(xs); e != nil {
			return failed(e)
		}
		return ok()
	case "collMod":
		if e := collMod(c); e != nil {
			return failed(e)
		}
		return ok()
	case "drop":
		if e := Drop(); e != nil {
			return failed(e)
		}
		return ok()
	}
	panic("mm: command " + c[0].K)
}
