package mc

import (
	"context"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
)

// Rec is the storage engine of the process, with what it is asked for recorded.
type Rec struct {
	*memdb.Engine
	Memdb *memdb.Config
	Mongo *mongodb.Config
}

// Hooks of the engine: they run before the operation, and their error is its result.
var (
	OnOpen, OnReady, OnChore func() error
	OnInsert                 func()
	OnClose                  func()
	OnList                   func(limit, offset int)
	Made                     *Rec
	ErrNew                   error
)

func NewMemdb(c *memdb.Config) (*Rec, error) {
	if ErrNew != nil {
		return nil, ErrNew
	}
	g, err := memdb.New(c)
	if err != nil {
		return nil, err
	}
	Made = &Rec{Engine: g, Memdb: c}
	return Made, nil
}

// NewMongodb makes an engine that stands in for a MongoDB deployment.
func NewMongodb(c *mongodb.Config) (*Rec, error) {
	if ErrNew != nil {
		return nil, ErrNew
	}
	g, err := memdb.New(&memdb.Config{})
	if err != nil {
		return nil, err
	}
	Made = &Rec{Engine: g, Mongo: c}
	return Made, nil
}

func (r *Rec) Open(ctx context.Context) error {
	if OnOpen != nil {
		if err := OnOpen(); err != nil {
			return err
		}
	}
	return r.Engine.Open(ctx)
}

func (r *Rec) Chore(ctx context.Context) error {
	if OnChore != nil {
		if err := OnChore(); err != nil {
			return err
		}
	}
	return r.Engine.Chore(ctx)
}

func (r *Rec) Close(ctx context.Context) error {
	if OnClose != nil {
		OnClose()
	}
	return r.Engine.Close(ctx)
}

func (r *Rec) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	if OnInsert != nil {
		OnInsert()
	}
	return r.Engine.InsertTask(ctx, t)
}

func (r *Rec) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	if OnList != nil {
		OnList(limit, offset)
	}
	return r.Engine.ListTopics(ctx, limit, offset)
}
