// Package iradix is a model of github.com/hashicorp/go-immutable-radix for
// symbolic execution: an immutable ordered map kept as a list of guarded
// entries. It compiles and runs natively too (see /verif/radix/README), where
// the v* helpers below are ordinary functions; the symbolic executor replaces
// them by non-forking term operations.
package iradix

import "bytes"

// ---- helpers intercepted by the symbolic executor ----

func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }

// vKnown: 1 known true, 0 known false, -1 undecided.
func vKnown(a bool) int {
	if a {
		return 1
	}
	return 0
}
func vIte(c bool, a, b interface{}) interface{} {
	if c {
		return a
	}
	return b
}
func vIteKey(c bool, a, b []byte) []byte {
	if c {
		return a
	}
	return b
}
func vEq(a, b []byte) bool     { return bytes.Equal(a, b) }
func vLess(a, b []byte) bool   { return bytes.Compare(a, b) < 0 }
func vPrefix(a, p []byte) bool { return bytes.HasPrefix(a, p) }

type entry struct {
	key   []byte
	val   interface{}
	alive bool
}

type list struct{ ents []entry }

func (l *list) put(k []byte, v interface{}) (*list, interface{}, bool) {
	n := make([]entry, 0, len(l.ents)+1)
	var old interface{}
	found := false
	for _, e := range l.ents {
		hit := vAnd(e.alive, vEq(e.key, k))
		if vKnown(hit) != 0 {
			old = vIte(hit, e.val, old)
			found = vOr(found, hit)
		}
		alive := vAnd(e.alive, !hit)
		if vKnown(alive) != 0 {
			n = append(n, entry{e.key, e.val, alive})
		}
	}
	n = append(n, entry{k, v, true})
	return &list{n}, old, found
}

func (l *list) del(k []byte) (*list, interface{}, bool) {
	n := make([]entry, 0, len(l.ents))
	var old interface{}
	found := false
	for _, e := range l.ents {
		hit := vAnd(e.alive, vEq(e.key, k))
		if vKnown(hit) != 0 {
			old = vIte(hit, e.val, old)
			found = vOr(found, hit)
		}
		alive := vAnd(e.alive, !hit)
		if vKnown(alive) != 0 {
			n = append(n, entry{e.key, e.val, alive})
		}
	}
	return &list{n}, old, found
}

func (l *list) get(k []byte) (interface{}, bool) {
	var old interface{}
	found := false
	for _, e := range l.ents {
		hit := vAnd(e.alive, vEq(e.key, k))
		if vKnown(hit) != 0 {
			old = vIte(hit, e.val, old)
			found = vOr(found, hit)
		}
	}
	return old, found
}

// WalkFn is used when walking the tree. Returns true to stop.
type WalkFn func(k []byte, v interface{}) bool

// Tree is an immutable map.
type Tree struct{ l *list }

// New returns an empty tree.
func New() *Tree { return &Tree{&list{}} }

// Len is used to return the number of elements in the tree.
func (t *Tree) Len() int {
	n := 0
	for _, e := range t.l.ents {
		if e.alive {
			n++
		}
	}
	return n
}

// Txn starts a new transaction.
func (t *Tree) Txn() *Txn { return &Txn{l: t.l} }

func (t *Tree) Insert(k []byte, v interface{}) (*Tree, interface{}, bool) {
	l, o, ok := t.l.put(k, v)
	return &Tree{l}, o, ok
}
func (t *Tree) Delete(k []byte) (*Tree, interface{}, bool) {
	l, o, ok := t.l.del(k)
	return &Tree{l}, o, ok
}
func (t *Tree) DeletePrefix(k []byte) (*Tree, bool) {
	x := t.Txn()
	ok := x.DeletePrefix(k)
	return x.Commit(), ok
}
func (t *Tree) Root() *Node                       { return &Node{t.l} }
func (t *Tree) Get(k []byte) (interface{}, bool) { return t.l.get(k) }

// Txn is a transaction on the tree.
type Txn struct{ l *list }

func (t *Txn) Clone() *Txn            { return &Txn{l: t.l} }
func (t *Txn) TrackMutate(track bool) {}
func (t *Txn) Notify()                {}
func (t *Txn) Insert(k []byte, v interface{}) (interface{}, bool) {
	l, o, ok := t.l.put(k, v)
	t.l = l
	return o, ok
}
func (t *Txn) Delete(k []byte) (interface{}, bool) {
	l, o, ok := t.l.del(k)
	t.l = l
	return o, ok
}
func (t *Txn) DeletePrefix(p []byte) bool {
	n := make([]entry, 0, len(t.l.ents))
	any := false
	for _, e := range t.l.ents {
		hit := vAnd(e.alive, vPrefix(e.key, p))
		any = vOr(any, hit)
		alive := vAnd(e.alive, !hit)
		if vKnown(alive) != 0 {
			n = append(n, entry{e.key, e.val, alive})
		}
	}
	t.l = &list{n}
	return any
}
func (t *Txn) Root() *Node                       { return &Node{t.l} }
func (t *Txn) Get(k []byte) (interface{}, bool) { return t.l.get(k) }
func (t *Txn) GetWatch(k []byte) (<-chan struct{}, interface{}, bool) {
	v, ok := t.l.get(k)
	return nil, v, ok
}
func (t *Txn) Commit() *Tree     { return &Tree{t.l} }
func (t *Txn) CommitOnly() *Tree { return &Tree{t.l} }

// Node stands for a (sub)tree; only roots exist in the model.
type Node struct{ l *list }

func (n *Node) GetWatch(k []byte) (<-chan struct{}, interface{}, bool) {
	v, ok := n.l.get(k)
	return nil, v, ok
}
func (n *Node) Get(k []byte) (interface{}, bool) { return n.l.get(k) }
func (n *Node) LongestPrefix(k []byte) ([]byte, interface{}, bool) {
	var best *entry
	for i := range n.l.ents {
		e := &n.l.ents[i]
		if e.alive && vPrefix(k, e.key) && (best == nil || len(e.key) > len(best.key)) {
			best = e
		}
	}
	if best == nil {
		return nil, nil, false
	}
	return best.key, best.val, true
}
func (n *Node) Iterator() *Iterator { return &Iterator{c: newCursor(n.l)} }
func (n *Node) ReverseIterator() *ReverseIterator {
	return &ReverseIterator{c: newCursor(n.l)}
}
func (n *Node) Minimum() ([]byte, interface{}, bool) { return n.Iterator().Next() }
func (n *Node) Maximum() ([]byte, interface{}, bool) { return n.ReverseIterator().Previous() }
func (n *Node) Walk(fn WalkFn) {
	it := n.Iterator()
	for k, v, ok := it.Next(); ok; k, v, ok = it.Next() {
		if fn(k, v) {
			return
		}
	}
}
func (n *Node) WalkPrefix(prefix []byte, fn WalkFn) {
	it := n.Iterator()
	it.SeekPrefix(prefix)
	for k, v, ok := it.Next(); ok; k, v, ok = it.Next() {
		if fn(k, v) {
			return
		}
	}
}

type cursor struct{ ents []entry }

func newCursor(l *list) *cursor {
	n := make([]entry, 0, len(l.ents))
	for _, e := range l.ents {
		n = append(n, e)
	}
	return &cursor{n}
}

func (c *cursor) filter(f func(k []byte) bool) {
	n := make([]entry, 0, len(c.ents))
	for _, e := range c.ents {
		a := vAnd(e.alive, f(e.key))
		if vKnown(a) != 0 {
			n = append(n, entry{e.key, e.val, a})
		}
	}
	c.ents = n
}

// next removes and returns the smallest (or largest) live entry.
func (c *cursor) next(max bool) ([]byte, interface{}, bool) {
	var key []byte
	var val interface{}
	found := false
	n := make([]entry, 0, len(c.ents))
	for i, e := range c.ents {
		first := e.alive
		for j, o := range c.ents {
			if i == j || vKnown(first) == 0 {
				continue
			}
			before := false
			if max {
				before = vLess(e.key, o.key)
			} else {
				before = vLess(o.key, e.key)
			}
			first = vAnd(first, !vAnd(o.alive, before))
		}
		if vKnown(first) != 0 {
			key = vIteKey(first, e.key, key)
			val = vIte(first, e.val, val)
			found = vOr(found, first)
		}
		rest := vAnd(e.alive, !first)
		if vKnown(rest) != 0 {
			n = append(n, entry{e.key, e.val, rest})
		}
	}
	c.ents = n
	return key, val, found
}

// Iterator goes through the entries in ascending order.
type Iterator struct{ c *cursor }

func (i *Iterator) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
	i.SeekPrefix(prefix)
	return nil
}
func (i *Iterator) SeekPrefix(prefix []byte) {
	i.c.filter(func(k []byte) bool { return vPrefix(k, prefix) })
}
func (i *Iterator) SeekLowerBound(key []byte) {
	i.c.filter(func(k []byte) bool { return !vLess(k, key) })
}
func (i *Iterator) Next() ([]byte, interface{}, bool) { return i.c.next(false) }

// ReverseIterator goes through the entries in descending order.
type ReverseIterator struct{ c *cursor }

func NewReverseIterator(n *Node) *ReverseIterator { return n.ReverseIterator() }
func (ri *ReverseIterator) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
	ri.SeekPrefix(prefix)
	return nil
}
func (ri *ReverseIterator) SeekPrefix(prefix []byte) {
	ri.c.filter(func(k []byte) bool { return vPrefix(k, prefix) })
}
func (ri *ReverseIterator) SeekReverseLowerBound(key []byte) {
	ri.c.filter(func(k []byte) bool { return !vLess(key, k) })
}
func (ri *ReverseIterator) Previous() ([]byte, interface{}, bool) { return ri.c.next(true) }
