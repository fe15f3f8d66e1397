package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
)

const modCache = "/root/go/pkg/mod"

// depSources are dependencies with hooks added, used by both the symbolic and the native side.
func depSources() (map[string][]byte, error) {
	out := map[string][]byte{}
	// go-memdb: a gate before every transaction on the primary database
	ds, _ := filepath.Glob(modCache + "/github.com/hashicorp/go-memdb@v1.3.5")
	for _, d := range ds {
		p := filepath.Join(d, "memdb.go")
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		a := []byte("func (db *MemDB) Txn(write bool) *Txn {\n")
		b := []byte("func (db *MemDB) Snapshot() *MemDB {\n")
		if !bytes.Contains(src, a) || !bytes.Contains(src, b) {
			return nil, fmt.Errorf("unexpected go-memdb source")
		}
		src = bytes.Replace(src, a, append(a, []byte("if ZZGate != nil && db.primary { ZZGate(write, func() bool { if db.writer.TryLock() { db.writer.Unlock(); return true }; return false }) }\n")...), 1)
		src = bytes.Replace(src, b, append(b, []byte("if ZZGate != nil && db.primary { ZZGate(false, nil) }\n")...), 1)
		src = append(src, []byte("\n// ZZGate is a scheduling hook of the verification harnesses.\nvar ZZGate func(write bool, free func() bool)\n")...)
		out[p] = src
	}
	return out, nil
}
