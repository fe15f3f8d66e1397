//go:build !verifsym

// Package mg models encoding/gob for the executor.
package mg
