//go:build !verifsym

// Package mj does nothing natively: the real encoding/json runs.
package mj
