// Package mq lets harnesses prepare the requests the client makes.
package mq

import (
	"context"
	"io"
	"net/http"
)

// Prepare sees every request the client makes before it is sent.
var Prepare func(r *http.Request)

func NewRequestWithContext(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	r, err := http.NewRequestWithContext(ctx, method, url, body)
	if err == nil && Prepare != nil {
		Prepare(r)
	}
	return r, err
}

func NewRequest(method, url string, body io.Reader) (*http.Request, error) {
	return NewRequestWithContext(context.Background(), method, url, body)
}
