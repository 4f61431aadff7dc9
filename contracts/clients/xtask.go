package xtask

import (
	"context"
	"time"
)

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vRetry(fn func() error, n int) error { return DoWithRetry(fn, WithRetry(n)) }

func vRetryDefault(fn func() error) error { return DoWithRetry(fn) }

func vDoLive(ctx context.Context, do func() error, deferFunc func()) error { return Do(ctx, do, deferFunc) }

func vTimeoutLive(timeout time.Duration, do func() error, deferFunc func()) error {
	return DoWithTimeout(timeout, do, deferFunc)
}
