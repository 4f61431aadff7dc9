package xmapreduce

import (
	"context"

	"github.com/chenquan/go-pkg/xstream"
)

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vMapN(ctx context.Context, generate GenerateFunc, mapf MapFunc, n int) <-chan interface{} {
	return Map(ctx, generate, mapf, WithWorkerSize(n))
}

func vMapDefault(ctx context.Context, generate GenerateFunc, mapf MapFunc) <-chan interface{} {
	return Map(ctx, generate, mapf)
}

func vMapStream(ctx context.Context, generate GenerateFunc, mapf MapFunc, n int) *xstream.Stream {
	return MapStream(ctx, generate, mapf, WithWorkerSize(n))
}
