package xworker

import "context"

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vRunLive(w *Worker, ctx context.Context, run func(), deferFunc func()) {
	w.Run(ctx, run, deferFunc)
}
