package xstream

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vWalkOne(s *Stream, f WalkFunc) *Stream        { return s.Walk(f) }
func vWalkN(s *Stream, f WalkFunc, n int) *Stream   { return s.Walk(f, WithWorkSize(n)) }
func vWalkFew(s *Stream, f WalkFunc, n int) *Stream { return s.Walk(f, WithWorkSize(n)) }
func vWalkOpt(s *Stream, f WalkFunc, n int) *Stream {
	return s.Walk(f, WithOption(&Options{workSize: n}))
}

func vMapOne(s *Stream, f MapFunc) *Stream              { return s.Map(f) }
func vMapN(s *Stream, f MapFunc, n int) *Stream         { return s.Map(f, WithWorkSize(n)) }
func vFilterOne(s *Stream, f FilterFunc) *Stream        { return s.Filter(f) }
func vFilterN(s *Stream, f FilterFunc, n int) *Stream   { return s.Filter(f, WithWorkSize(n)) }
func vFlatMapOne(s *Stream, f MapFunc) *Stream          { return s.FlatMap(f) }
func vFlatMapN(s *Stream, f MapFunc, n int) *Stream     { return s.FlatMap(f, WithWorkSize(n)) }
func vParallelFinishN(s *Stream, f ParallelFunc, n int) { s.ParallelFinish(f, WithWorkSize(n)) }
func vParallelFinishOne(s *Stream, f ParallelFunc)      { s.ParallelFinish(f) }
