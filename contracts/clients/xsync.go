package xsync

// Specification programs of Map (overlay; not part of /repo): what each method does to the content of a map,
// over the primitives spec*, which the verifier interprets on mathematical maps.

func specHas(m *Map, k interface{}) bool { panic("primitive") }
func specVal(m *Map, k interface{}) interface{} { panic("primitive") }
func specSet(m *Map, k, v interface{}) { panic("primitive") }
func specDel(m *Map, k interface{}) { panic("primitive") }
func specClear(m *Map) { panic("primitive") }
func specKeys(m *Map) map[interface{}]struct{} { panic("primitive") }

func specLoad(m *Map, key interface{}) (value interface{}, ok bool) {
	if !specHas(m, key) {
		return nil, false
	}
	return specVal(m, key), true
}

func specStore(m *Map, key, value interface{}) { specSet(m, key, value) }

func specLoadOrStore(m *Map, key, value interface{}) (actual interface{}, loaded bool) {
	if specHas(m, key) {
		return specVal(m, key), true
	}
	specSet(m, key, value)
	return value, false
}

func specComputeIfAbsent(m *Map, key interface{}, computeFunc func(key interface{}) interface{}) (actual interface{}, loaded bool) {
	if specHas(m, key) {
		return specVal(m, key), true
	}
	value := computeFunc(key)
	specSet(m, key, value)
	return value, false
}

func specComputeIfPresent(m *Map, key interface{}, computeFunc func(key, value interface{}) interface{}) (actual interface{}, exist bool) {
	if !specHas(m, key) {
		return nil, false
	}
	value := computeFunc(key, specVal(m, key))
	specSet(m, key, value)
	return value, true
}

func specLoadAndDelete(m *Map, key interface{}) (value interface{}, loaded bool) {
	if !specHas(m, key) {
		return nil, false
	}
	value = specVal(m, key)
	specDel(m, key)
	return value, true
}

func specDelete(m *Map, key interface{}) { specDel(m, key) }

func specClearAll(m *Map) { specClear(m) }

func specRange(m *Map, f func(key, value interface{}) bool) {
	for k := range specKeys(m) {
		if !f(k, specVal(m, k)) {
			break
		}
	}
}

func vNewSharedMapN(n int) *SharedMap { return NewSharedMap(WithShardBlockSize(n)) }

func vNewSharedMap() *SharedMap { return NewSharedMap() }

// The operations of a Map that other goroutines use at the same time.
func vcLoad(m *Map, key interface{}) (value interface{}, ok bool) { return m.Load(key) }

func vcStore(m *Map, key, value interface{}) { m.Store(key, value) }

func vcLoadOrStore(m *Map, key, value interface{}) (actual interface{}, loaded bool) {
	return m.LoadOrStore(key, value)
}

func vcComputeIfAbsent(m *Map, key interface{}, f func(key interface{}) interface{}) (actual interface{}, loaded bool) {
	return m.ComputeIfAbsent(key, f)
}

func vcComputeIfPresent(m *Map, key interface{}, f func(key, value interface{}) interface{}) (actual interface{}, exist bool) {
	return m.ComputeIfPresent(key, f)
}

func vcLoadAndDelete(m *Map, key interface{}) (value interface{}, loaded bool) {
	return m.LoadAndDelete(key)
}

func vcDelete(m *Map, key interface{}) { m.Delete(key) }

func vcClear(m *Map) { m.Clear() }

func vcRange(m *Map, f func(key, value interface{}) bool) { m.Range(f) }
