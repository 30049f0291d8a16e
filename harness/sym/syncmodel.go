package sym

import "sync"

// The engine runs these in place of the methods of sync.Map.

var (
	mapsLock sync.Mutex
	maps     = map[*sync.Map]map[interface{}]interface{}{}
)

func mapOf(m *sync.Map) map[interface{}]interface{} {
	if maps[m] == nil {
		maps[m] = map[interface{}]interface{}{}
	}
	return maps[m]
}

func syncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	mapsLock.Lock()
	v, ok := mapOf(m)[k]
	mapsLock.Unlock()
	return v, ok
}

func syncMapStore(m *sync.Map, k, v interface{}) {
	mapsLock.Lock()
	mapOf(m)[k] = v
	mapsLock.Unlock()
}

func syncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	mapsLock.Lock()
	old, ok := mapOf(m)[k]
	if ok {
		v = old
	} else {
		mapOf(m)[k] = v
	}
	mapsLock.Unlock()
	return v, ok
}

func syncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	mapsLock.Lock()
	v, ok := mapOf(m)[k]
	delete(mapOf(m), k)
	mapsLock.Unlock()
	return v, ok
}

func syncMapDelete(m *sync.Map, k interface{}) { syncMapLoadAndDelete(m, k) }

func syncMapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	mapsLock.Lock()
	old, ok := mapOf(m)[k]
	mapOf(m)[k] = v
	mapsLock.Unlock()
	return old, ok
}

func syncMapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	mapsLock.Lock()
	cur, ok := mapOf(m)[k]
	ok = ok && cur == old
	if ok {
		mapOf(m)[k] = v
	}
	mapsLock.Unlock()
	return ok
}

func syncMapCompareAndDelete(m *sync.Map, k, old interface{}) bool {
	mapsLock.Lock()
	cur, ok := mapOf(m)[k]
	ok = ok && cur == old
	if ok {
		delete(mapOf(m), k)
	}
	mapsLock.Unlock()
	return ok
}

func syncMapClear(m *sync.Map) {
	mapsLock.Lock()
	maps[m] = nil
	mapsLock.Unlock()
}

func syncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	mapsLock.Lock()
	var ks, vs []interface{}
	for k, v := range mapOf(m) {
		ks, vs = append(ks, k), append(vs, v)
	}
	mapsLock.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

// And these in place of the methods of sync.Cond.

var waiters = map[*sync.Cond][]chan bool{}

func condWait(c *sync.Cond) {
	ch := make(chan bool, 1)
	mapsLock.Lock()
	waiters[c] = append(waiters[c], ch)
	mapsLock.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func condSignal(c *sync.Cond) { condWake(c, 1) }

func condBroadcast(c *sync.Cond) { condWake(c, 1<<30) }

func condWake(c *sync.Cond, n int) {
	mapsLock.Lock()
	for ; n > 0 && len(waiters[c]) > 0; n-- {
		waiters[c][0] <- true
		waiters[c] = waiters[c][1:]
	}
	mapsLock.Unlock()
}
