package h

import (
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// isMap checks the store against the reference; k is any further key.
func isMap(s trie.KVStore, r ref, k []byte, what string) {
	for _, p := range append(append(ref{}, r...), kv{k: k}) {
		v := r.get(p.k)
		got := s.Get(p.k)
		sym.Assert((got == nil) == (v == nil), what+": nil exactly for missing keys")
		sym.Assert(eq(got, v), what+": get returns the last value")
		sym.Assert(s.Has(p.k) == (v != nil), what+": has agrees with get")
	}
	var seen ref
	ok := true
	s.Iterate(func(k, v []byte) bool {
		if seen.find(k) >= 0 || len(v) == 0 || !eq(r.get(k), v) {
			ok = false
		}
		seen = append(seen, kv{clone(k), clone(v)})
		return true
	})
	sym.Assert(ok, what+": iteration visits current pairs, each once")
	sym.Assert(len(seen) == len(r), what+": iteration visits all pairs")
	sym.Assert(trie.NumEntries(s) == len(r), what+": the number of entries")
	stop := sym.Choice("stop", len(r)+1)
	n := 0
	s.Iterate(func(_, _ []byte) bool {
		n++
		return n < stop
	})
	if stop > 0 {
		sym.Assert(n == stop, what+": iteration stops when told")
	}
}

func mapOp(s trie.KVStore, r ref) ref {
	k := anyBytes("k", 0, 2)
	var v []byte
	switch sym.Choice("v", 4) {
	case 0:
	case 1:
		v = []byte{}
	default:
		v = sym.Bytes("v", 1+sym.Choice("vl", 2))
	}
	s.Set(k, v)
	return r.with(k, v)
}

// C16_InMemory: the in-memory store is a map.
func C16_InMemory() {
	s := trie.NewInMemoryKVStore()
	var r ref
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		r = mapOp(s, r)
	}
	sym.MapOrder(-1)
	isMap(s, r, anyBytes("other", 0, 2), "in memory")
}

func symPrefix(name string) []byte { return anyBytes(name, 0, sym.Bound(2, 2)) }

// C16_Hive: the hive adaptor is a map.
func C16_Hive() {
	kvs := &fakeKVS{backward: sym.Choice("backward", 2) == 1}
	s := hive_adaptor.NewHiveKVStoreAdaptor(kvs, symPrefix("prefix"))
	var r ref
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		r = mapOp(s, r)
	}
	isMap(s, r, anyBytes("other", 0, 2), "hive")
}

// C16_Isolation: adaptors with different prefixes on one store do not see each other, nor anything else in the store.
func C16_Isolation() {
	kvs := &fakeKVS{}
	p1, p2 := symPrefix("p1"), symPrefix("p2")
	n := len(p1)
	if len(p2) < n {
		n = len(p2)
	}
	sym.Assume(!eq(p1[:n], p2[:n])) // none is a prefix of the other
	// foreign data outside both partitions, and as near to them as possible
	alien := anyBytes("alien", 0, 3)
	inside := func(k, p []byte) bool { return len(k) >= len(p) && eq(k[:len(p)], p) }
	sym.Assume(!inside(alien, p1) && !inside(alien, p2))
	kvs.put(alien, []byte{7})
	s1, s2 := hive_adaptor.NewHiveKVStoreAdaptor(kvs, p1), hive_adaptor.NewHiveKVStoreAdaptor(kvs, p2)
	var r1, r2 ref
	for i := 0; i < sym.Bound(2, 3); i++ {
		if sym.Choice("who", 2) == 0 {
			r1 = mapOp(s1, r1)
		} else {
			r2 = mapOp(s2, r2)
		}
	}
	isMap(s1, r1, anyBytes("other", 0, 2), "first")
	isMap(s2, r2, anyBytes("other", 0, 2), "second")
	i := kvs.index(alien)
	sym.Assert(i >= 0 && eq(kvs.vals[i], []byte{7}), "other data of the store are left alone")
	sym.Assert(len(kvs.keys) == 1+len(r1)+len(r2), "nothing else is in the store")
	for _, k := range kvs.log {
		sym.Assert(inside(k, p1) || inside(k, p2), "only keys of the partitions are touched")
	}
}

// C16_Reopen: another adaptor with the same prefix sees the same data, and empty values of the store are missing data.
func C16_Reopen() {
	kvs := &fakeKVS{}
	p := symPrefix("prefix")
	r := mapOp(hive_adaptor.NewHiveKVStoreAdaptor(kvs, p), nil)
	s := hive_adaptor.NewHiveKVStoreAdaptor(kvs, p)
	r = mapOp(s, r)
	isMap(hive_adaptor.NewHiveKVStoreAdaptor(kvs, p), r, anyBytes("other", 0, 1), "reopened")
	k := anyBytes("empty", 0, 2)
	sym.Assume(r.find(k) < 0)
	kvs.put(append(clone(p), k...), []byte{})
	sym.Assert(s.Get(k) == nil, "an empty value is no value")
	sym.Assert(!s.Has(k), "has agrees with get")
}

// C16_Errors: errors of the underlying store are never taken for missing data or for success.
func C16_Errors() {
	kvs := &fakeKVS{}
	s := hive_adaptor.NewHiveKVStoreAdaptor(kvs, symPrefix("prefix"))
	var r ref
	if sym.Choice("pair", 2) == 1 {
		r = mapOp(s, r)
	}
	k := anyBytes("k", 0, 2)
	before := kvs.snapshot()
	ops := [...]string{"get", "get", "set", "set", "iterate", "iterate end"}
	op := sym.Choice("op", 6)
	kvs.fail = map[string]int{ops[op]: 1}
	p := sym.Panics(func() {
		switch op {
		case 0:
			s.Get(k)
		case 1:
			s.Has(k)
		case 2:
			s.Set(k, sym.Bytes("w", 1))
		case 3:
			s.Set(k, nil)
		default:
			s.Iterate(func(_, _ []byte) bool { return true })
		}
	})
	sym.Assert(p || kvs.fail[ops[op]] > 0, "an error of the store is not hidden")
	if kvs.fail[ops[op]] == 0 {
		sym.Assert(kvs.same(before), "a failed operation changes nothing")
	}
	kvs.fail = nil
	isMap(s, r, k, "after the error")
}
