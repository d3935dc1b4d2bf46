package h

import (
	"errors"

	"github.com/iotaledger/hive.go/core/kvstore"
)

// fakeKVS is a kvstore.KVStore whose operations can fail. It holds its own copies of all data.
type fakeKVS struct {
	keys, vals [][]byte
	fail       map[string]int // operation -> how many times it fails
	log        [][]byte       // keys given to Get, Has, Set and Delete
	batches    int
	flushes    int
	writes     int
	backward   bool // order of iteration
	keepSlices bool // batches keep the values given to them until the commit, as those of hive.go do
	nolog      bool // reads are not logged
}

var errStore = errors.New("store failed")

func (s *fakeKVS) logKey(k []byte) {
	if !s.nolog {
		s.log = append(s.log, clone(k))
	}
}

func (s *fakeKVS) failing(op string) bool {
	if s.fail[op] > 0 {
		s.fail[op]--
		return true
	}
	return false
}

func (s *fakeKVS) keep(b []byte) []byte {
	if s.keepSlices {
		return b
	}
	return clone(b)
}

func (s *fakeKVS) index(k []byte) int {
	for i := range s.keys {
		if eq(s.keys[i], k) {
			return i
		}
	}
	return -1
}

func (s *fakeKVS) put(k, v []byte) {
	s.writes++
	if i := s.index(k); i >= 0 {
		s.vals[i] = clone(v)
		return
	}
	s.keys = append(s.keys, clone(k))
	s.vals = append(s.vals, clone(v))
}

func (s *fakeKVS) del(k []byte) {
	s.writes++
	if i := s.index(k); i >= 0 {
		s.keys = append(append([][]byte{}, s.keys[:i]...), s.keys[i+1:]...)
		s.vals = append(append([][]byte{}, s.vals[:i]...), s.vals[i+1:]...)
	}
}

func (s *fakeKVS) WithRealm(realm kvstore.Realm) (kvstore.KVStore, error) { return nil, errStore }
func (s *fakeKVS) Realm() kvstore.Realm                                   { return nil }

func (s *fakeKVS) Iterate(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyValueConsumerFunc, _ ...kvstore.IterDirection) error {
	if s.failing("iterate") {
		return errStore
	}
	n := len(s.keys)
	keys, vals := append([][]byte{}, s.keys...), append([][]byte{}, s.vals...)
	for i := 0; i < n; i++ {
		j := i
		if s.backward {
			j = n - 1 - i
		}
		k := keys[j]
		if len(k) < len(prefix) || !eq(k[:len(prefix)], prefix) {
			continue
		}
		if !f(clone(k), clone(vals[j])) {
			break
		}
	}
	if s.failing("iterate end") {
		return errStore
	}
	return nil
}

func (s *fakeKVS) IterateKeys(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyConsumerFunc, d ...kvstore.IterDirection) error {
	return s.Iterate(prefix, func(k kvstore.Key, _ kvstore.Value) bool { return f(k) }, d...)
}

func (s *fakeKVS) Clear() error { s.keys, s.vals = nil, nil; return nil }

func (s *fakeKVS) Get(k kvstore.Key) (kvstore.Value, error) {
	s.logKey(k)
	if s.failing("get") {
		return nil, errStore
	}
	if i := s.index(k); i >= 0 {
		return clone(s.vals[i]), nil
	}
	return nil, kvstore.ErrKeyNotFound
}

func (s *fakeKVS) Set(k kvstore.Key, v kvstore.Value) error {
	s.logKey(k)
	if s.failing("set") {
		return errStore
	}
	s.put(k, v)
	return nil
}

func (s *fakeKVS) Has(k kvstore.Key) (bool, error) {
	s.logKey(k)
	if s.failing("get") {
		return false, errStore
	}
	return s.index(k) >= 0, nil
}

func (s *fakeKVS) Delete(k kvstore.Key) error {
	s.logKey(k)
	if s.failing("set") {
		return errStore
	}
	s.del(k)
	return nil
}

func (s *fakeKVS) DeletePrefix(prefix kvstore.KeyPrefix) error {
	for i := len(s.keys) - 1; i >= 0; i-- {
		if k := s.keys[i]; len(k) >= len(prefix) && eq(k[:len(prefix)], prefix) {
			s.del(k)
		}
	}
	return nil
}

func (s *fakeKVS) Flush() error {
	if s.failing("flush") {
		return errStore
	}
	s.flushes++
	return nil
}
func (s *fakeKVS) Close() error { return nil }

func (s *fakeKVS) Batched() (kvstore.BatchedMutations, error) {
	if s.failing("batch") {
		return nil, errStore
	}
	s.batches++
	return &fakeBatch{s: s}, nil
}

// fakeBatch applies its mutations in their order when it is committed, and can be committed again.
type fakeBatch struct {
	s          *fakeKVS
	keys, vals [][]byte // nil value: deletion
	cancelled  bool
}

func (b *fakeBatch) Set(k kvstore.Key, v kvstore.Value) error {
	if b.s.failing("batch set") {
		return errStore
	}
	b.keys, b.vals = append(b.keys, clone(k)), append(b.vals, b.s.keep(v))
	return nil
}

func (b *fakeBatch) Delete(k kvstore.Key) error {
	if b.s.failing("batch set") {
		return errStore
	}
	b.keys, b.vals = append(b.keys, clone(k)), append(b.vals, nil)
	return nil
}

func (b *fakeBatch) Cancel() { b.cancelled = true; b.keys, b.vals = nil, nil }

func (b *fakeBatch) Commit() error {
	if b.s.failing("commit") {
		return errStore
	}
	for i := range b.keys {
		if b.vals[i] == nil {
			b.s.del(b.keys[i])
		} else {
			b.s.put(b.keys[i], b.vals[i])
		}
	}
	return nil
}

func (s *fakeKVS) snapshot() *fakeKVS {
	r := &fakeKVS{}
	for i := range s.keys {
		r.keys, r.vals = append(r.keys, clone(s.keys[i])), append(r.vals, clone(s.vals[i]))
	}
	return r
}

func (s *fakeKVS) same(o *fakeKVS) bool {
	if len(s.keys) != len(o.keys) {
		return false
	}
	for i := range s.keys {
		j := o.index(s.keys[i])
		if j < 0 || !eq(s.vals[i], o.vals[j]) {
			return false
		}
	}
	return true
}
