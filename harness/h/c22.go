package h

import (
	"bytes"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// A buffer is a slice of the caller with room behind it, which the library must not touch, and which the caller changes.
type buffer struct {
	b, full, copy []byte
}

func newBuffer(b []byte) *buffer {
	full := make([]byte, len(b)+2)
	copy(full, b)
	full[len(b)], full[len(b)+1] = 0xA5, 0x5A
	return &buffer{b: full[:len(b)], full: full, copy: clone(full)}
}

// scribble checks that the buffer is as the caller left it and writes arbitrary bytes to it, and to the room behind.
func (b *buffer) scribble() {
	sym.Assert(eq(b.full, b.copy), "the library does not modify slices passed to it")
	x := sym.Byte("scribble")
	for i := range b.full {
		b.full[i] = x
	}
	b.copy = clone(b.full)
}

func (b *buffer) untouched() {
	sym.Assert(eq(b.full, b.copy), "the library does not modify slices passed to it later on")
}

// c22Op is an update, a deletion or the insertion of a key commitment with the buffers of the caller, changed afterwards.
func c22Op(w *world, late bool) []*buffer {
	k := symKey("key", w.a, 0, maxKey(w.a))
	kb := newBuffer(k)
	n := 2
	if w.opt && len(k) > 0 {
		n = 4
	}
	var vb *buffer
	switch sym.Choice("op", n) {
	case 0:
		w.tr.Delete(kb.b)
		w.r = w.r.with(k, nil)
	case 1:
		l := [...]int{1, int(w.m.HashSize())}[sym.Choice("vallen", 2)]
		if w.opt {
			l = int(w.m.HashSize()) // not the unpacked key
		}
		v := sym.Bytes("val", l)
		vb = newBuffer(v)
		w.tr.Update(kb.b, vb.b)
		w.r = w.r.with(k, v)
	case 2:
		w.tr.InsertKeyCommitment(kb.b)
		w.r = w.r.with(k, k)
	case 3: // the same slice as key and value
		w.tr.Update(kb.b, kb.b)
		w.r = w.r.with(k, k)
	}
	ret := []*buffer{kb}
	if vb != nil {
		ret = append(ret, vb)
	}
	if !late {
		for _, b := range ret {
			b.scribble()
		}
	}
	return ret
}

func c22World() *world {
	a := pickArity()
	if sym.Choice("opt", 2) == 1 {
		return optWorld(a, trie_blake2b.HashSize256, 0, true)
	}
	return newWorld(a, trie_blake2b.HashSize160)
}

// after checks the trie, then the persisted trie.
func (w *world) after(bs []*buffer) {
	w.tr.Commit()
	w.checkRoot(w.tr, "the caller changed its slices")
	w.content(w.tr, "the caller changed its slices")
	if w.opt {
		w.keepValues()
	}
	w.tr.PersistMutations(w.store)
	for _, b := range bs {
		b.untouched()
	}
	w.reopen()
	w.checkRoot(w.tr, "persisted: the caller changed its slices")
	w.checkNode(w.tr, nil, w.view().canon(w.a))
}

// C22_Update: updates whose slices change right after the call.
func C22_Update() {
	w := c22World()
	n := 1 + sym.Choice("n", sym.Bound(2, 3))
	var bs []*buffer
	for i := 0; i < n; i++ {
		bs = append(bs, c22Op(w, false)...)
	}
	w.after(bs)
}

// C22_Late: updates whose slices change after the commit, or after they were persisted.
func C22_Late() {
	w := c22World()
	bs := c22Op(w, true)
	if sym.Choice("two", 2) == 1 {
		bs = append(bs, c22Op(w, true)...)
	}
	w.tr.Commit()
	if sym.Choice("persist", 2) == 1 {
		if w.opt {
			w.keepValues()
		}
		w.tr.PersistMutations(w.store)
	}
	for _, b := range bs {
		b.scribble()
	}
	if sym.Choice("more", 2) == 1 {
		bs = append(bs, c22Op(w, false)...)
	}
	w.after(bs)
}

// C22_Base: updates of a persisted trie.
func C22_Base() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.base(1 + sym.Choice("nbase", sym.Bound(2, 2)))
	if sym.Choice("keep", 2) == 0 {
		w.tr.ClearCache()
	}
	bs := c22Op(w, false)
	w.after(bs)
}

// C22_Read: the keys given to reading functions, and what they return.
func C22_Read() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	n := sym.Choice("n", 3)
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("key", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		w.update(k, sym.Bytes("val", 1))
	}
	w.tr.Commit()
	if sym.Choice("reopen", 2) == 1 {
		w.tr.PersistMutations(w.store)
		w.reopen()
	}
	q := symKey("query", w.a, 0, maxKey(w.a))
	qb := newBuffer(q)
	p := w.m.Proof(qb.b, w.tr)
	qb.scribble()
	honest(p, rootBytes(w.tr), w.r.get(q), sym.Bytes("other", 1), "the caller changed the key")
	sym.Assert(eq(p.Key, digits(q, w.a)), "the proof is still about the key")
	// unpacked keys
	u := digits(q, w.a)
	ub := newBuffer(u)
	x := trie.UnpackBytes(q, w.a)
	sym.Assert(eq(x, u), "unpacking")
	_, ok := w.tr.GetNode(ub.b)
	ub.scribble()
	_, ok2 := w.tr.GetNode(clone(u))
	sym.Assert(ok == ok2, "the node is the same after the caller changed the key")
	w.checkRoot(w.tr, "read with a key that changed")
	w.content(w.tr, "read with a key that changed")
	// a slice returned by the unpacking is the caller's
	qb2 := newBuffer(q)
	y := trie.UnpackBytes(qb2.b, w.a)
	qb2.scribble()
	sym.Assert(eq(y, u), "the unpacked key does not share memory with the key")
}

// C22_Get: the trie goes on after a node was read under a key whose slice changed then.
func C22_Get() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.base(1 + sym.Choice("nbase", 2))
	if sym.Choice("keep", 2) == 0 {
		w.reopen()
	}
	if sym.Thorough() && sym.Choice("before", 2) == 1 {
		w.step()
	}
	u := []byte{}
	for i := sym.Choice("depth", 3); i > 0; i-- {
		u = append(u, [...]byte{0, 1, byte(int(w.a))}[sym.Choice("digit", 3)])
	}
	ub := newBuffer(u)
	n, ok := w.tr.GetNode(ub.b)
	if !ok {
		return
	}
	ub.scribble()
	sym.Assert(eq(n.Key(), u), "the node is still the node of its key")
	w.step()
	w.committed("a node was read under a key that changed")
	w.tr.PersistMutations(w.store)
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("a node was read under a key that changed")
}

// C22_Data: commitments to data and in-memory stores keep their own copies.
func C22_Data() {
	m := trie_blake2b.New(pickArity(), pickHash())
	hs := int(m.HashSize())
	d := sym.Bytes("data", [...]int{0, 1, hs, hs + 1}[sym.Choice("len", 4)])
	db := newBuffer(d)
	c := m.CommitToData(db.b)
	db.scribble()
	sym.Assert(m.EqualCommitments(c, m.CommitToData(clone(d))), "a commitment to data does not change with the data")
	if c != nil {
		want := m.CommitToData(clone(d))
		sym.Assert(eq(c.Bytes(), want.Bytes()), "nor its bytes")
	}
	s := trie.NewInMemoryKVStore()
	k, v := anyBytes("key", 0, 2), anyBytes("val", 1, 2)
	kb, vb := newBuffer(k), newBuffer(v)
	s.Set(kb.b, vb.b)
	kb.scribble()
	vb.scribble()
	sym.Assert(eq(s.Get(clone(k)), v), "the store keeps what was set")
	gb := newBuffer(k)
	sym.Assert(s.Has(gb.b), "the store has the key")
	s.Get(gb.b)
	gb.scribble()
	s.Set(gb.b, nil)
	gb.untouched()
	n := 0
	s.Iterate(func(k1, v1 []byte) bool {
		if eq(k1, k) {
			sym.Assert(eq(v1, v), "the store iterates over what was set")
		}
		n++
		return true
	})
	want := 1
	if len(gb.b) == len(k) && eq(gb.b, k) {
		want = 0
	}
	sym.Assert(n == want, "the store holds one pair")
}

// C22_Node: serializing and reading nodes and proofs keeps no slice of the caller.
func C22_Node() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	n := 1 + sym.Choice("n", 2)
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("key", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		w.update(k, sym.Bytes("val", 1))
	}
	w.tr.Commit()
	q := symKey("query", w.a, 0, maxKey(w.a))
	p := w.m.Proof(q, w.tr)
	enc := p.Bytes()
	want := clone(enc)
	eb := newBuffer(enc)
	p2, err := trie_blake2b.ProofFromBytes(eb.b)
	sym.Assert(err == nil, "the proof is read back")
	eb.scribble()
	sym.Assert(eq(p2.Bytes(), want), "a proof read from bytes does not change with them")
	for i := range enc {
		enc[i] ^= 0xFF
	}
	sym.Assert(eq(p.Bytes(), want), "a proof does not change with its serialized bytes")
	// commitments
	root := trie.RootCommitment(w.tr)
	rb := root.Bytes()
	want = clone(rb)
	bb := newBuffer(rb)
	c := w.m.NewVectorCommitment()
	sym.Assert(c.Read(bytes.NewReader(bb.b)) == nil, "the commitment is read back")
	bb.scribble()
	sym.Assert(eq(c.Bytes(), want), "a commitment read from bytes does not change with them")
	for i := range rb {
		rb[i] ^= 0xFF
	}
	sym.Assert(eq(root.Bytes(), want), "a commitment does not change with its serialized bytes")
	w.checkRoot(w.tr, "nor does the trie")
}

// C22_Store: a mass update, and a restored dump.
func C22_Store() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	s := &sharingStore{}
	n := 1 + sym.Choice("pairs", 2)
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("key", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		v := sym.Bytes("val", 1)
		s.k, s.v = append(s.k, k), append(s.v, v)
		w.r = w.r.with(k, v)
	}
	w.tr.UpdateAll(s)
	s.untouched()
	w.tr.Commit()
	w.checkRoot(w.tr, "mass update from a store that reuses its slices")
	w.content(w.tr, "mass update from a store that reuses its slices")
	sym.Assert(len(w.tr.Reconcile(s)) == 0, "nothing to reconcile")
	s.untouched()
	dst := trie.NewInMemoryKVStore()
	s.Iterate(func(k, v []byte) bool { dst.Set(k, v); return true })
	for i := range s.k {
		sym.Assert(eq(dst.Get(s.k[i]), s.v[i]), "the in-memory store keeps its own copies")
	}
}

// sharingStore passes the same buffers to the callback again and again, overwritten, as iterators of databases do.
type sharingStore struct {
	k, v [][]byte
	bs   []*buffer
}

func (s *sharingStore) Get(key []byte) []byte {
	for i := range s.k {
		if eq(key, s.k[i]) {
			return clone(s.v[i])
		}
	}
	return nil
}

func (s *sharingStore) Has(key []byte) bool { return s.Get(key) != nil }

func (s *sharingStore) Iterate(f func(k, v []byte) bool) {
	for i := range s.k {
		kb, vb := newBuffer(s.k[i]), newBuffer(s.v[i])
		more := f(kb.b, vb.b)
		kb.scribble()
		vb.scribble()
		s.bs = append(s.bs, kb, vb)
		if !more {
			return
		}
	}
}

func (s *sharingStore) untouched() {
	for _, b := range s.bs {
		b.untouched()
	}
}

// C22_Batch: the batched updater keeps no slice of the caller although the batches of the store do.
func C22_Batch() {
	b := newBatchWorld()
	b.kvs.keepSlices = true
	n := 1 + sym.Choice("n", 2)
	var bs []*buffer
	for i := 0; i < n; i++ {
		k := symKey("key", b.w.a, 0, maxKey(b.w.a))
		var v []byte
		if sym.Choice("kind", 2) == 1 {
			v = sym.Bytes("val", 1)
		}
		if b.w.opt && b.w.a != trie.PathArity256 {
			sym.Assume(!eq(v, digits(k, b.w.a)))
		}
		kb, vb := newBuffer(k), newBuffer(v)
		b.u.Update(kb.b, vb.b)
		kb.scribble()
		vb.scribble()
		bs = append(bs, kb, vb)
		b.w.r = b.w.r.with(k, v)
	}
	sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	for _, x := range bs {
		x.untouched()
	}
	b.stored("the caller changed its slices")
}

// C22_Adaptor: the partitions of a hive store.
func C22_Adaptor() {
	kvs := &fakeKVS{}
	prefix := newBuffer(sym.Bytes("prefix", sym.Choice("prefix.len", 3)))
	pcopy := clone(prefix.b)
	s := hive_adaptor.NewHiveKVStoreAdaptor(kvs, prefix.b)
	k, v := anyBytes("key", 0, 2), anyBytes("val", 1, 2)
	kb, vb := newBuffer(k), newBuffer(v)
	s.Set(kb.b, vb.b)
	kb.scribble()
	vb.scribble()
	prefix.untouched()
	sym.Assert(eq(s.Get(clone(k)), v), "the partition keeps what was set")
	sym.Assert(eq(kvs.keys[0], append(pcopy, k...)), "under the key with the prefix")
	gb := newBuffer(k)
	s.Has(gb.b)
	s.Get(gb.b)
	gb.untouched()
	s.Set(gb.b, nil)
	gb.untouched()
	prefix.untouched()
	sym.Assert(len(kvs.keys) == 0, "the pair is deleted")
}
