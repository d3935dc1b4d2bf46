package h

import (
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// Tries with many pairs and deep ones: whatever depends on how many nodes, children, mutations or levels there are.

func manyKey(i int) []byte { return []byte{byte(i % 5), byte(i / 5), byte(i % 3)}[:2+i%2] }

func deepKey(i int) []byte {
	k := make([]byte, i)
	for j := range k {
		k[j] = 9
	}
	return k
}

// many is an uncommitted trie with many pairs, and keys operations are about.
func many(hs trie_blake2b.HashSize) (w *world, key func(string) []byte) {
	w = newWorld(pickArity(), hs)
	return w, w.many()
}

// many puts many pairs into the trie.
func (w *world) many() (key func(string) []byte) {
	key = w.manyPairs(sym.Bound(300, 700), sym.Bound(70, 300))
	for _, p := range w.r {
		w.tr.Update(clone(p.k), clone(p.v))
	}
	return
}

// manyPairs makes many pairs: n not so deep, a chain of d, or a wide node.
func (w *world) manyPairs(n, d int) (key func(string) []byte) {
	shape := sym.Choice("shape", 3)
	if shape == 2 { // all children there can be, and the terminal
		for i := 0; i < 256 && i < n; i++ {
			w.r = append(w.r, kv{[]byte{byte(255 - i), 7}, []byte{byte(i), 2}})
		}
		w.r = append(w.r, kv{[]byte{}, []byte{1}})
		return func(name string) []byte { return [...][]byte{{}, {255, 7}, {128}, {200, 8}}[sym.Choice(name, 4)] }
	}
	if shape == 1 {
		n = 0
		if w.a == trie.PathArity2 {
			d /= 3
		}
	} else {
		d = 0
	}
	lens := [...]int{1, 21, 33, 64, 2}
	for i := 0; i < n; i++ {
		v := make([]byte, lens[i%len(lens)])
		v[0], v[len(v)-1] = byte(i), byte(1+i/256)
		w.r = append(w.r, kv{manyKey(i), v})
	}
	for i := 0; i < d; i++ {
		w.r = append(w.r, kv{deepKey(i), []byte{byte(i), 1}})
	}
	if d > 0 {
		return func(name string) []byte { return deepKey([...]int{0, 1, d / 2, d - 1, d, d + 3}[sym.Choice(name, 6)]) }
	}
	return func(name string) []byte {
		i := sym.Choice(name, 4)
		if i == 3 {
			return []byte{3, 7, 200}
		}
		return manyKey([...]int{0, n / 2, n - 1}[i])
	}
}

// manyStep: many pairs, committed or persisted in between, and an operation.
func manyStep(hs trie_blake2b.HashSize) *world {
	w, key := many(hs)
	switch sym.Choice("between", 3) {
	case 1:
		w.tr.Commit()
	case 2:
		w.persist()
		w.reopen()
	}
	switch sym.Choice("op", 3) {
	case 0:
		w.remove(key("k"))
	case 1:
		w.update(key("k"), sym.Bytes("val", 1))
	case 2: // all but a few
		var r ref
		for i, p := range w.r {
			if i%50 == 0 {
				r = append(r, p)
			} else {
				w.tr.Delete(clone(p.k))
			}
		}
		w.r = r
		w.update([]byte{1}, sym.Bytes("val", 1))
	}
	w.tr.Commit()
	return w
}

// C04_Many: the content of tries with many pairs.
func C04_Many() {
	w := manyStep(trie_blake2b.HashSize160)
	w.content(w.tr, "after commit")
}

// C05_Many: the root of tries with many pairs.
func C05_Many() {
	w := manyStep(trie_blake2b.HashSize256)
	w.checkRoot(w.tr, "after commit")
}

// C06_Many: the nodes of tries with many pairs.
func C06_Many() {
	w := manyStep(trie_blake2b.HashSize160)
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

// C07_Many: the store of tries with many pairs.
func C07_Many() {
	w := manyStep(trie_blake2b.HashSize256)
	w.tr.PersistMutations(w.store)
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("after persist")
}

// C09_Many: proofs from tries with many pairs.
func C09_Many() {
	w, key := many(trie_blake2b.HashSize160)
	w.tr.Commit()
	w.proofs(w.tr, key("k"), sym.Bytes("other", 1), "trie")
}

// C12_Many: a clone of many changes, and dropping them.
func C12_Many() {
	w, key := many(trie_blake2b.HashSize256)
	var saved ref
	switch sym.Choice("between", 3) {
	case 1:
		w.tr.Commit()
	case 2:
		w.persist()
		saved = w.r
		w.r = append(ref{}, w.r...)
	}
	c := w.clone()
	c.update(key("k"), sym.Bytes("val", 1))
	c.committed("the clone")
	if sym.Choice("drop", 2) == 0 {
		w.committed("the original")
		return
	}
	w.tr.ClearCache()
	w.r = saved
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

// C13_Many: many pairs with the optimizations and without.
func C13_Many() {
	a := pickArity()
	t := [...]int{0, 1, 40}[sym.Choice("t", 3)]
	w1, w2 := newWorld(a, trie_blake2b.HashSize160), optWorld(a, trie_blake2b.HashSize160, t, t == 0)
	key := w2.many()
	for _, p := range w2.r {
		w1.update(p.k, p.v)
	}
	if sym.Choice("persist", 2) == 1 {
		w2.keepValues()
		w2.persist()
		w2.reopen()
	}
	k, v := key("k"), sym.Bytes("val", 1)
	w1.update(k, v)
	w2.update(k, v)
	w1.tr.Commit()
	w2.keepValues()
	w2.persist()
	w2.storeIs("persisted")
	rd := trie.NewTrieReader(w2.m, w2.store, w2.vals)
	w2.checkRoot(rd, "read back")
	if t > 0 {
		// key commitments change the root of pairs whose value is the key
		same(w1, w2, w1.tr, rd, k, "read back")
	}
}

// C14_Many: mass update and reconciliation of many pairs.
func C14_Many() {
	w, key := many(trie_blake2b.HashSize160)
	s := trie.NewInMemoryKVStore()
	for _, p := range w.r {
		s.Set(p.k, p.v)
	}
	if sym.Choice("how", 2) == 0 {
		w.tr = trie.New(w.m, w.store, nil)
		w.tr.UpdateAll(s)
		w.tr.Commit()
		w.checkRoot(w.tr, "mass update")
	}
	if sym.Choice("persist", 2) == 1 {
		w.persist()
		w.reopen()
	}
	if sym.Choice("other", 2) == 1 {
		tr := trie.New(w.m, trie.NewInMemoryKVStore(), nil)
		tr.Update([]byte{0, 0}, sym.Bytes("val", 1))
		tr.Commit()
		got := tr.Reconcile(s)
		n := len(w.r)
		if v := w.r.get([]byte{0, 0}); v != nil && tr.Model().EqualCommitments(lookup(tr, digits([]byte{0, 0}, w.a)), w.m.CommitToData(v)) {
			n--
		}
		sym.Assert(len(got) == n, "all keys are reported")
		for i := range got {
			sym.Assert(s.Has(got[i]), "only keys of the store are reported")
		}
		return
	}
	k, v := key("k"), sym.Bytes("val", 1)
	s.Set(k, v)
	got := w.tr.Reconcile(s)
	if eq(w.r.get(k), v) {
		sym.Assert(len(got) == 0, "nothing to reconcile")
	} else {
		sym.Assert(len(got) == 1 && eq(got[0], k), "the key with the other value is reported, and no other")
	}
}

// C15_Many: dumps and streams of many pairs.
func C15_Many() {
	w := newWorld(trie.PathArity256, trie_blake2b.HashSize160)
	w.many()
	s := trie.NewInMemoryKVStore()
	x := sym.Bytes("val", 1)
	s.Set([]byte{7, 7, 7, 7}, x)
	for _, p := range w.r {
		s.Set(p.k, p.v)
	}
	total, err := trie.DumpToFile(s, dumpFile)
	sym.Assert(err == nil, "the store is dumped")
	sym.Assert(trie.ByteSize(s) == total && trie.NumEntries(s) == len(w.r)+1, "its size")
	back := trie.NewInMemoryKVStore()
	n, err := trie.UnDumpFromFile(back, dumpFile)
	sym.Assert(err == nil && n == total, "the dump is restored")
	sym.Assert(sameStores(s, back), "the restored store is the dumped one")
	it, err := trie.OpenKVStreamFile(dumpFile)
	sym.Assert(err == nil, "the dump is opened as a stream")
	got, err := collect(it, 0)
	it.Close()
	sym.Assert(err == nil && len(got) == len(w.r)+1, "the dump is read as a stream")
	data, _ := stream(got)
	got, err = collect(trie.NewBinaryStreamIterator(&chunkReader{data: data, free: 0, early: true}), 0)
	sym.Assert(err == nil && len(got) == len(w.r)+1, "the stream is read")
	for _, p := range got {
		sym.Assert(eq(s.Get(p.k), p.v), "the pair read is the one written")
	}
}

// C16_Many: stores with many pairs.
func C16_Many() {
	var s, other trie.KVStore
	kvs := &fakeKVS{}
	if sym.Choice("store", 2) == 0 {
		s, other = trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
	} else {
		s, other = hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{1}), hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{2})
	}
	n := sym.Bound(150, 300)
	var r ref
	for i := 0; i < n; i++ {
		k, v := manyKey(i), []byte{byte(i), 1}
		s.Set(k, v)
		other.Set(k, []byte{3})
		r = append(r, kv{k, v})
	}
	k := manyKey([...]int{0, n / 2, n - 1, n}[sym.Choice("k", 4)])
	var v []byte
	if sym.Choice("op", 2) == 1 {
		v = sym.Bytes("val", 1)
	}
	s.Set(k, v)
	r = r.with(k, v)
	m := 0
	s.Iterate(func(k, v []byte) bool {
		m++
		sym.Assert(eq(r.get(k), v) && len(v) > 0, "iteration visits current pairs")
		return true
	})
	sym.Assert(m == len(r) && trie.NumEntries(s) == m, "iteration visits all pairs")
	for _, p := range r {
		sym.Assert(eq(s.Get(p.k), p.v) && s.Has(p.k), "get returns the last value")
	}
	sym.Assert((v == nil) == (s.Get(k) == nil) && s.Has(k) == (v != nil), "nil exactly for missing keys")
	sym.Assert(trie.NumEntries(other) == n, "the other store is left alone")
}

// C17_Many: batches of many updates.
func C17_Many() {
	b := newBatchWorld()
	key := b.w.manyPairs(sym.Bound(100, 300), sym.Bound(30, 70))
	for _, p := range b.w.r {
		b.u.Update(clone(p.k), clone(p.v))
	}
	if sym.Choice("persist", 2) == 1 {
		sym.Assert(b.u.Commit() == nil, "the commit succeeds")
		b.open()
	}
	k := key("k")
	var v []byte
	if sym.Choice("op", 2) == 1 {
		v = sym.Bytes("val", 1)
	}
	b.u.Update(clone(k), clone(v))
	b.w.r = b.w.r.with(k, v)
	b.kvs.fail = map[string]int{"commit": 1}
	before := b.kvs.snapshot()
	sym.Assert(b.u.Commit() != nil, "a failed commit is reported")
	sym.Assert(b.kvs.same(before), "a failed commit leaves the store unchanged")
	sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	b.stored("many")
}

// C25_Many: descriptions of many nodes.
func C25_Many() {
	w, key := many(trie_blake2b.HashSize160)
	w.describe(key("k"))
	w.committed("commit after inspection")
}

// C16_Long: keys, values and prefixes of other lengths.
func C16_Long() {
	lens := [...]int{0, 1, 31, 32, 33, 64, 255, 256, 1000}
	mk := func(n int, x byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		if n > 0 {
			b[n-1] = x
		}
		return b
	}
	var s trie.KVStore
	if c := sym.Choice("store", 5); c == 0 {
		s = trie.NewInMemoryKVStore()
	} else {
		s = hive_adaptor.NewHiveKVStoreAdaptor(&fakeKVS{backward: c%2 == 0}, mk([...]int{0, 1, 32, 300}[c-1], 0xff))
	}
	var r ref
	n := lens[sym.Choice("len", len(lens))]
	x := sym.Byte("x")
	for _, k := range [][]byte{mk(n, x), mk(n, 3), mk(n+1, 3)} {
		v := sym.Bytes("v", [...]int{1, 33, 300}[len(r)%3])
		s.Set(clone(k), clone(v))
		r = r.with(k, v)
	}
	k := mk(n, sym.Byte("y"))
	var v []byte
	if sym.Choice("op", 2) == 1 {
		v = sym.Bytes("v", 64)
	}
	s.Set(clone(k), clone(v))
	r = r.with(k, v)
	isMap(s, r, mk(n, sym.Byte("z")), "long keys")
}

// C22_Long: long keys and values in slices that change.
func C22_Long() {
	w := c22World()
	n := [...]int{31, 64, 300}[sym.Choice("len", 3)]
	if w.a == trie.PathArity2 {
		n /= 8
	}
	mk := func(n int, last byte) []byte {
		k := make([]byte, n)
		for i := range k {
			k[i] = byte(i)
		}
		k[n-1] = last
		return k
	}
	late := sym.Choice("late", 2) == 1
	var bs []*buffer
	put := func(k, v []byte) {
		kb, vb := newBuffer(k), newBuffer(v)
		w.tr.Update(kb.b, vb.b)
		w.r = w.r.with(k, v)
		bs = append(bs, kb, vb)
		if !late {
			kb.scribble()
			vb.scribble()
		}
	}
	x := sym.Bytes("val", [...]int{1, 20, 33, 100}[sym.Choice("vl", 4)])
	x[0] = 1
	put(mk(n, 1), x)
	put(mk(n/2, 2), sym.Bytes("val", 21))
	switch sym.Choice("then", 3) {
	case 1:
		w.tr.Commit()
	case 2:
		w.tr.Commit()
		if w.opt {
			w.keepValues()
		}
		w.tr.PersistMutations(w.store)
		w.reopen()
	}
	if late {
		for _, b := range bs {
			b.scribble()
		}
		late = false
		bs = nil
		if sym.Choice("again", 2) == 1 {
			w.after(bs)
			return
		}
	}
	k := mk(n, 1)
	switch sym.Choice("op", 3) {
	case 0:
		kb := newBuffer(k)
		w.tr.Delete(kb.b)
		kb.scribble()
		w.r = w.r.with(k, nil)
	case 1:
		put(mk(n+1, 9), sym.Bytes("val", 40))
	case 2:
		put(k[:n/3], sym.Bytes("val", 2))
	}
	w.after(bs)
}

// C23_Shapes: readers, proofs and their validation on tries of other shapes.
func C23_Shapes() {
	w, k := shaped(trie_blake2b.HashSize160)
	rd := trie.NewTrieReader(w.m, w.store, w.vals)
	u := digits(k, w.a)
	p := w.m.Proof(k, rd)
	sym.Pure("reading and proving writes to no shared memory", func() {
		trie.RootCommitment(rd)
		terminals(rd, nil)
		if n, ok := rd.GetNode(u); ok {
			n.Key()
		}
		w.m.Proof(k, rd)
	}, w, rd, k, u)
	root := rootBytes(rd)
	v := sym.Bytes("other", 1)
	sym.Pure("validating and serializing writes to no shared memory", func() {
		trie_blake2b_verify.Validate(p, root)
		trie_blake2b_verify.ValidateWithValue(p, root, v)
		trie_blake2b_verify.IsProofOfAbsence(p)
		p.Bytes()
	}, w, rd, p, root, v)
}

// C10_Deep: honest proofs of many elements, one of which is changed, left out or put elsewhere.
func C10_Deep() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	d := sym.Bound(12, 40)
	if w.a == trie.PathArity2 {
		d /= 2
	}
	for i := 0; i <= d; i++ {
		w.update(deepKey(i), []byte{byte(i), 1})
		if i%3 == 1 {
			w.update(append(deepKey(i), 8), []byte{byte(i), 2})
		}
	}
	w.tr.Commit()
	keys := [][]byte{deepKey(d), append(deepKey(d-1), 7), append(deepKey(d), 0x80), deepKey(d / 2)}
	p := w.m.Proof(keys[sym.Choice("key", len(keys))], w.tr)
	if sym.Choice("about", 2) == 1 {
		p.Key = digits(keys[sym.Choice("other", len(keys))], w.a)
	}
	n := len(p.Path)
	l := [...]int{0, 1, n / 2, n - 2, n - 1}[sym.Choice("at", 5)]
	e := p.Path[l]
	switch sym.Choice("change", 9) {
	case 0:
		e.Terminal = sym.Bytes("t", sym.Choice("t.len", 3))
	case 1:
		e.PathFragment = append(clone(e.PathFragment), sym.Byte("x"))
	case 2:
		if len(e.PathFragment) > 0 {
			e.PathFragment[len(e.PathFragment)-1] = sym.Byte("x")
		}
	case 3:
		e.Children[byte(sym.Choice("child", 2)*int(w.a))] = sym.Bytes("c", 20)
	case 4:
		e.Children = map[byte][]byte{}
	case 5:
		x := sym.Uint16("ci")
		sym.Assume(x < 1000)
		e.ChildIndex = int(x)
	case 6:
		p.Path = p.Path[:l]
	case 7:
		p.Path = append(append([]*trie_blake2b.ProofElement{}, p.Path[:l]...), p.Path[l+1:]...)
	case 8:
		m := [...]int{0, n / 2, n - 1}[sym.Choice("with", 3)]
		p.Path[l] = p.Path[m]
		p.Path[m] = e
	}
	if trie_blake2b_verify.Validate(p, rootBytes(w.tr)) != nil {
		return
	}
	sym.Cover("accepted")
	w.claims(p)
}
