package h

import (
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

type batchWorld struct {
	kvs    *fakeKVS
	w      *world // model, arity, options and the reference; its trie is not used
	tp, vp []byte
	u      *hive_adaptor.HiveBatchedUpdater
	thr    bool // a threshold of 1
}

func newBatchWorld() *batchWorld {
	b := &batchWorld{kvs: &fakeKVS{}}
	a := pickArity()
	opt, t, o := false, 0, sym.Choice("options", 3)
	switch o {
	case 1:
		opt = true
	case 2:
		t = 1
	}
	b.w = &world{a: a, m: trie_blake2b.New(a, trie_blake2b.HashSize160, t), opt: opt}
	p := [...][2][]byte{{{1}, {2}}, {{2}, {1, 0}}, {{1, 1}, {1, 2}}}[o]
	b.tp, b.vp, b.thr = p[0], p[1], t == 1
	b.open()
	return b
}

func (b *batchWorld) open() {
	u, err := hive_adaptor.NewHiveBatchedUpdater(b.kvs, b.w.m, clone(b.tp), clone(b.vp), b.w.opt)
	sym.Assert(err == nil, "the updater is created")
	b.u = u
}

// op is one arbitrary update or deletion through the updater.
func (b *batchWorld) op() {
	k := symKey("key", b.w.a, 0, maxKey(b.w.a))
	var v []byte
	n := 2
	if b.w.opt && len(k) > 0 || b.thr {
		n = 3
	}
	switch sym.Choice("kind", n) {
	case 1:
		v = sym.Bytes("val", 1)
	case 2:
		v = k
		if b.thr {
			v = sym.Bytes("val", 2)
		}
	}
	before := b.kvs.writes
	b.u.Update(clone(k), clone(v))
	sym.Assert(b.kvs.writes == before, "an update does not write to the store")
	b.w.r = b.w.r.with(k, v)
}

// stored checks that the store holds exactly the values and the trie of the reference.
func (b *batchWorld) stored(what string) {
	tr, vals := hive_adaptor.NewHiveKVStoreAdaptor(b.kvs, b.tp), hive_adaptor.NewHiveKVStoreAdaptor(b.kvs, b.vp)
	for _, p := range b.w.r {
		sym.Assert(eq(vals.Get(p.k), p.v), what+": the value partition holds the value")
	}
	sym.Assert(trie.NumEntries(vals) == len(b.w.r), what+": the value partition holds no other values")
	rd := trie.NewTrieReader(b.w.m, tr, vals)
	c := b.w.view().canon(b.w.a)
	b.w.checkRoot(rd, what)
	b.w.checkNode(rd, nil, c)
	sym.Assert(trie.NumEntries(tr) == c.count(), what+": the trie partition holds no other nodes")
	sym.Assert(len(b.kvs.keys) == len(b.w.r)+c.count(), what+": the store holds nothing else")
}

// commit commits, perhaps after a failure of the batch or of the flush, with perhaps another update in between.
func (b *batchWorld) commit(failures, more bool, what string) {
	f := 0
	if failures {
		f = sym.Choice("failure", 3)
	}
	if f > 0 {
		before := b.kvs.snapshot()
		b.kvs.fail = map[string]int{[...]string{"", "commit", "flush"}[f]: 1}
		err := b.u.Commit()
		if b.kvs.fail["commit"]+b.kvs.fail["flush"] == 0 {
			sym.Assert(err != nil, "a failed commit is reported")
		}
		b.kvs.fail = nil
		if err != nil && f == 1 {
			sym.Assert(b.kvs.same(before), "a failed commit leaves the store unchanged")
		}
		if err != nil && more && sym.Choice("more", 2) == 1 {
			b.op()
		}
	}
	sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	b.stored(what)
}

// C17_Batch: one batch of several updates.
func C17_Batch() {
	b := newBatchWorld()
	n := 1 + sym.Choice("n", sym.Bound(2, 3))
	for i := 0; i < n; i++ {
		b.op()
	}
	b.commit(true, true, "one batch")
}

// C17_Batches: several batches, with the same updater or with a new one.
func C17_Batches() {
	b := newBatchWorld()
	b.op()
	if sym.Choice("two", 2) == 1 {
		b.op()
	}
	sym.Assert(b.u.Commit() == nil, "the first commit succeeds")
	if sym.Choice("reopen", 2) == 1 {
		b.open()
	}
	b.op()
	if sym.Thorough() {
		b.op()
	}
	b.commit(true, sym.Thorough(), "the second batch")
}

// C17_Three: three batches of one update each.
func C17_Three() {
	b := newBatchWorld()
	for i := 0; i < 3; i++ {
		b.op()
		sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	}
	b.stored("three batches")
	n := b.kvs.writes
	sym.Assert(b.u.Commit() == nil, "an empty commit succeeds")
	sym.Assert(b.kvs.writes == n, "and writes nothing")
}

// C17_Errors: other failures of the store are not hidden and change nothing.
func C17_Errors() {
	b := newBatchWorld()
	b.op()
	if sym.Choice("commit", 2) == 1 {
		sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	}
	before := b.kvs.snapshot()
	op := [...]string{"batch", "batch set", "get"}[sym.Choice("op", 3)]
	b.kvs.fail = map[string]int{op: 1}
	k, v := symKey("key", b.w.a, 0, maxKey(b.w.a)), sym.Bytes("val", 1)
	p := sym.Panics(func() { b.u.Update(k, v) })
	sym.Assert(p || b.kvs.fail[op] == 1, "a failure is not hidden")
	sym.Assert(b.kvs.same(before), "a failed update changes nothing")
}
