package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// ---- the reference: a plain list of key/value pairs ----

type kv struct{ k, v []byte }

type ref []kv

func (r ref) find(k []byte) int {
	for i := range r {
		if eq(r[i].k, k) {
			return i
		}
	}
	return -1
}

func (r ref) with(k, v []byte) ref {
	i := r.find(k)
	ret := append(ref{}, r...)
	if len(v) == 0 {
		if i >= 0 {
			ret = append(ret[:i], ret[i+1:]...)
		}
		return ret
	}
	if i >= 0 {
		ret[i] = kv{clone(k), clone(v)}
		return ret
	}
	return append(ret, kv{clone(k), clone(v)})
}

func (r ref) get(k []byte) []byte {
	if i := r.find(k); i >= 0 {
		return r[i].v
	}
	return nil
}

// ---- the canonical trie of a key set ----

type refNode struct {
	key  []byte // unpacked
	pf   []byte
	term []byte // value, nil if none
	ch   map[byte]*refNode
	c    trie.VCommitment // once computed
}

type item struct {
	path []byte // rest of the unpacked key
	val  []byte
}

// digits is the reference for the unpacking of keys.
func digits(key []byte, a trie.PathArity) []byte {
	var r []byte
	for _, b := range key {
		switch a {
		case trie.PathArity256:
			r = append(r, b)
		case trie.PathArity16:
			r = append(r, b/16, b%16)
		default:
			for i := 7; i >= 0; i-- {
				r = append(r, (b>>uint(i))%2)
			}
		}
	}
	return r
}

// canon is the canonical trie of the items below key; nil for no items.
func canon(key []byte, items []item) *refNode {
	if len(items) == 0 {
		return nil
	}
	p := items[0].path
	n := len(p)
	for _, it := range items[1:] {
		i := 0
		for i < n && i < len(it.path) && p[i] == it.path[i] {
			i++
		}
		n = i
	}
	ret := &refNode{key: clone(key), pf: clone(p[:n]), ch: map[byte]*refNode{}}
	var idx []byte
	var groups [][]item
	for _, it := range items {
		if len(it.path) == n {
			ret.term = it.val
			continue
		}
		c := it.path[n]
		found := false
		for j := range idx {
			if idx[j] == c {
				groups[j] = append(groups[j], item{it.path[n+1:], it.val})
				found = true
				break
			}
		}
		if !found {
			idx = append(idx, c)
			groups = append(groups, []item{{it.path[n+1:], it.val}})
		}
	}
	for j := range idx {
		ck := append(append(clone(key), p[:n]...), idx[j])
		ret.ch[idx[j]] = canon(ck, groups[j])
	}
	return ret
}

func (r ref) canon(a trie.PathArity) *refNode {
	items := make([]item, len(r))
	for i := range r {
		items[i] = item{digits(r[i].k, a), r[i].v}
	}
	return canon(nil, items)
}

// data is the node data of the canonical node, computed bottom-up with the model.
func (n *refNode) data(m trie.CommitmentModel) *trie.NodeData {
	d := trie.NewNodeData()
	d.PathFragment = n.pf
	if n.term != nil {
		d.Terminal = m.CommitToData(n.term)
	}
	for c, x := range n.ch {
		d.ChildCommitments[c] = x.commitment(m)
	}
	return d
}

func (n *refNode) commitment(m trie.CommitmentModel) trie.VCommitment {
	if n == nil {
		return nil
	}
	if n.c == nil {
		n.c = m.CalcNodeCommitment(n.data(m))
	}
	return n.c
}

func (n *refNode) count() int {
	if n == nil {
		return 0
	}
	r := 1
	for _, c := range n.ch {
		r += c.count()
	}
	return r
}

// ---- symbolic keys and values ----

// symKey is an arbitrary key of at most n bytes over the alphabet of the arity.
func symKey(name string, a trie.PathArity, lo, hi int) []byte {
	k := anyBytes(name, lo, hi)
	for _, b := range k {
		switch a {
		case trie.PathArity256:
			sym.Assume(b == 0 || b == 1)
		case trie.PathArity16:
			sym.Assume(b == 0 || b == 1 || b == 0x10)
		default:
			sym.Assume(b == 0 || b == 1 || b == 0x80)
		}
	}
	return k
}

func maxKey(a trie.PathArity) int {
	switch a {
	case trie.PathArity256:
		return sym.Bound(2, 3)
	case trie.PathArity16:
		return sym.Bound(1, 2)
	}
	return sym.Bound(1, 2)
}

func less(a, b []byte) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// ---- a trie with its stores and the reference ----

type world struct {
	a     trie.PathArity
	m     *trie_blake2b.CommitmentModel
	store trie.KVStore
	vals  trie.KVStore
	tr    *trie.Trie
	opt   bool
	r     ref
}

func newWorld(a trie.PathArity, hs trie_blake2b.HashSize) *world {
	w := &world{a: a, m: trie_blake2b.New(a, hs), store: trie.NewInMemoryKVStore()}
	w.tr = trie.New(w.m, w.store, nil)
	return w
}

func (w *world) update(k, v []byte) {
	w.tr.Update(clone(k), clone(v))
	w.r = w.r.with(k, v)
}

func (w *world) remove(k []byte) {
	w.tr.Delete(clone(k))
	w.r = w.r.with(k, nil)
}

// base puts n arbitrary pairs into the trie and persists them. Keys are in increasing order: the resulting persisted
// state does not depend on the order (C05 has a harness for that).
func (w *world) base(n int) {
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("base", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		w.update(k, sym.Bytes("baseval", 1))
	}
	if n > 0 {
		w.tr.Commit()
		w.tr.PersistMutations(w.store)
	}
}

// step is one arbitrary update or deletion.
func (w *world) step() {
	k := symKey("key", w.a, 0, maxKey(w.a))
	if sym.Choice("op", 2) == 0 {
		w.remove(k)
	} else {
		w.update(k, sym.Bytes("val", 1))
	}
}

// persist commits and persists.
func (w *world) persist() {
	w.tr.Commit()
	w.tr.PersistMutations(w.store)
}

// history is a persisted state of up to nb pairs (cache kept or dropped), followed by ns operations, with commits, persists and
// cache clears between them. The end is not committed.
func (w *world) history(nb, ns int) {
	n := sym.Choice("nbase", nb+1)
	w.base(n)
	if n > 0 && sym.Choice("keep", 2) == 0 {
		w.tr.ClearCache()
	}
	for i := 0; i < ns; i++ {
		w.step()
		if i < ns-1 {
			switch sym.Choice("between", 4) {
			case 1:
				w.tr.Commit()
			case 2:
				w.persist()
			case 3:
				w.persist()
				w.reopen()
			}
		}
	}
}

func (w *world) reopen() { w.tr = trie.New(w.m, w.store, w.vals, w.opt) }

// lookup walks the trie as a user of NodeStore does.
func lookup(tr trie.NodeStore, unpacked []byte) trie.TCommitment {
	var key []byte
	for {
		n, ok := tr.GetNode(key)
		if !ok {
			return nil
		}
		pf := n.PathFragment()
		rest := unpacked[len(key):]
		if len(pf) > len(rest) || !eq(pf, rest[:len(pf)]) {
			return nil
		}
		if len(pf) == len(rest) {
			return n.Terminal()
		}
		key = append(append(clone(key), pf...), rest[len(pf)])
	}
}

// view is the reference as the trie commits to it: with key commitments a value equal to its key is replaced by the unpacked key.
func (w *world) view() ref {
	if !w.opt {
		return w.r
	}
	var ret ref
	for _, p := range w.r {
		if eq(p.k, p.v) {
			p.v = digits(p.k, w.a)
		}
		ret = append(ret, p)
	}
	return ret
}

// content checks that the committed trie holds exactly the pairs of the reference.
func (w *world) content(tr trie.NodeStore, what string) {
	for _, p := range w.view() {
		c := lookup(tr, digits(p.k, w.a))
		sym.Assert(c != nil, what+": the trie commits to a key of the map")
		sym.Assert(w.m.EqualCommitments(c, w.m.CommitToData(p.v)), what+": the trie commits to the value last written")
	}
	sym.Assert(terminals(tr, nil) == len(w.r), what+": the trie commits to no other keys")
}

// terminals counts the terminal commitments of the committed trie.
func terminals(tr trie.NodeStore, key []byte) int {
	n, ok := tr.GetNode(key)
	if !ok {
		return 0
	}
	r := 0
	if n.Terminal() != nil {
		r++
	}
	pf := n.PathFragment()
	for c := range n.ChildCommitments() {
		r += terminals(tr, append(append(clone(key), pf...), c))
	}
	return r
}

// checkNode checks the committed node against the canonical node, and the subtree below.
func (w *world) checkNode(tr trie.NodeStore, key []byte, c *refNode) {
	n, ok := tr.GetNode(key)
	if c == nil {
		sym.Assert(!ok, "there is no node where the canonical trie has none")
		return
	}
	sym.Assert(ok, "the node of the canonical trie exists")
	sym.Assert(eq(n.PathFragment(), c.pf), "the path fragment is the canonical one")
	if c.term == nil {
		sym.Assert(n.Terminal() == nil, "no terminal where the canonical node has none")
	} else {
		sym.Assert(n.Terminal() != nil, "the terminal of the canonical node exists")
		sym.Assert(w.m.EqualCommitments(n.Terminal(), w.m.CommitToData(c.term)), "the terminal commits to the value")
	}
	cc := n.ChildCommitments()
	sym.Assert(len(cc) == len(c.ch), "the node has exactly the canonical children")
	for i, x := range c.ch {
		got, ok := cc[i]
		sym.Assert(ok && got != nil, "the canonical child is committed to")
		ck := append(append(clone(key), c.pf...), i)
		w.checkNode(tr, ck, x)
		sym.Assert(w.m.EqualCommitments(got, x.commitment(w.m)), "the child commitment is the commitment of the child node")
	}
}

func (w *world) checkRoot(tr trie.NodeStore, what string) {
	root := trie.RootCommitment(tr)
	if len(w.r) == 0 {
		sym.Assert(root == nil, what+": an empty set has no root commitment")
		return
	}
	sym.Assert(root != nil, what+": a non-empty set has a root commitment")
	sym.Assert(w.m.EqualCommitments(root, w.view().canon(w.a).commitment(w.m)), what+": the root commitment is that of the key/value set")
}

// storeIs checks that the store holds exactly the nodes of the canonical trie.
func (w *world) storeIs(what string) {
	n := 0
	w.store.Iterate(func(k, v []byte) bool {
		n++
		return true
	})
	c := w.r.canon(w.a)
	sym.Assert(n == c.count(), what+": the store holds exactly as many nodes as the trie has")
}
