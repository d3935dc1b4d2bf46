package hk

import (
	"bytes"

	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

type pair struct{ k, v []byte }

// world is a trie over the KZG model and what it should hold.
type world struct {
	m     *kzg.CommitmentModel
	store trie.KVStore
	tr    *trie.Trie
	ref   []pair
}

func newWorld() *world {
	w := &world{m: kzg.Model, store: trie.NewInMemoryKVStore()}
	w.tr = trie.New(w.m, w.store, nil)
	return w
}

// anyKey is a key of up to n bytes 0 or 1.
func anyKey(name string, n int) []byte {
	k := sym.Bytes(name, sym.Choice(name+".len", n+1))
	for i := range k {
		sym.Assume(k[i] <= 1)
	}
	return k
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func (w *world) get(k []byte) ([]byte, bool) {
	for _, p := range w.ref {
		if eq(p.k, k) {
			return p.v, true
		}
	}
	return nil, false
}

func (w *world) del(k []byte) {
	w.tr.Delete(append([]byte{}, k...))
	for i, p := range w.ref {
		if eq(p.k, k) {
			w.ref = append(append([]pair{}, w.ref[:i]...), w.ref[i+1:]...)
			return
		}
	}
}

func (w *world) set(k, v []byte) {
	w.tr.Update(append([]byte{}, k...), append([]byte{}, v...))
	for i, p := range w.ref {
		if eq(p.k, k) {
			w.ref[i].v = v
			return
		}
	}
	w.ref = append(w.ref, pair{k, v})
}

// op is an arbitrary update or deletion.
func (w *world) op(name string, n int) {
	k := anyKey(name, n)
	if sym.Choice(name+".del", 2) == 1 {
		w.del(k)
	} else {
		w.set(k, sym.Bytes(name+".v", 1))
	}
}

// value is an arbitrary byte, or (concrete base) one that depends on i.
func value(name string, i int) []byte {
	if concreteBase {
		return []byte{byte(7 + i%2)}
	}
	return sym.Bytes(name, 1)
}

var concreteBase bool

// fill is up to n pairs, committed.
func (w *world) fill(name string, n, kl int) {
	for i, c := 0, sym.Choice(name+".n", n+1); i < c; i++ {
		w.set(anyKey(name, kl), value(name+".v", i))
	}
	w.tr.Commit()
}

func (w *world) root() trie.VCommitment { return trie.RootCommitment(w.tr) }

// checkKey: a proof of inclusion is produced exactly if the key is there.
func (w *world) checkKey(k []byte, ns trie.NodeStore) {
	v, present := w.get(k)
	p, ok := w.m.ProofOfInclusion(k, ns)
	sym.Assert(ok == present && ok == (p != nil), "a proof of inclusion is produced exactly for a present key")
	if !present {
		return
	}
	sym.Cover("present")
	sym.Assert(eq(p.Key, k), "the proof has the key")
	root := w.root()
	sym.Assert(p.Validate(root) == nil, "the proof is valid")
	sym.Assert(p.Validate(root, v) == nil, "the proof is valid with the value")
	o := sym.Bytes("other", sym.Choice("other.len", 3))
	sym.Assume(!eq(o, v))
	sym.Assert(p.Validate(root, o) != nil, "the proof is not valid with another value")
	q, err := kzg.ProofOfInclusionFromBytes(p.Bytes())
	sym.Assert(err == nil && eq(q.Bytes(), p.Bytes()), "the proof can be read back")
	sym.Assert(q.Validate(root, v) == nil && q.Validate(root, o) != nil, "the proof read back says the same")
}

// C20_Keys: every key, present or not, of every trie.
func C20_Keys() {
	w := newWorld()
	w.fill("base", sym.Bound(2, 3), 2)
	w.checkKey(anyKey("q", 2), w.tr)
}

// C20_Stored: from the trie read back from the store.
func C20_Stored() {
	w := newWorld()
	w.fill("base", 2, sym.Bound(1, 2))
	w.tr.PersistMutations(w.store)
	q := anyKey("q", 2)
	switch sym.Choice("reader", 3) {
	case 0:
		w.checkKey(q, trie.NewTrieReader(w.m, w.store, nil))
	case 1:
		w.tr.ClearCache()
		w.checkKey(q, w.tr)
	default:
		w.tr = trie.New(w.m, w.store, nil)
		w.checkKey(q, w.tr)
	}
}

// C20_History: after updates and deletions with commits and persists in between; the root is that of the same content
// from scratch.
func C20_History() {
	concreteBase = !sym.Thorough()
	w := newWorld()
	w.fill("base", 2, 1)
	if sym.Choice("persist", 2) == 1 {
		w.tr.PersistMutations(w.store)
		w.tr.ClearCache()
	}
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		w.op("op", 2)
		if i+1 < n && sym.Choice("commit", 2) == 1 {
			w.tr.Commit()
		}
	}
	w.tr.Commit()
	s := newWorld()
	for _, p := range w.ref {
		s.set(p.k, p.v)
	}
	s.tr.Commit()
	sym.Assert(w.m.EqualCommitments(w.root(), s.root()), "the root is a function of the content")
	w.checkKey(anyKey("q", 2), w.tr)
}

// holds: some key of the trie has the value.
func (w *world) holds(v []byte) bool {
	r := false
	for _, p := range w.ref {
		r = r || eq(p.v, v)
	}
	return r
}

// accepted: what an accepted proof claims.
func (w *world) accepted(p *kzg.ProofOfInclusion, v []byte) {
	if p.Validate(w.root(), v) != nil {
		return
	}
	sym.Cover("accepted")
	sym.Assert(w.holds(v), "an accepted proof is of a value of the trie")
	x, ok := w.get(p.Key)
	sym.Finding("C20-key-not-bound", !ok || !eq(x, v))
}

func anyIndex() uint16 {
	if sym.Thorough() {
		return sym.Uint16("index")
	}
	return [...]uint16{0, 1, 2, 255, 256, 257, 258, 65535}[sym.Choice("index", 8)]
}

// C20_Malformed: a proof of one key with parts replaced by parts of the proof of another one.
func C20_Malformed() {
	w := newWorld()
	w.set([]byte{1}, []byte{1})
	w.set([]byte{1, 0}, []byte{2})
	w.set([]byte{1, 1, 1}, []byte{3, 3})
	w.tr.Commit()
	keys := [][]byte{{1}, {1, 0}, {1, 1, 1}}
	p, _ := w.m.ProofOfInclusion(keys[sym.Choice("p", 3)], w.tr)
	change := sym.Choice("change", 9)
	q := p
	if change != 0 && change != 4 && change != 5 {
		q, _ = w.m.ProofOfInclusion(keys[sym.Choice("q", 3)], w.tr)
	}
	i, j := 0, 0
	if change != 7 {
		i = sym.Choice("i", len(p.Path))
	}
	if change != 0 && change != 4 && change != 5 && change != 7 {
		j = sym.Choice("j", len(q.Path))
	}
	switch change {
	case 0:
		p.Path[i].VectorIndex = anyIndex()
	case 1:
		p.Path[i].C = q.Path[j].C
	case 2:
		p.Path[i].Proof = q.Path[j].Proof
	case 3:
		p.Path[i] = q.Path[j]
	case 4:
		p.Path = p.Path[:i]
	case 5:
		p.Path = p.Path[i:]
	case 6:
		p.Path = append(p.Path, q.Path[j:]...)
	case 7:
		p.Terminal = q.Terminal
	case 8:
		p.Path = append(append([]*kzg.ProofElement{}, p.Path[:i]...), q.Path[j:]...)
	}
	sym.Assert(p.Validate(nil) != nil, "nothing is proven about an absent root")
	p.Validate(w.root())
	w.accepted(p, sym.Bytes("v", 1+sym.Choice("v.len", 2)))
}

// C20_Key: the key of a proof is replaced.
func C20_Key() {
	w := newWorld()
	w.fill("base", 2, 1)
	k := anyKey("k", 1)
	p, ok := w.m.ProofOfInclusion(k, w.tr)
	if !ok {
		return
	}
	p.Key = anyKey("other", 2)
	w.accepted(p, sym.Bytes("v", 1))
}

// C20_Cut: a proof cut or extended is refused.
func C20_Cut() {
	w := newWorld()
	w.set([]byte{0, 1}, sym.Bytes("v", 1))
	w.tr.Commit()
	p, _ := w.m.ProofOfInclusion([]byte{0, 1}, w.tr)
	b := p.Bytes()
	if sym.Choice("extend", 2) == 1 {
		_, err := kzg.ProofOfInclusionFromBytes(append(b, sym.Byte("x")))
		sym.Assert(err != nil, "an extended proof is refused")
		return
	}
	// whole range natively smaller or bigger: cut relative to both ends
	n := sym.Choice("cut", 40)
	if sym.Choice("end", 2) == 1 {
		n = len(b) - 1 - n
	}
	_, err := kzg.ProofOfInclusionFromBytes(b[:n])
	sym.Assert(err != nil, "a proof cut short is refused")
}

// C20_Bytes: arbitrary bytes are refused or are a proof that validates without panic.
func C20_Bytes() {
	sym.MaxAlloc(sym.Bound(40, 80))
	n := []int{0, 1, 2, 3, 35, 36, 37, 70}[sym.Choice("len", 8)]
	p, err := kzg.ProofOfInclusionFromBytes(sym.Bytes("b", n))
	if err == nil {
		p.Validate(w0())
		sym.Assert(p.Validate(nil) != nil, "nothing is proven about an absent root")
	}
}

func w0() trie.VCommitment {
	w := newWorld()
	w.set([]byte{1}, []byte{7})
	w.tr.Commit()
	return w.root()
}
