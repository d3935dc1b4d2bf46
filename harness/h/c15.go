package h

import (
	"bytes"
	"errors"
	"io"
	"os"

	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// chunkReader delivers data in chunks of arbitrary sizes, as a reader may; the end of the data comes with the last chunk or after it.
type chunkReader struct {
	data  []byte
	calls int
	free  int // the number of calls whose size is arbitrary
	early bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > 1 && r.calls < r.free {
		r.calls++
		if n <= 8 {
			n = 1 + sym.Choice("chunk", n)
		} else {
			n = [...]int{1, 2, 7, n / 2, n - 1, n}[sym.Choice("chunk", 6)]
		}
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.early && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func symPairs(lo, hi, kl, vl int) []kv {
	r := make([]kv, lo+sym.Choice("pairs", hi-lo+1))
	for i := range r {
		r[i] = kv{anyBytes("k", 0, kl), anyBytes("v", 0, vl)}
	}
	return r
}

// collect reads the stream up to the limit of pairs.
func collect(it trie.KVStreamIterator, limit int) ([]kv, error) {
	var r []kv
	err := it.Iterate(func(k, v []byte) bool {
		r = append(r, kv{clone(k), clone(v)})
		return len(r) != limit
	})
	return r, err
}

func samePairs(a, b []kv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i].k, b[i].k) || !eq(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

// stream writes the pairs and checks the counts.
func stream(pairs []kv) ([]byte, []int) {
	var buf bytes.Buffer
	w := trie.NewBinaryStreamWriter(&buf)
	bounds := []int{0}
	for _, p := range pairs {
		sym.Assert(w.Write(p.k, p.v) == nil, "a pair is written")
		bounds = append(bounds, buf.Len())
	}
	n, b := w.Stats()
	sym.Assert(n == len(pairs), "the writer counts the pairs")
	sym.Assert(b == buf.Len(), "the writer counts the bytes")
	return buf.Bytes(), bounds
}

// C15_Stream: what is written is read back, whatever the chunks.
func C15_Stream() {
	pairs := symPairs(0, sym.Bound(3, 4), 2, 2)
	data, _ := stream(pairs)
	r := &chunkReader{data: data, free: sym.Bound(4, 8), early: sym.Choice("early", 2) == 1}
	limit := sym.Choice("limit", len(pairs)+1)
	got, err := collect(trie.NewBinaryStreamIterator(r), limit)
	sym.Assert(err == nil, "a complete stream is read without error")
	if limit > 0 {
		sym.Assert(samePairs(got, pairs[:limit]), "iteration stops where it is told to")
	} else {
		sym.Assert(samePairs(got, pairs), "the same pairs are read in the same order")
	}
}

// cutAt is any cut of the data; the bounds are the ends of the records.
func cutAt(data []byte, bounds []int) (int, int) {
	c := sym.Choice("cut", len(data)+1)
	for i, b := range bounds {
		if b == c {
			return c, i
		}
	}
	return c, -1
}

// C15_Cut: a cut stream is refused unless the cut is at the end of a record.
func C15_Cut() {
	pairs := symPairs(1, sym.Bound(2, 3), 2, 2)
	data, bounds := stream(pairs)
	c, full := cutAt(data, bounds)
	r := &chunkReader{data: data[:c], free: sym.Bound(2, 4), early: sym.Choice("early", 2) == 1}
	got, err := collect(trie.NewBinaryStreamIterator(r), 0)
	if full >= 0 {
		sym.Assert(err == nil && samePairs(got, pairs[:full]), "a stream of fewer records is read as such")
		return
	}
	sym.Assert(err != nil, "a cut within a record is reported")
	sym.Assert(len(got) < len(pairs) && samePairs(got, pairs[:len(got)]), "what precedes the cut is read as written")
}

// C15_Any: arbitrary bytes are either refused or exactly the pairs delivered.
func C15_Any() {
	sym.MaxAlloc(16)
	data := anyBytes("data", 0, sym.Bound(15, 20))
	got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(data)), 0)
	again, _ := stream(got)
	if err == nil {
		sym.Assert(eq(again, data), "what is read without an error is what was written")
	} else {
		sym.Assert(len(again) <= len(data) && eq(again, data[:len(again)]), "what is read before the error is what was written")
		sym.Assert(len(again) < len(data), "complete data are read without an error")
	}
}

// C15_Lengths: keys and values of sizes around the limits of the length fields.
func C15_Lengths() {
	kl := [...]int{0, 1, 255, 256, 257, 65534, 65535}[sym.Choice("kl", 7)]
	vl := [...]int{0, 1, 255, 256, 65535, 65536, 65537, 70000}[sym.Choice("vl", 8)]
	k, v := make([]byte, kl), make([]byte, vl)
	if kl > 0 {
		k[0], k[kl-1] = sym.Byte("k0"), sym.Byte("k1")
	}
	if vl > 0 {
		v[0], v[vl-1] = sym.Byte("v0"), sym.Byte("v1")
	}
	pairs := []kv{{k, v}, {anyBytes("k", 0, 1), anyBytes("v", 0, 1)}}
	data, bounds := stream(pairs)
	sym.Assert(bounds[1] == kl+vl+6, "six bytes of lengths per record")
	got, err := collect(trie.NewBinaryStreamIterator(bytes.NewReader(data)), 0)
	sym.Assert(err == nil && samePairs(got, pairs), "the same pairs are read")
	at := [...]int{1, 2, kl + 1, kl + 2, kl + 5, kl + 6, kl + vl + 5}[sym.Choice("cut", 7)]
	if at > 0 && at < kl+vl+6 {
		_, err = collect(trie.NewBinaryStreamIterator(bytes.NewReader(data[:at])), 0)
		sym.Assert(err != nil, "a cut within the record is reported")
	}
}

type failingWriter struct {
	n int
	b bytes.Buffer
}

var errWrite = errors.New("write failed")

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.n == 0 {
		return 0, errWrite
	}
	w.n--
	return w.b.Write(p)
}

// C15_WriteError: an error of the underlying writer is returned, and the pair is not counted.
func C15_WriteError() {
	pairs := symPairs(1, 2, 1, 1)
	w := &failingWriter{n: sym.Choice("ok", 9)}
	sw := trie.NewBinaryStreamWriter(w)
	n := 0
	for _, p := range pairs {
		before := w.n
		err := sw.Write(p.k, p.v)
		if err != nil {
			break
		}
		sym.Assert(before > 0, "an error of the writer is not lost")
		n++
	}
	cnt, _ := sw.Stats()
	sym.Assert(cnt == n, "only written pairs are counted")
	whole, bounds := stream(pairs)
	sym.Assert(w.b.Len() >= bounds[n] && eq(w.b.Bytes(), whole[:w.b.Len()]), "the pairs without error are written completely")
}

const streamFile = "stream.bin"

// C15_File: streams in files.
func C15_File() {
	if sym.Choice("old", 2) == 1 { // an older, longer file is replaced
		sym.Assert(os.WriteFile(streamFile, make([]byte, 100), 0o644) == nil, "scratch file")
	} else {
		os.Remove(streamFile)
	}
	pairs := symPairs(0, 2, 2, 2)
	w, err := trie.CreateKVStreamFile(streamFile)
	sym.Assert(err == nil, "the file is created")
	for _, p := range pairs {
		sym.Assert(w.Write(p.k, p.v) == nil, "a pair is written")
	}
	n, b := w.Stats()
	sym.Assert(w.Close() == nil, "the file is closed")
	data, err := os.ReadFile(streamFile)
	sym.Assert(err == nil, "the file can be read")
	sym.Assert(n == len(pairs) && b == len(data), "the counts are those of the file")
	want, bounds := stream(pairs)
	sym.Assert(eq(data, want), "the file holds the stream")
	c, full := cutAt(data, bounds)
	if c < len(data) {
		sym.Assert(os.WriteFile(streamFile, data[:c], 0o644) == nil, "scratch file")
	}
	r, err := trie.OpenKVStreamFile(streamFile)
	sym.Assert(err == nil, "the file is opened")
	got, err := collect(r, 0)
	if full >= 0 {
		sym.Assert(err == nil && samePairs(got, pairs[:full]), "the pairs of the file are read")
	} else {
		sym.Assert(err != nil, "a cut file is refused")
	}
	sym.Assert(r.Close() == nil, "the file is closed")
}

const dumpFile = "dump.bin"

// C15_Dump: dumping and restoring a store.
func C15_Dump() {
	if sym.Choice("old", 2) == 1 {
		sym.Assert(os.WriteFile(dumpFile, make([]byte, 100), 0o644) == nil, "scratch file")
	} else {
		os.Remove(dumpFile)
	}
	s := trie.NewInMemoryKVStore()
	var r ref
	n := sym.Choice("n", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		k := anyBytes("k", 0, 2)
		v := anyBytes("v", 1, 2)
		sym.Assume(r.find(k) < 0)
		s.Set(k, v)
		r = r.with(k, v)
	}
	sym.MapOrder(-1)
	total, err := trie.DumpToFile(s, dumpFile)
	sym.MapOrder(0)
	sym.Assert(err == nil, "the store is dumped")
	data, err := os.ReadFile(dumpFile)
	sym.Assert(err == nil && len(data) == total, "the number of bytes is that of the file")
	sym.Assert(trie.ByteSize(s) == total, "and the computed size of the store")
	sym.Assert(trie.NumEntries(s) == len(r), "the number of entries")
	c := sym.Choice("cut", len(data)+1)
	if c < len(data) {
		sym.Assert(os.WriteFile(dumpFile, data[:c], 0o644) == nil, "scratch file")
	}
	back := trie.NewInMemoryKVStore()
	m, err := trie.UnDumpFromFile(back, dumpFile)
	if err == nil {
		sym.Assert(m == c, "the number of bytes is that of what was restored")
	}
	if c == len(data) {
		sym.Assert(err == nil && m == total, "the dump is restored")
		sym.Assert(sameStores(s, back), "the restored store is the dumped one")
		return
	}
	// the dump is the same pairs as a stream
	got, serr := collect(trie.NewBinaryStreamIterator(bytes.NewReader(data[:c])), 0)
	sym.Assert((serr == nil) == (err == nil), "a cut dump is refused unless the cut is at the end of a record")
	for _, p := range got {
		sym.Assert(eq(back.Get(p.k), p.v) && eq(r.get(p.k), p.v), "restored pairs are pairs of the store")
	}
}

// C15_Fields: the length-prefixed fields and integers.
func C15_Fields() {
	var buf bytes.Buffer
	l := [...]int{0, 1, 2, 254, 255, 256, 257, 511, 512, 65535, 65536}[sym.Choice("len", 11)]
	d := make([]byte, l)
	for _, i := range []int{0, l - 1} {
		if i >= 0 && i < l {
			d[i] = sym.Byte("d")
		}
	}
	var err error
	var rd func(io.Reader) ([]byte, error)
	switch sym.Choice("kind", 3) {
	case 0:
		rd = trie.ReadBytes8
		if l > 255 {
			sym.Assert(sym.Panics(func() { err = trie.WriteBytes8(&buf, d) }) || err != nil, "data too long for the length byte are refused")
			return
		}
		err = trie.WriteBytes8(&buf, d)
	case 1:
		rd = trie.ReadBytes16
		if l > 65535 {
			sym.Assert(sym.Panics(func() { err = trie.WriteBytes16(&buf, d) }) || err != nil, "data too long for the length field are refused")
			return
		}
		err = trie.WriteBytes16(&buf, d)
	default:
		rd = trie.ReadBytes32
		err = trie.WriteBytes32(&buf, d)
	}
	sym.Assert(err == nil, "the field is written")
	buf.WriteByte(sym.Byte("next"))
	all := buf.Bytes()
	r := &chunkReader{data: clone(all), free: 3, early: sym.Choice("early", 2) == 1}
	got, err := rd(r)
	sym.Assert(err == nil && eq(got, d), "the field is read back")
	sym.Assert(len(r.data) == 1, "nothing else is consumed")
	cut := [...]int{0, 1, 2, 3, 4, len(all) / 2, len(all) - 2}[sym.Choice("cut", 7)]
	if cut >= 0 && cut < len(all)-1 {
		_, err = rd(&chunkReader{data: clone(all[:cut]), free: 1})
		sym.Assert(err != nil, "a cut field is refused")
	}
}

// C15_Integers: integers in bytes.
func C15_Integers() {
	x, y := sym.Uint16("x"), sym.Uint32("y")
	var buf bytes.Buffer
	sym.Assert(trie.WriteUint16(&buf, x) == nil && trie.WriteUint32(&buf, y) == nil && trie.WriteByte(&buf, byte(x)) == nil, "integers are written")
	all := buf.Bytes()
	sym.Assert(len(all) == 7, "two, four and one bytes")
	sym.Assert(eq(trie.Uint16To2Bytes(x), all[:2]) && eq(trie.Uint32To4Bytes(y), all[2:6]), "the same bytes by conversion")
	var a uint16
	var b uint32
	r := &chunkReader{data: all, free: 6, early: true}
	sym.Assert(trie.ReadUint16(r, &a) == nil && a == x, "16 bits are read back")
	sym.Assert(trie.ReadUint32(r, &b) == nil && b == y, "32 bits are read back")
	c, err := trie.ReadByte(r)
	sym.Assert(err == nil && c == byte(x), "a byte is read back")
	_, err = trie.ReadByte(r)
	sym.Assert(err != nil, "the end is reported")
	a2, err := trie.Uint16From2Bytes(all[:2])
	sym.Assert(err == nil && a2 == x, "16 bits from bytes")
	b2, err := trie.Uint32From4Bytes(all[2:6])
	sym.Assert(err == nil && b2 == y && trie.MustUint32From4Bytes(all[2:6]) == y, "32 bits from bytes")
	n := sym.Choice("n", 7)
	_, err = trie.Uint16From2Bytes(all[:n])
	sym.Assert((err == nil) == (n == 2), "other lengths are refused")
	_, err = trie.Uint32From4Bytes(all[:n])
	sym.Assert((err == nil) == (n == 4), "other lengths are refused")
	sym.Assert(trie.ReadUint32(bytes.NewReader(all[:n]), &b) == nil || n < 4, "32 bits of fewer bytes")
	sym.Assert(trie.ReadUint32(bytes.NewReader(all[:n]), &b) != nil || n >= 4, "32 bits of fewer bytes")
	sym.Assert(trie.ReadUint16(bytes.NewReader(all[:n]), &a) != nil || n >= 2, "16 bits of fewer bytes")
}
