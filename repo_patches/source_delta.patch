From 16117d96e636a6749c0b23ffc0b1e522ff97ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 01/23] fix: pack16 must refuse nibbles out of range in odd
 positions

The second nibble of each pair was not checked: an out of range value
overwrote bits of the first one, so the encoding was that of another path.
---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..22817db 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From 5afbb41f8c68fa1104cb4107940206e75d04e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 02/23] fix: decoding a malformed path must return an error,
 not panic

decode16 and decode2 panicked on encodings with excess elements but no data
---
 trie/encode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 22817db..e5c3f38 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -55,6 +55,9 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	if data[0] == 1 && ret[len(ret)-1] != 0 {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
@@ -120,8 +123,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 768653a2b855c7ad91cf09376e5343731d7e0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 03/23] fix: proof serialization wrote children 0 and 1 twice
 with arity 256

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From c3e12a71d0d128cbb1eac689f12bfc85d9beb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 04/23] fix: node serialization must ignore terminal options if
 there is no terminal

---
 trie/nodedata.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..cc34ba2 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -129,12 +129,12 @@ func (n *NodeData) Write(w io.Writer, arity PathArity, isKeyCommitment bool, ski
 	var smallFlags byte
 	if n.Terminal != nil {
 		smallFlags |= terminalExistsFlag
-	}
-	if skipTerminal {
-		smallFlags |= takeTerminalFromValueFlag
-	}
-	if isKeyCommitment {
-		smallFlags |= takeTerminalFromKeyFlag
+		if skipTerminal {
+			smallFlags |= takeTerminalFromValueFlag
+		}
+		if isKeyCommitment {
+			smallFlags |= takeTerminalFromKeyFlag
+		}
 	}
 	if len(n.ChildCommitments) > 0 {
 		smallFlags |= serializeChildrenFlag
-- 
2.43.0


From d4721e7e91b29c827254ea5ca0764a01a438c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 05/23] fix: truncated or short reads must not be taken for
 complete data

---
 models/trie_blake2b/model.go |  9 ++-------
 models/trie_blake2b/proof.go |  4 ++--
 trie/nodedata.go             |  6 +-----
 trie/util.go                 | 39 +++++++++++++++++-------------------
 4 files changed, 23 insertions(+), 35 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..2feec20 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,13 +311,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/trie/nodedata.go b/trie/nodedata.go
index cc34ba2..4250764 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..69cc93c 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,18 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readData reads exactly 'length' bytes. End of data before that is always an unexpected one
+func readData(r io.Reader, length int) ([]byte, error) {
+	ret := make([]byte, length)
+	if _, err := io.ReadFull(r, ret); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return ret, nil
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -200,12 +212,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 	if length == 0 {
 		return []byte{}, nil
 	}
-	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
-		return nil, err
-	}
-	return ret, nil
+	return readData(r, int(length))
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
@@ -231,12 +238,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 	if length == 0 {
 		return []byte{}, nil
 	}
-	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
-		return nil, err
-	}
-	return ret, nil
+	return readData(r, int(length))
 }
 
 func WriteBytes16(w io.Writer, data []byte) error {
@@ -255,7 +257,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +285,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -305,12 +307,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 	if length == 0 {
 		return []byte{}, nil
 	}
-	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
-		return nil, err
-	}
-	return ret, nil
+	return readData(r, int(length))
 }
 
 func WriteBytes32(w io.Writer, data []byte) error {
@@ -348,7 +345,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cdf80f3ff3e7c982c1123028d3a4b291cdec52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 06/23] fix: reading a proof must refuse an unknown path arity

---
 models/trie_blake2b/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..45902aa 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,9 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	if p.PathArity != trie.PathArity256 && p.PathArity != trie.PathArity16 && p.PathArity != trie.PathArity2 {
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From 683a2d7d695eb9c99318c6c2cbb540fce23b2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 07/23] fix: restoring a truncated dump must return an error,
 not panic or miss it

---
 trie/util.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 69cc93c..3f901d6 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -151,11 +151,13 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	}
 	defer func() { _ = file.Close() }()
 
-	var k, v []byte
-	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		k, v, exit, err := readKV(file)
+		if err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +177,20 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and a flag if there are no more pairs
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
-	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+	if err == io.EOF {
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 5a2b95dfd47e5de11b3fe66e08d54b836dc0d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 08/23] fix: WriteBytes8 must refuse 256 bytes, whose length
 does not fit

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 3f901d6..e3ccdb5 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -221,7 +221,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From c9ca4dac1a0686f57b0f5436032117cb3ffcac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 09/23] fix: unpacking a key must not return the slice of the
 caller

---
 trie/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/encode.go b/trie/encode.go
index e5c3f38..2d10112 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -139,7 +139,7 @@ func decode2(data []byte) ([]byte, error) {
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append(make([]byte, 0, len(src)), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
-- 
2.43.0


From 322083541e32c87f472dc19e58916fe315d5c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 10/23] fix: the in-memory store must not keep the slice of the
 caller

---
 trie/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1097e73..cff5e5e 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -74,7 +74,7 @@ func (im inMemoryKVStore) Iterate(f func(k []byte, v []byte) bool) {
 
 func (im inMemoryKVStore) Set(k, v []byte) {
 	if len(v) != 0 {
-		im[string(k)] = v
+		im[string(k)] = append(make([]byte, 0, len(v)), v...)
 	} else {
 		delete(im, string(k))
 	}
-- 
2.43.0


From fef67977e203c4279d78ff73a425d671266f386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 11/23] fix: the node cache must not keep the key slice of the
 caller

---
 trie/nodestore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..c9f16fd 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -92,7 +92,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(Concat(unpackedKey)) // the slice belongs to the caller
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From 09904f7bcf992e78560d3654fb1eb0b459a29f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 12/23] fix: Has of the hive adaptor must not take an error for
 a missing key

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 6eb0ee9373c62bad222f2615cc0590052478e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 13/23] fix: Reconcile with an empty trie must not panic

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..aba3ab7 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) != 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From 0182c04a17c069a2e485c2baeb7bb693302545ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 14/23] fix: Reconcile must compare with key commitments the
 way Update makes them

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index aba3ab7..b417f85 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -158,12 +158,7 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 
 // Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
 func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
-	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
-	}
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -199,6 +194,14 @@ func (tr *Trie) Update(key []byte, value []byte) {
 	tr.markModifiedCommitmentsBackToRoot(proof)
 }
 
+// commitToValue is the terminal commitment to the key/value pair
+func (tr *Trie) commitToValue(key []byte, value []byte) TCommitment {
+	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
+	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
 // InsertKeyCommitment inserts unpackedKey/value pair with equal unpackedKey and value.
 // Key must not be empty.
 // It leads to optimized serialization of trie nodes because terminal commitment is
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From adcd2df665a71580e1255ca9060c043c4f924b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 15/23] fix: a key commitment in the root node must be stored
 with the node

---
 trie/node.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..1424fe1 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,12 +144,16 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
+	if optimizeKeyCommitments {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
 		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
+		if isKeyCommitment && len(n.unpackedKey) == 0 {
+			// the root node has no key to take the terminal from, and it does not commit to the (packed) value
+			isKeyCommitment, skipStoreTerminal = false, false
+		}
 	}
 	var buf bytes.Buffer
-	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
 	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
 	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
 	return buf.Bytes()
-- 
2.43.0


From fe61adb0f0d9d753e834c11033ae8a99f81ac7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 16/23] fix: proof validation must check that the proof path is
 the path of the key

---
 .../trie_blake2b_verify/verify.go             | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..68bce96 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,7 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
@@ -110,6 +110,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
@@ -117,6 +120,12 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
 	// it is the last in the path
+	if len(elem.Terminal) > int(p.HashSize) {
+		return nil, fmt.Errorf("wrong proof: terminal too long. Path position: %d, key position %d", pathIdx, keyIdx)
+	}
+	if err := checkEnding(p, elem, tail, isPrefix); err != nil {
+		return nil, fmt.Errorf("%w. Path position: %d, key position %d", err, pathIdx, keyIdx)
+	}
 	if p.PathArity.IsChildIndex(elem.ChildIndex) {
 		c := elem.Children[byte(elem.ChildIndex)]
 		if c != nil {
@@ -131,6 +140,31 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
+// checkEnding checks if the last element is the place in the trie which decides about the key. 'tail' is the part of the key
+// from the element on
+func checkEnding(p *trie_blake2b.Proof, elem *trie_blake2b.ProofElement, tail []byte, isPrefix bool) error {
+	rest := len(tail) - len(elem.PathFragment)
+	switch {
+	case elem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
+		if !isPrefix || rest != 0 {
+			return errors.New("wrong proof: the key does not end at the terminal")
+		}
+	case p.PathArity.IsChildIndex(elem.ChildIndex):
+		if !isPrefix || rest == 0 || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return errors.New("wrong proof: the missing child is not on the path of the key")
+		}
+	case isPrefix && rest == 0:
+		if len(elem.Terminal) > 0 {
+			return errors.New("wrong proof: unexpected terminal commitment in the proof of absence")
+		}
+	case isPrefix:
+		if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
+			return errors.New("wrong proof: unexpected child commitment in the proof of absence")
+		}
+	}
+	return nil
+}
+
 func makeHashVector(e *trie_blake2b.ProofElement, missingCommitment []byte, arity trie.PathArity, sz trie_blake2b.HashSize) [][]byte {
 	hashes := make([][]byte, arity.VectorLength())
 	for idx, c := range e.Children {
-- 
2.43.0


From 2f440e22802b370d5d7b28e9148b930b98e21d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 17/23] fix: the batched updater must not keep the value slice
 of the caller

---
 hive_adaptor/hiveadaptor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 99a6bfb..090d10f 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -127,7 +127,8 @@ func newBatchWriter(b kvstore.BatchedMutations, prefix []byte) batchWriter {
 func (b batchWriter) Set(key, value []byte) {
 	var err error
 	if len(value) > 0 {
-		err = b.batch.Set(makeKey(b.prefix, key), value)
+		// the batch may keep the value until it is committed
+		err = b.batch.Set(makeKey(b.prefix, key), trie.Concat(value))
 	} else {
 		err = b.batch.Delete(makeKey(b.prefix, key))
 	}
-- 
2.43.0


From e1225fc6245aebd8c32353a634563fb293576edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 18/23] fix: no KZG proof of inclusion for a key which ends on
 a node without terminal

ProofOfInclusion panicked on the nil terminal commitment instead of reporting that the key is absent.
---
 models/trie_kzg_bn256/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..612513b 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -88,6 +88,11 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 	}
 
+	if nodes[proofLength-1].Terminal == nil {
+		// the path of the key ends with a node which has children only: the key is not present in the state
+		return nil, false
+	}
+
 	for i, n := range nodes {
 		ret.Path[i].C = m.calcNodeCommitment(n).Point
 		//if i == 0 || i == proofLength-1 {
-- 
2.43.0


From a22f7b6ef1fc13326a5400da8f356d172e37042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 19/23] fix: KZG proof validation must refuse wrong vector
 indices

The terminal is proven by the last element of the path and by no other. An index of a child in the last element and an
index outside of the vector made Validate panic.
---
 models/trie_kzg_bn256/proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 612513b..6efc11f 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -138,7 +138,11 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
-		if p.Path[i].VectorIndex < 256 {
+		last := i == len(p.Path)-1
+		if last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			return xerrors.New(fmt.Sprintf("wrong vector index at path position %d", i))
+		}
+		if !last {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
 			val = p.Terminal
-- 
2.43.0


From ecf06f3f4fea72c622300f6ba03a8d94e9726e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 20/23] fix: reading the degree of a trusted setup must not
 accept a short read

---
 models/trie_kzg_bn256/trusted.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e6de659bf1e5fda016128f5cde798cec853fda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 21/23] fix: a trusted setup over the natural domain must be
 readable

read() refused omega == 0, which stands for the natural domain, as not being a root of unity.
---
 models/trie_kzg_bn256/trusted.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..0df62a8 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -133,6 +133,9 @@ func TrustedSetupFromBytes(suite *bn256.Suite, data []byte) (*TrustedSetup, erro
 	for i := range ret.AprimeDomainI {
 		ret.aprime(i, ret.AprimeDomainI[i])
 	}
+	if len(ret.Domain) > 0 && ret.Omega.Equal(ret.ZeroG1) {
+		ret.precalculate()
+	}
 	return ret, nil
 }
 
@@ -284,7 +287,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means the natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From 7f0a206bbed9594c7c750715289a663544b7656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 22/23] fix: incremental update of a KZG commitment

The deletion of a child was not applied to the commitment, a child which was inserted and deleted before the commit made
it panic, and the previous terminal and node commitments were changed in place although others refer to them.
---
 models/trie_kzg_bn256/model.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..bdcef00 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -164,21 +164,21 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 	for i, childUpd := range childUpdates {
 		if calcDelta {
 			delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
-			prevC, existsPrevC := mutate.ChildCommitments[i]
+			prevC := mutate.ChildCommitments[i]
 			if childUpd == nil {
-				// deleting child
-				trie.Assert(prevC != nil, "prevC != nil")
-				trie.Assert(existsPrevC, "par.ChildCommitments[i] != nil")
-				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
-				delta.Neg(delta)
+				// deleting child. It was never committed if it was inserted and deleted in between
+				if prevC != nil {
+					delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
+					delta.Neg(delta)
+				}
 			} else {
 				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), childUpd.(*vectorCommitment).Point)
 				if prevC != nil {
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From 1728dbf3a6a8a59e7c1cea0f5f3458a789093550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 23/23] fix: ToString must not panic for a node without
 terminal

---
 trie/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/node.go b/trie/node.go
index 1424fe1..cfb3d42 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -164,10 +164,14 @@ func childKey(n Node, childIndex byte) []byte {
 }
 
 func ToString(n Node) string {
+	term := "<nil>"
+	if t := n.Terminal(); t != nil {
+		term = t.String()
+	}
 	return fmt.Sprintf("nodeData(key: '%s', pathFragment: '%s', term: '%s', numChildren: %d",
 		hex.EncodeToString(n.Key()),
 		hex.EncodeToString(n.PathFragment()),
-		n.Terminal().String(),
+		term,
 		len(n.ChildCommitments()),
 	)
 }
-- 
2.43.0

