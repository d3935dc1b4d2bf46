add("C02","The KZG model: arbitrary bytes of 0..66 (98) as node, terminal and vector commitment, every cut of the first and last 70 bytes and extension of a node. Byte strings of 0..6 (thorough 10) bytes as paths under every arity byte; of 0..8 (12) bytes as nodes with value stores absent, empty or answering, plus nodes with any child flags, fragment, terminal and 0..2 (3) children; of 0..12 (16) bytes as proofs, plus proofs of 1..2 elements with valid framing and arbitrary content (13 indices around every limit, terminals of 0..255 bytes, children in and out of range), under any arity and hash size byte, validated against an arbitrary root and value; every cut and one-byte extension of serialized nodes (fragment 0..2, 0..2 children, terminals of 3 sizes) and proofs (0..2 elements).","longer inputs; length fields which exceed the data are represented by one value above the data length each (the decoder's allocation is then at most 64 KiB).",q=150,pkg="h,hk")
add("C03","KZG nodes with fragments of 0..255 (300) bytes, any subset of 3 children, terminals in node, key and value store. all arities and hash sizes; path fragments of 0..3 arbitrary elements and of 31..300 (thorough for all arities), 0..3 children with arbitrary commitments at the ends of the range and one child at any index; values of 1,2,19,20,21,31,32,33,64,100 bytes; thresholds 0,1,20,33,1000; terminal in the node, in the key (1..40 elements) or in the value store; nodes that commit to nothing.","other combinations of more children with long fragments.",pkg="h,hk")
add("C11","all arities and hash sizes; keys of 0..3 elements; one element with up to 2 (thorough 3) children at the ends of the range and 4 kinds of terminals, up to 2 (3) elements with one child, one child at any index, any element index; proofs generated for any key of a trie of 0..2 pairs.","longer proofs, terminals of other lengths; the length fields as such are covered by C15.")
ALPHA="alphabet and key lengths: "+STATE
add("C08","all arities and hash sizes; pairs of tries of up to 2 pairs each (thorough 2 and 3), keys as stated, values of 1 and 2 bytes and around the hash size; pairs of single pairs with keys of up to 4 arbitrary bytes; a trie before and after one arbitrary update. "+STATE,"larger sets; digests that end in a zero byte (a 1/256 event per hash that the encoding excludes so that the listed padding finding stays identifiable).",q=120)
add("C09",STATE+" Proofs for every such key after a history (base 0..1, thorough 2; 1..2 operations), from a reader on a persisted trie of 0..3 pairs, with values of 1, hs-1, hs, hs+1 and 2*hs+3 bytes and another such value, and proofs kept while the trie goes on.","larger tries, longer keys.",q=200)
add("C10",STATE+" Adversarial proofs of 1..3 elements with arbitrary key, fragments (0..2 elements), children (arbitrary subset of indices 0, 1 and the maximum, lengths around the hash size), terminals, and any child index, against the root of any trie of 0..2 pairs.","longer proofs, more children; the hash is ideal and digests are assumed not to end in a zero byte; proofs whose claim relies on the two listed format findings.",q=300)
add("C12",STATE+" A history, a clone, and up to 2 operations on either side with commits, persists and clears; clearing the cache after uncommitted or committed but unpersisted work on a base of 0..2 pairs; six reading operations in committed and uncommitted states; double commits.","longer histories.",q=280)
add("C13",STATE+" Thresholds 0 and 1 (and 2) with values of length 0, 1, threshold, threshold+1, the key itself and the unpacked key; single updates, updates of persisted tries, keys of 32..40 bytes, proofs from original, reopened trie and reader. The value store is current when a node is read.","values stored before the trie is updated with them (the order is not documented), larger sets.",q=280)
add("C14",STATE+" An arbitrary trie of 0..2 pairs (buffered, committed, or read back; with or without key commitments and threshold 1) against a store of 0..1 pairs, a trie of 0..1 pairs against 2 (thorough 3), and after a history; mass updates in every iteration order of up to 2 (3) pairs, on empty and other tries.","larger stores.",q=150)
add("C15","up to 3 (thorough 4) pairs with keys and values of 0..2 arbitrary bytes; arbitrary chunking of the first 4 (8) reads, then whole reads; every cut; arbitrary bytes of 0..15 (20); keys of 0..65535 and values of 0..70000 bytes around the limits of the length fields; a writer that fails after 0..8 writes; files and dumps of up to 3 (4) pairs with every cut; length-prefixed fields of 0..65536 bytes.","more pairs; other errors of files than missing ones (the file system is modelled in memory).",assume=[],q=200)
add("C16","sequences of 3 (hive: 2; thorough 4 and 3) arbitrary operations with keys of 0..2 and values of 0..2 arbitrary bytes, prefixes of 0..2 arbitrary bytes, both iteration orders, stopping anywhere; every failing operation of the underlying store, which is a model of the hive.go interface.","longer sequences.",assume=[],q=240)
add("C17",STATE+" 1..2 (thorough 3) updates or deletions in a batch, two batches with failures of the batch commit or the flush and repetition (with another update in between), three single batches, reopening of the updater; failures of other operations of the store. The store is a model of the hive.go interface whose batch applies atomically.","longer batches; real databases.",q=340)
add("C18","blake2b models of both hash sizes, commitments made from data (1,2,hs-1,hs,hs+1 bytes), read from bytes, vector commitments, untyped and typed nil; data of 9 lengths around the hash size and the 64-byte field; node updates of any subset of 2 children and the terminal with calcDelta and any old commitment; clone independence; pairs of node data with equal commitments. The KZG model over ideal groups: equality, nils, data, round trips, clones, pairs of nodes, updates of any subset of 2..3 children and the terminal with every mode of the update.","the KZG model's arithmetic (C19..C21; here ideal groups as there); other lengths. A node that commits to nothing after the update is outside the incremental law (the trie never keeps one).",q=150,pkg="h,hk")
add("C22",STATE+" 1..2 (thorough 3) updates, deletions and key-commitment insertions from buffers with spare capacity that are overwritten with an arbitrary byte right after the call, after the commit or after the persist, on empty and persisted tries; queries, proofs, commitments, in-memory stores, mass updates, the hive adaptor and the batched updater (whose batch keeps the slices given to it).","longer sequences; slices returned by the library.",q=340)
add("C23",STATE+" Readers on tries of 0..2 (thorough 3) pairs in in-memory stores, with key commitments and value store, and in partitions of a hive store; every node, root, generated proof (also read back) for every such key, validated with any root and value; models, commitments and node data. Natively every found path runs concurrently under the race detector.","the buffered trie (not meant for concurrent use); writes inside the hash library; larger tries.",q=200,race=True)
