#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

T='trie/trie.go';ND='trie/nodedata.go';NS='trie/nodestore.go';EN='trie/encode.go';UT='trie/util.go';KV='trie/kv.go';PR='trie/proof.go';NO='trie/node.go'
BM='models/trie_blake2b/model.go';BP='models/trie_blake2b/proof.go';BV='models/trie_blake2b/trie_blake2b_verify/verify.go'
HV='hive_adaptor/hiveadaptor.go'
KM='models/trie_kzg_bn256/model.go';KP='models/trie_kzg_bn256/proof.go';KT='models/trie_kzg_bn256/trusted.go';KU='models/trie_kzg_bn256/util.go'

p('C01','Key path encoding is lossless, unambiguous and canonical',
 'For every arity, unpacking a key and packing it back yields the key, encoding an unpacked path and decoding it yields the path, two different paths never have the same encoding, and every byte string that decodes to a non-empty path is the encoding of exactly that path. Encoding a path which contains an element outside the range of the arity is refused with an error instead of producing the encoding of some other path.',
 ['inputs','configurations'],'every key and every unpacked path (valid or not), every byte string presented for decoding, arities 2, 16, 256',
 'encode_test.go round-trips one 5-byte key and three of its prefixes; ambiguity and canonicity are statements about all pairs of paths and all byte strings.',
 [EN],[('UnpackBytes/EncodeUnpackedBytes/PackUnpackedBytes/DecodeToUnpackedBytes',EN),('padding counter and zero-padding check','trie/encode.go decode16/decode2')],
 ['trie.UnpackBytes','trie.EncodeUnpackedBytes','trie.PackUnpackedBytes','trie.DecodeToUnpackedBytes'])
p('C02','Untrusted bytes never crash a decoder or a verifier',
 'Decoding arbitrary bytes as a key path, a trie node or a proof either fails with an error or returns a value, and validating any proof obtained from bytes returns a verdict; none of these ever panics. A strict prefix of a valid serialized node or proof, and such a serialization with bytes appended, are always refused with an error.',
 ['inputs','configurations'],'every byte string (and every truncation or extension of a valid serialization), every arity, both hash sizes',
 'tests only feed the decoders their own output; malformed input is an unbounded space in which the failing strings are isolated points.',
 [EN,ND,UT,BP,BV,BM],[('DecodeToUnpackedBytes',EN),('NodeDataFromBytes',ND),('ProofFromBytes, Proof.Read, ProofElement.Read',BP),('Validate/verify',BV),('ReadBytes8/16/32, ReadUint16/32',UT)],
 ['trie.DecodeToUnpackedBytes','trie.NodeDataFromBytes','trie_blake2b.ProofFromBytes','trie_blake2b_verify.Validate'])
p('C03','Node serialization round-trips for every node content',
 'Every node that commits to something (any path fragment, any subset of children, any terminal, any combination of the storage options) serializes, and deserializing the bytes under the same key gives a node with the same path fragment, the same children at the same indices with the same commitments, an equal terminal and an equal node commitment. A node that commits to nothing is refused by the serializer.',
 ['inputs','configurations'],'all path fragments, child index sets, child commitments, terminal values up to the bounds; arities 2, 16, 256; hash sizes 160/256; stored, key-derived and value-store-derived terminals',
 'node_test.go tries two nodes per configuration with children at the first and last index only.',
 [ND,NO,BM],[('NodeData.Write/Read, smallFlags, cflags',ND),('bufferedNode.Bytes',NO),('terminalCommitment.Write/Read','models/trie_blake2b/model.go')],
 ['trie.NodeData.Write','trie.NodeDataFromBytes'])
p('C04','After any history the trie holds exactly the resulting key/value map',
 'After any sequence of updates, deletions (including update with an empty value), commits, persists, cache clears after persisting, and reopenings, the trie commits to a key exactly if the sequence leaves that key set, and then with the value last written. No operation of such a sequence panics.',
 ['histories','inputs','configurations'],'all sequences of operations on all keys (including the empty key and keys that are prefixes of each other) and values, commit/persist/clear/reopen at any point, every arity',
 'the tests replay random or hand-picked sequences, mostly with a single commit at the end; interplay of several deletions and re-insertions inside one uncommitted batch, on top of persisted nodes, is combinatorial.',
 [T,NS,NO,PR],[('Update/splitNode/newTerminalNode',T),('Delete/checkReorg/mergeNode/hasCommitment',T),('nodeStoreBuffered cache and deletion marks',NS),('proofPath',PR)],
 ['trie.Trie.GetNode','model.Proof','trie_blake2b_verify.MustKeyWithTerminal'],
 [('nodeCache','buffered nodes',NS),('deleted','keys of removed persisted nodes',NS),('newTerminal/modifiedChildren/pathChanged','uncommitted part of a node',NO)])
p('C05','The root commitment depends only on the current key/value set',
 'Two tries that hold the same key/value set after a commit have equal root commitments, whatever the order of operations, intermediate values, deletions, placement of commits, persists, cache clears and reopenings that led there. An empty set has no root commitment.',
 ['histories','inputs','configurations'],'all pairs of histories leading to the same set; all keys and values; map iteration order; every arity and hash size',
 'determinism tests compare a handful of orders of the same random data; equality is a statement over all pairs of histories.',
 [T,NO,NS,BM],[('commitNode, modifiedChildren, pathChanged',T),('UpdateNodeCommitment',BM),('mergeNode/splitNode keep the canonical shape',T)],
 ['trie.RootCommitment'])
p('C06','A committed trie is a canonical and consistent Merkle tree',
 'After a commit, every child commitment held by a node equals the commitment computed from the data of the node found under the corresponding child key, every child node that exists is committed to by its parent, and no node other than the root of an empty trie is redundant: a node without terminal has at least two children.',
 ['histories','inputs','configurations'],'all histories of updates, deletions and commits; all keys; every arity; map iteration order',
 'tests only compare roots of two runs of the same code; a stale child commitment or a redundant node shows up only for specific sequences and is invisible when both runs share it.',
 [T,NO,NS],[('commitNode',T),('markModifiedCommitmentsBackToRoot',T),('checkReorg/mergeNode',T)],
 ['trie.Trie.GetNode','CommitmentModel.CalcNodeCommitment'])
p('C07','Persisting makes the store an exact image of the committed trie',
 'After commit and persist, a fresh trie or a read-only reader opened on the store sees the same root, the same nodes and the same values as the original, and the store contains exactly the nodes of that trie: nothing missing and no node left over from earlier states. The reported number of mutations equals the number of writes made, and continuing to work on the reopened trie gives the same results as continuing on the original.',
 ['histories','inputs','configurations'],'all histories of batches with persists between, all keys, every arity; cached and cleared continuation',
 'tests check roots of reloaded tries for random data; left-over or missing node records for particular split/merge/re-insert patterns are not observed by a root comparison.',
 [NS,T,NO,ND],[('persistMutations/removeKey/unDelete',NS),('nodeStore.getNode',NS),('TrieReader',T)],
 ['KVWriter.Set calls','trie.NewTrieReader','trie.RootCommitment'])
p('C08','Different key/value sets have different root commitments',
 'Under an ideal (collision-free) hash, two tries with equal root commitments hold the same keys with the same values.',
 ['inputs','configurations'],'all pairs of key/value sets up to the bounds; every arity; both hash sizes',
 'tests never compare roots of different sets systematically; one field left out of the hashed vector, or one ambiguous layout, is a collision for particular pairs only.',
 [BM,ND],[('makeHashVector/HashTheVector',BM),('CommitToDataRaw',BM)],
 ['trie.RootCommitment'])
p('C09','Every generated blake2b proof validates and tells the truth',
 'For every trie state and every key, the proof generated for that key validates against the root commitment of the trie; it is a proof of absence exactly if the key is absent; and if the key is present it validates with its value and with no other value. The same holds after the proof is serialized and deserialized, and whether the proof is taken from the buffered trie or from a read-only reader on the persisted store.',
 ['histories','inputs','configurations'],'all tries up to the bounds, all query keys (present, absent, prefixes, extensions, empty), all values; every arity and hash size',
 'tests query the keys they inserted or deleted in random data; query keys that end inside a path fragment, on a branching node without value, or at a boundary length are hit by accident only.',
 [BP,BV,PR,BM],[('CommitmentModel.Proof',BP),('proofPath',PR),('Validate, ValidateWithValue, MustKeyWithTerminal',BV)],
 ['model.Proof','trie_blake2b_verify.Validate','trie_blake2b_verify.ValidateWithValue','trie_blake2b_verify.IsProofOfAbsence'])
p('C10','No accepted blake2b proof states a falsehood',
 'Whatever proof object or bytes an adversary presents, if it validates against the root commitment of a trie then what it states about its key is true of that trie: a proof of absence is accepted only for a key that is absent, and a proof of presence only for a key that is present, with the commitment to the value the trie holds.',
 ['inputs','configurations'],'all proofs up to the bounds (arbitrary key, path, fragments, child maps, terminals, indices), all tries up to the bounds; ideal hash',
 'no test presents a forged proof; soundness is a statement over all adversarial inputs.',
 [BV,BP,BM],[('verify',BV),('hashIt/makeHashVector',BV),('MustKeyWithTerminal',BV)],
 ['trie_blake2b_verify.Validate','trie_blake2b_verify.MustKeyWithTerminal'])
p('C11','Proof serialization is lossless',
 'Every well-formed blake2b proof serializes to bytes that deserialize to an equal proof (arity, hash size, key, and per element fragment, index, terminal including its presence, and children), whose re-serialization gives the same bytes; the reported size equals the number of bytes.',
 ['inputs','configurations'],'all keys, paths, fragments, child index subsets, terminals of every permitted length; every arity and hash size',
 'tests round-trip proofs of a few keys and check only validity, not equality.',
 [BP,UT,EN],[('Proof.Write/Read, ProofElement.Write/Read',BP),('Size',UT)],['trie_blake2b.Proof.Bytes','trie_blake2b.ProofFromBytes','trie.Size'])
p('C12','Clones, discarded caches and reads leave the trie alone',
 'Operations on a clone never change what the original holds and vice versa, and a clone starts with exactly the content of the original including uncommitted changes. Clearing the cache without persisting returns the trie exactly to its last persisted state. Reading operations (node access, root commitment, proofs, reconciliation) change neither the content of the trie nor what a later commit or persist produces, and committing twice equals committing once.',
 ['histories','inputs','configurations'],'all histories up to the bounds with clone, clear and reads interleaved at any point; all keys; every arity',
 'the clone test compares roots before any divergence; isolation is about what happens after both sides continue.',
 [T,NS,NO,ND,BM],[('Clone of trie, node store, nodes, node data, commitments','trie/trie.go, trie/nodestore.go, trie/node.go, trie/nodedata.go'),('clearCache',NS)],
 ['trie.Trie.Clone','trie.Trie.ClearCache','trie.RootCommitment'])
p('C13','Storage optimizations are invisible to users of the trie',
 'For every threshold of the value-size optimization, the trie has the same root, proofs and content as without the optimization, also after persisting and reopening, as long as the value store holds the current values. Likewise with the key-commitment optimization a trie read back from its store has the same root, proofs and content as before persisting, for pairs with equal and with different key and value.',
 ['histories','inputs','configurations'],'all keys, values of lengths around the thresholds and the hash size, thresholds, arities, optimization switches, histories with persist and reopen',
 'optimization tests compare store sizes and validate proofs of a few keys; the flags interact with value length, key length, hash size and arity.',
 [NO,ND,BM,T,NS],[('bufferedNode.Bytes',NO),('takeTerminalFromKeyFlag/takeTerminalFromValueFlag',ND),('ForceStoreTerminalWithNode, costly flag',BM)],
 ['trie.RootCommitment','model.Proof'])
p('C14','Reconcile and UpdateAll agree with the key/value store exactly',
 'Reconcile returns exactly the keys of the store whose stored value is not the one the trie commits to, for every trie (also empty or with key commitments) and every store. UpdateAll on an empty trie gives the trie that single updates give, and after it Reconcile of the same store returns nothing.',
 ['inputs','configurations','histories'],'all stores and tries up to the bounds, including stores that differ from the trie in any key or value; every arity; optimization on and off',
 'the only reconcile test uses a store from which the trie was just built.',
 [T],[('Reconcile',T),('UpdateAll',T)],['trie.Trie.Reconcile','trie.Trie.UpdateAll'])
p('C15','Key/value streams and dumps round-trip and detect truncation',
 'Any sequence of key/value pairs written to a stream or dumped to a file is read back as the same sequence with the same counts, whatever the sizes in which the underlying reader delivers the bytes. A stream cut at any point that is not a record boundary is never silently read as a shorter valid stream.',
 ['inputs','fault_sequences'],'all sequences of pairs up to the bounds, all cut points, all short-read schedules of the reader, readers and writers that fail at any point',
 'tests read complete regular files only.',
 [KV,UT],[('BinaryStreamWriter/BinaryStreamIterator',KV),('writeKV/readKV, ReadBytes16/32, WriteBytes8/16/32',UT),('DumpToFile/UnDumpFromFile',UT)],
 ['trie.BinaryStreamIterator.Iterate','trie.UnDumpFromFile'])
p('C16','Key/value adaptors behave as one isolated map',
 'The in-memory store and the hive adaptor behave as a map: get returns the last value set, setting an empty value deletes, has agrees with get, and iteration visits exactly the current pairs with their keys as written, until stopped. A hive adaptor only touches keys of its own prefix, so adaptors with prefixes that are not prefixes of one another never see or change each other\'s data, and errors of the underlying store are never mistaken for missing data.',
 ['histories','inputs','fault_sequences'],'all sequences of operations, keys, values, prefixes; all faults of the underlying store',
 'hive_adaptor has no tests.',
 [HV,KV],[('HiveKVStoreAdaptor, makeKey',HV),('inMemoryKVStore',KV)],['KVStore.Get/Has/Set/Iterate'])
p('C17','The batched updater commits values and trie together or not at all',
 'After a successful commit of the batched updater the value partition holds exactly the resulting key/value map and the trie partition exactly the trie of that map; before the commit, or if the batch commit fails, the underlying store is unchanged. A failed commit can be repeated and then has the full effect, and any number of batches gives the same result as one.',
 ['histories','inputs','fault_sequences'],'all sequences of updates, deletions and commits over several batches, failure of the batch commit or flush at any point',
 'there is no test of the batched updater; atomicity is about every fault point.',
 [HV,T],[('HiveBatchedUpdater.Update/Commit, batchWriter',HV)],['kvstore.BatchedMutations','hive_adaptor.HiveBatchedUpdater.Commit'])
p('C18','Commitment values obey the laws the trie relies on',
 'For every commitment model, equality of commitments is an equivalence that treats absent commitments as equal only to absent ones and agrees with equality of the serialized bytes (up to the storage hints of a terminal commitment), different data up to the hash size have different commitments, empty data has none, and cloning and serializing round-trip to an equal commitment. Incrementally updating a node that still commits to something afterwards gives the same node data and the same commitment as computing it from scratch.',
 ['inputs','configurations'],'all pairs of data and commitments up to the bounds, typed and untyped nils; all node data and child/terminal updates; both hash sizes; all models whose arithmetic is abstracted as stated',
 'no test targets these laws; they are universally quantified equations.',
 [BM,KM,UT],[('equalCommitments, CheckNils','models/trie_blake2b/model.go, trie/util.go'),('CommitToData',BM),('UpdateNodeCommitment','models/trie_blake2b/model.go')],
 ['CommitmentModel methods'])
p('C19','KZG vector commitments: honest proofs verify, false values do not',
 'For every vector of scalars and every index, the proof computed for that index verifies for the committed value at that index, and verifies for no other value; the commitment is linear in the vector with absent entries counting as zero. This holds for every valid trusted setup, in the natural and in the roots-of-unity domain.',
 ['inputs','configurations'],'all vectors with absent entries, all indices, all secrets and domains of the abstract group up to the bounds',
 'trusted_test.go checks a few random vectors of the fixed setup.',
 [KU,KT],[('commit/prove/qPoly/diff/verify',KU),('evalLagrangeValue/aprime/ta/tk/invsub/precalculate',KT)],['TrustedSetup via CommitmentModel and ProofOfInclusion'])
p('C20','KZG proofs of inclusion exist exactly for present keys',
 'For every trie over the KZG model and every key, a proof of inclusion is produced exactly if the key is present, it then validates against the root with the value and with no other value, also after serialization; for an absent key no proof is produced. Validating a malformed proof returns an error and never panics.',
 ['inputs','histories'],'all tries and query keys up to the bounds, all structurally malformed proofs; pairing and group abstracted as ideal',
 'tests query inserted keys only; a key that ends on a branching node without value is never queried.',
 [KP,KM],[('ProofOfInclusion, Validate, Read/Write',KP)],['trie_kzg_bn256.CommitmentModel.ProofOfInclusion','trie_kzg_bn256.ProofOfInclusion.Validate'])
p('C21','KZG trusted setups survive serialization',
 'A trusted setup written to bytes and read back is the same setup (degree, domain, basis, differences and derived values) in both kinds of domain, so that commitments and proofs made with either verify with the other; bytes that are truncated or extended are refused.',
 ['inputs','configurations'],'all setups up to the degree bound over the abstract group, natural and roots-of-unity domain, all truncations',
 'tests read back one fixed setup.',
 [KT],[('TrustedSetup.write/read, TrustedSetupFromBytes',KT)],['trie_kzg_bn256.TrustedSetupFromBytes'])
p('C22','Buffers of the caller stay with the caller',
 'Changing a key or value slice after it was passed to the trie, to a model or to a key/value adaptor of this library that claims to store it, never changes what the trie holds, its later commitments or its proofs, and the library never modifies slices passed to it.',
 ['inputs','histories','configurations'],'all keys and values, every later modification of the passed slices, every arity',
 'tests always pass fresh slices converted from strings.',
 [EN,T,NO,BM],[('UnpackBytes','trie/encode.go'),('Update','trie/trie.go'),('CommitToDataRaw',BM)],['trie.Trie.Update then mutation of the key buffer'])
p('C23','Read-only access does not write shared memory',
 'Reading through the read-only reader, generating proofs from it, and validating, serializing or inspecting a proof write to no memory that existed before the call, so any number of such readers can run concurrently without data races on the same store, model or proof.',
 ['schedules','inputs','configurations'],'all interleavings of read-only calls, reduced to absence of writes to pre-existing memory on every path of every call; all tries, keys and proofs up to the bounds',
 'no concurrent test exists and the race detector sees only schedules that ran.',
 [T,NS,BP,BV,BM],[('TrieReader/nodeStore.getNode','trie/trie.go, trie/nodestore.go'),('Proof',BP),('Validate',BV)],['trie.TrieReader','model.Proof','trie_blake2b_verify.Validate'])
p('C24','Failing or piecemeal readers and writers never corrupt silently',
 'Serializing a node, a proof, a commitment, a length-prefixed field or a stream to a writer, or dumping a store to a file, reports every failure to write, and deserializing or restoring reports every failure to read. A reader may deliver the bytes in any pieces: the result is the same.',
 ['fault_sequences','inputs','configurations'],'every call of the writer or reader that fails, once or from then on, and every division of the bytes into pieces; all objects up to the bounds; both models',
 'tests serialize to and from memory buffers only, which never fail and deliver everything at once.',
 [UT,ND,BP,BM,KP,KM,KV],[('Read/Write',ND),('Proof.Read/Write',BP),('ReadBytes16 ...',UT)],['trie.NodeData.Write/Read','trie_blake2b.Proof.Write/Read','trie.BinaryStreamWriter'])
p('C25','Inspecting a trie never fails and changes nothing',
 'Describing the nodes, generic proofs, commitments, models and the cache of a trie as text and reading its root commitment back from bytes never fails, whatever the state of the trie (empty, uncommitted, with nodes that hold no value), and it changes nothing: the content, the root and what is persisted afterwards are as without it. A root commitment read back from its bytes equals it, and bytes that are not exactly one commitment are refused.',
 ['inputs','histories','configurations'],'all states reached by the histories up to the bounds, every node and every query key, all cuts and extensions of the bytes; both models',
 'tests print a few nodes that happen to hold a value, and read back no commitment.',
 [NO,PR,ND,T,BM,KM],[('ToString',NO),('ProofGeneric.String, GetProofGeneric',PR),('VectorCommitmentFromBytes, Info, DangerouslyDumpCacheToString',T)],['trie.ToString','trie.GetProofGeneric','trie.Trie.VectorCommitmentFromBytes'])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
