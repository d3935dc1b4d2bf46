IDEAL=["kyber's bn256 groups are ideal: elements of G1, G2 and GT are known by their discrete logarithms in a prime field and the pairing multiplies them; field arithmetic is exact, the field is smaller than the real one",
"blake2b digests reduced into the scalar field are independent field elements (no accidental linear relation between them)"]
add("C19","every trusted setup of degree 1..4 of prime fields of order 7 (thorough 13) and 13, natural domain and powers of any element of sufficient order, every secret outside the domain (symbolic, or one by one), every vector with any entries absent and symbolic entries, every index, every claimed value; linearity for pairs of vectors of degree 2 and 3 and for constant vectors.","bigger fields and degrees (258 as deployed), secrets inside the domain, kyber's curve arithmetic itself.",IDEAL,pkg="hk",q=150)
add("C20","tries over the KZG model with 0..2 (thorough 3) pairs with keys of 0..2 bytes 0/1 and symbolic 1-byte values, every such query key, from trie, persisted trie and reader; after one (thorough two) arbitrary operations with commit/persist; proofs with one part (index, commitment, opening, element, suffix, terminal, key) replaced by that of another proof, every cut of the first and last 40 bytes, arbitrary bytes of 0..70.","longer keys, more pairs; forgeries that do not recombine honest parts; kyber's curve arithmetic and encodings.",IDEAL,pkg="hk",q=150)
add("C21","setups of degree 1..3 (thorough 4) and of degree 16 (60), natural and roots-of-unity domain, three secrets, round trip through bytes and file and equality of all derived values; commitments and proofs of vectors with any symbolic entries crosswise; cuts of the first and last 100 bytes, extensions of 1..2 arbitrary bytes; arbitrary bytes of setups of degree 0..2.","bigger degrees (258 as deployed), other secrets; degrees above 32768 (the tables' size computation overflows uint16); kyber's encodings.",IDEAL,pkg="hk",q=150)

add("C24","all arities and both hash sizes: nodes with fragments of 0..2 elements, 0..2 children and the terminal absent, in the node (3 lengths), in the key or in the value store; proofs of 0..2 elements; commitments; length-prefixed fields of 0..3 bytes and integers; streams of 0..2 pairs; dumps to and from a file that cannot be written or read. KZG: nodes, proofs of inclusion of 1..2 elements, commitments. Every single call of the writer or reader fails, once or from then on; pieces of at most 1, 2, 3 or 7 bytes, or any single call (thorough: any two calls) that delivers nothing, one byte, half or all but one.","writers that report fewer bytes than they were given without an error (not allowed by io.Writer); kyber's own encodings (here the ideal groups of C19..C21).",pkg="h,hk")
add("C25","all arities, both hash sizes: histories of up to one base pair and 1 (thorough 2) arbitrary operations with commit, persist and reopening between them, and 3 (5) operations of each script with all gaps; described before the commit, after it, after persisting and by a reader: every node, the generic proof of any key, the cache, the model. Root commitments of 1..2 pairs from bytes, all cuts, extensions of 1..3 bytes.","what the text says (only that there is one, without failing); texts are not compared; the methods of kyber's points that print them; DangerouslyDumpToConsole, which prints.")
