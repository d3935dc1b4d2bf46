#!/usr/bin/env python3
# writes props.json: one place for packages, budgets and the stated bounds
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
HASH="blake2b is collision-free on the inputs of one path (an uninterpreted injective function); its value is never used otherwise"
MAPS="Go map iteration visits entries in insertion order except where a harness asks for other orders"
STATE="Keys are arbitrary strings over a per-arity byte alphabet (arity 256: 00,01; 16: 00,01,10; 2: 00,01,80 hex), quick up to 2/1/1 bytes, thorough 3/2/2; values are 1 arbitrary byte unless said otherwise."
P={}
def add(i,bounds,outside,assume=(HASH,MAPS),pkg="h",q=120,t=600,**kw):
    P[i]=dict(pkg=pkg,quick_s=q,thorough_s=t,bounds=bounds,outside=outside,assumptions=list(assume),**kw)
add("C01","all three arities; keys of 0..4 (thorough 12) arbitrary bytes; unpacked paths of 0..9 (arity 2: 17; thorough 20 and 33) arbitrary elements, pairs of paths of 0..6 (arity 2: 12; thorough 10 and 18); encodings of 0..6 (thorough 12) arbitrary bytes.","longer keys and paths.",assume=[],q=120)
add("C04",STATE+" Histories: a persisted base of 0..2 pairs (cache kept or dropped) followed by 2 arbitrary updates/deletions, or 3 from an empty trie (thorough: a base of 1), with commit/persist/persist+reopen/nothing between them; all arities.","longer histories, more pairs, longer keys, other key bytes.")
add("C05",STATE+" Histories as in C04 with a base of 0..1 (thorough 2) pairs; 2..3 pairs in two orders with a commit anywhere; detours over one extra key; forward and reverse iteration order of all maps. KZG: 2 (thorough 3) pairs with keys of 0..2 bytes in two orders with commits anywhere and a detour.","longer histories, more pairs, longer keys.",pkg="h,hk")
add("C06",STATE+" Histories as in C04; deletion from 3 pairs under both map orders; every node compared with an independently computed canonical trie.","longer histories, more pairs, longer keys.")
add("C07",STATE+" Histories as in C04, then commit and persist; one arbitrary operation continued on the original and on the reopened trie. KZG: base of 0..2 pairs, persist/reopen, one (two) arbitrary operations, store compared with that of a trie made from scratch.","longer histories, more pairs, longer keys; failing stores (C16, C17).",pkg="h,hk")
exec(open('tools/conf2.py').read()) if os.path.exists('tools/conf2.py') else None
exec(open('tools/conf3.py').read())
SHAPES=" Other shapes: keys with common parts and ends of 34..260 bytes (arity 2: 5..33), nodes with 3, 17 and 40 (thorough 256) children, chains of 4 (6) keys each the beginning of the next, persisted, cache kept or dropped, and one operation (with its reversal) on a key in them, next to them or leaving them anywhere."
SCRIPTS=" Scripts: 12 given sequences of 5..8 updates and deletions of keys of 0..41 bytes with values of 1..64 arbitrary bytes and anything (nothing, commit, persist, persist and drop the cache) in their %s gaps."
more={}
for i in ("C04","C05","C06","C07","C09"): more[i]=SHAPES
MANY=" Many: given sets of 300 (thorough 700) pairs with keys of 2..3 and values of 1..64 bytes, or 70 (300; arity 2: a third) keys each the beginning of the next, or a node with 256 children and a terminal, uncommitted, committed or persisted, then one operation on one of 4..6 keys with any value of a byte, or the deletion of all but every 50th."
KMANY=" KZG shapes: 8 (14) children at both ends and in the middle of the range, chains of 6 (20) keys, fragments of 31 and 300 bytes, one operation, from the trie or from the store."
for i,n in (("C04","4"),("C05","4"),("C06","4"),("C07","4"),("C09","first 2 (4)"),("C12","first 3 (thorough 5)"),("C13","first 2 (thorough 4)"),("C17","first 3 (thorough 5)")): more[i]=more.get(i,"")+SCRIPTS%n
more["C12"]+=" In one gap a clone is taken and one of the two left behind; in the end the other is committed or its cache dropped."
more["C13"]+=" There thresholds 1, 20 and 33 against none, or key commitments."
more["C17"]+=" There the gaps are batch commits, failures of the commit or the flush, and both."
more["C08"]=" Pairs of tries of two keys with common parts and ends of up to 129 bytes, any element at the ends and in the middle of both of which differs; pairs of single pairs with arbitrary keys of 14 lengths up to 300 bytes (arity 256)."
more["C10"]=" Honest proofs from tries of two keys with common parts and ends of 2..137 bytes, of which two elements of the key, of a fragment or of an index are changed arbitrarily (quick: hash size 160)."
more["C11"]=" Proofs with up to 300 elements, and with keys and fragments of 127..1025 elements."
more["C19"]=" The commitments and proofs of whole vectors (commitAll, verifyVector) of degree 2 and 3."
for i in ("C04","C05","C06","C07","C09","C12","C13","C14","C25"): more[i]=more.get(i,"")+MANY
more["C17"]=more.get("C17","")+MANY.replace("300 (thorough 700)","100 (300)").replace("70 (300;","30 (70;")
more["C15"]=more.get("C15","")+" 301 (701) given pairs through dump, file and stream."
more["C16"]=more.get("C16","")+" 150 (300) given pairs in each of two stores and one operation on one of them."
more["C01"]=" Keys, paths and encodings of 15 lengths from 15 to 1000 with given elements but two arbitrary ones (at the ends, in the middle)."
more["C10"]+=" Honest proofs from a trie of 17 (54) keys with a chain of 12 (40; arity 2: half), one element of which is changed in any of 9 ways at 5 depths, about any of 4 keys."
more["C18"]=more.get("C18","")+" Data of 11 (13) lengths from 63 to 65537, given but for two bytes."
more["C11"]+=" Terminals of 18 lengths up to 255."
more["C16"]+=" Keys of 9 lengths up to 1000 bytes under prefixes of 0..300 bytes."
more["C22"]=" Keys of 31..300 bytes (arity 2: an eighth) and values of 1..100 bytes in three updates with commit or persist and reopening between them."
more["C23"]=" Readers and proofs on the shapes of C09."
for i in ("C07","C20"): more[i]=more.get(i,"")+KMANY
for i,t in more.items(): P[i]["bounds"]+=t
json.dump(P,open('props.json','w'),indent=1)
