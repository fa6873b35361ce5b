#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

T="src/tree.rs"; N="src/node_type.rs"; C="src/tree_cache.rs"; R="src/restore.rs"; D="src/types/proof/definition.rs"
I="src/iterator.rs"; W="src/writer.rs"; M="src/mock.rs"; X="src/tree/ics23_impl.rs"; B="src/types/nibble/nibble_path.rs"

prop("C01","Every retained version reads back exactly the map that was committed",
 "After any history of committed updates (inserts, overwrites, deletions, re-insertions, repeated keys, empty updates), a read of any key at any version that has not been pruned succeeds and returns exactly the value of the last write to that key at or before that version, or nothing if the key was deleted or never written. The plain read and the proof-carrying read always agree, and committing later versions never changes what an earlier version returns.",
 ["inputs","histories"],"all histories of value sets over 256-bit keys (including keys sharing up to 255 leading bits), all write entry points, all starting versions, all read versions",
 "The suite compares reads with a map only for insert-only or insert-then-delete histories of random keys that diverge in the first nibbles, and mostly at the latest version; deep shared prefixes, deletion/reinsertion churn and reads of historical versions are sampled by a handful of fixed cases.",
 [T,C,"src/reader.rs"],[("insert/delete recursion and leaf coalescing",T+": insert_at, insert_at_internal_node, insert_at_leaf_node"),("per-version overlay of uncommitted nodes",C+": TreeCache"),("path walk with queried version",T+": get_with_proof, get")],
 state=[("committed nodes and values","the persistent map from (version,path) to node and (version,key) to value","any TreeReader")],observe=["return values of get / get_with_proof at every version"])

prop("C02","The root hash is a canonical function of the stored map alone",
 "The root hash reported for a version, both when the update is computed and when it is read back later, equals the sparse-Merkle root of exactly the key/value pairs present at that version (domain-separated leaf and inner hashes, subtrees with at most one leaf collapsed, fixed placeholder for an empty tree). It does not depend on the order, grouping, versions or entry points through which that map was produced, nor on anything that was inserted and later removed.",
 ["inputs","histories"],"all histories and all permutations/groupings leading to the same map, several hash functions, all key distributions up to 255 shared bits",
 "The tests check the root against an independent computation only inside the range-proof test and by comparing two library-built trees with each other, on random keys.",
 [T,N,"src/types/proof.rs"],[("16-ary node hashed as a 4-level binary tree",N+": merkle_hash"),("domain separators and placeholder","src/types/proof.rs, src/lib.rs"),("coalescing on deletion",T+": insert_at_internal_node")],observe=["RootHash values returned by writes and by get_root_hash"])

prop("C03","Honest point proofs always verify, and only for the true claim",
 "For every key at every retained version, the proof returned with a read verifies against that version's root for exactly what the read returned: inclusion of that value, or absence of the key. The same proof is rejected for any other value, for the opposite claim, for a different version's root, and for keys it does not speak about.",
 ["inputs","histories"],"all committed histories, all queried keys (present, deleted, absent neighbours that share any number of bits with present keys), all versions, several hashers",
 "Existing property tests verify the positive direction on random shallow trees; the negative direction and deep or historical trees are covered by a few fixed cases.",
 [T,N,D],[("sibling collection",N+": get_child_with_siblings_helper, build_sibling"),("verification fold",D+": SparseMerkleProof::verify")],observe=["SparseMerkleProof::verify, verify_existence, verify_nonexistence, root_hash"])

prop("C04","No point proof can establish a false statement, and verifying never crashes",
 "Whatever bytes a prover supplies as a point proof, the verifier accepts 'key k has value v under root r' or 'key k is absent under root r' only if that is true of the tree committed to by r. Verification of any decodable proof, however malformed, returns an accept or reject result and never panics.",
 ["inputs"],"all decodable proofs: honest proofs of other keys/versions, structural mutations (siblings dropped, added, swapped, retyped, truncated, shifted), forged leaves, random byte strings; all false claims about neighbouring keys and values",
 "The tests only feed honest proofs to the verifier; soundness quantifies over everything an adversary may send.",
 [D,"src/types/proof.rs"],[("leaf/key/value checks and prefix check",D+": SparseMerkleProof::verify"),("typed siblings hashed with domain separation","src/types/proof.rs: SparseMerkleNode")],observe=["Ok/Err/panic of verify* on decoded proofs"])

prop("C05","Honest update proofs verify for the update they describe",
 "For every batch of insertions, overwrites and deletions (including repeated keys, deletions of absent keys, and batches over several versions), writing with proofs returns the same roots and the same storage changes as writing without, and each returned update proof verifies from the previous root to the new root for exactly that list of updates.",
 ["inputs","histories"],"all batches over all reachable trees, including splits and coalescing at any bit depth",
 "The proved-update tests use random keys and small nibble variations; splits inside a nibble at depth, coalescing over long runs of empty siblings and mixed no-op batches are not systematically reached.",
 [T,D,N],[("proof assembly during insertion",T+": put, insert_at*"),("recomputation of the new root",D+": check_compute_new_root, compute_new_merkle_path_on_split")],observe=["put_value_set(s)_with_proof, UpdateMerkleProof::verify_update"])

prop("C06","No update proof can establish a false transition, and verifying never crashes",
 "Whatever bytes a prover supplies as an update proof, the verifier accepts a transition (old root, updates, new root) only if new root is the root obtained by applying exactly those updates, in order, to the tree committed to by old root. Verification of any decodable update proof returns accept or reject and never panics.",
 ["inputs"],"all decodable update proofs: honest proofs of other keys, structural mutations, forged leaves, random bytes; all false transitions (wrong new root, dropped/altered/reordered updates, claimed no-ops)",
 "Only honest update proofs are ever verified by the tests.",
 [D],[("old-root check and new-root computation per update",D+": check_compute_new_root"),("chaining of roots",D+": verify_update")],observe=["Ok/Err/panic of verify_update on decoded proofs"])

prop("C07","Range proofs authenticate exactly the leaves up to their bound",
 "For every retained version and every present key, the range proof up to that key verifies together with the left-hand hashes derived from the complete set of entries not greater than that key. It is rejected if any of those entries is missing, altered or added, if the bound or root is changed, or if the proof's siblings are tampered with, and verification of any decodable range proof never panics. For a bound that is absent from that version no range proof is handed out.",
 ["inputs","histories"],"all trees and bounds including leftmost, rightmost and only entry and keys sharing long prefixes; all mutations of entries and proof",
 "The tests check the positive direction on random trees; rejection and malformed proofs are untested.",
 [T,D],[("filtering right siblings of a point proof",T+": get_range_proof"),("interleaving left and right siblings",D+": SparseMerkleRangeProof::verify")],observe=["get_range_proof, SparseMerkleRangeProof::verify"])

prop("C08","Exclusion proofs name the true neighbours of an absent key",
 "For every key absent from a non-empty retained version, the exclusion query returns the proof of the greatest present key below it and of the least present key above it (only one of them at the ends of the key space), each of which verifies against that version's root. For a present key the same query returns the stored value with a verifying inclusion proof.",
 ["inputs","histories"],"all trees and all queried keys, in particular keys adjacent to leaves, keys that diverge inside a node's virtual levels, and keys beyond both ends",
 "One 1000-case property test exists for keys that are k-1/k+1 of a present key under a non-hashing hasher at a single version.",
 [T,N],[("closest-leaf search and neighbour walk",T+": search_for_closest_node, get_bounding_path, search_closest_extreme_node, get_extreme_key_hash")],observe=["get_with_exclusion_proof"],hook="ExclusionProof is returned by a public method but its name is not exported; re-exported under cfg(jmt_verif)")

prop("C09","ICS23 proofs verify under the exported spec for exactly the true claims",
 "For every non-empty key preimage (with non-empty values) at every retained version of a non-empty SHA-256 tree, the ICS23 proof returned with the read verifies with a standard ICS23 verifier under the exported proof spec: membership with the stored value if present, non-membership otherwise. It does not verify for a different value, key, root or the opposite claim, and tampered or recombined ICS23 proofs never establish a false claim.",
 ["inputs","histories"],"all sets of key preimages, including sets ground so that their hashes share prefixes; all queried preimages and versions",
 "ICS23 non-existence verification is exercised on few fixed trees; verification of false claims is not exercised.",
 [X,T],[("conversion of siblings to inner ops",X+": sparse_merkle_proof_to_ics23_existence_proof"),("non-existence from exclusion proof",X+": exclusion_proof_to_ics23_nonexistence_proof"),("spec",X+": ics23_spec")],observe=["get_with_ics23_proof, ics23::verify_membership / verify_non_membership"])

prop("C10","Iteration yields exactly the entries from the start point, in key order",
 "At every retained version and for every starting key, the iterator yields each entry of that version whose key is at or above the start exactly once, with its value at that version, in strictly ascending key order, and then ends and stays ended. Starting by index i yields the same sequence without its first i entries, for every i, including past the end.",
 ["inputs","histories"],"all trees (empty, single entry, deep chains, full nodes), all start keys (present, absent, before first, after last, diverging at any depth) and all indices, all versions",
 "The tests iterate over random or consecutive keys and start from present keys and their successors at the latest version, without deletions.",
 [I],[("stack of visited nodes and bitmaps",I+": NodeVisitInfo, new, next, cleanup_stack"),("leaf-count guided skipping",I+": new_by_index, skip_leaves")],observe=["items produced by JellyfishMerkleIterator"])

prop("C11","Restoring from chunks reproduces the tree, across any interruption",
 "For every source tree, every split of its entries into ordered chunks with their range proofs, and every interruption between chunks (the receiver is dropped and a new one resumes from the same storage, re-sending only entries after the last persisted leaf), restoration succeeds. The restored version then has the same root, entries, proofs, iteration order and leaf count as the source and accepts further updates with the correct results.",
 ["inputs","histories","crash_points"],"all trees, all chunkings (size 1 to everything), all sets of interruption points, repeated interruptions",
 "The interruption test covers at most one interruption of random-key trees and compares only point reads.",
 [R],[("partial nodes and freezing",R+": add_one, insert_at_leaf, freeze*"),("recovery of partial nodes from storage",R+": recover_partial_nodes")],
 state=[("partial_nodes","right edge of the tree under construction",R)],observe=["storage content after finish(), reads through the tree"])

prop("C12","Restoration accepts only true chunks and ends only at the expected root",
 "A chunk whose entries or range proof do not match the expected root (missing, altered, added, reordered or repeated entries, wrong or mutated proof) is rejected with an error and nothing is written to storage for it, without panicking. If a restoration reports success at the end, the storage holds at that version a tree with exactly the expected root; storage write errors are reported.",
 ["inputs","histories","fault_sequences"],"all corrupted chunks at all positions of the sequence, truncated restorations, finishing after a rejected chunk or failed write",
 "No test feeds a bad chunk, truncates a restoration or fails a write.",
 [R,D],[("verification before write",R+": add_chunk_impl, verify"),("finish",R+": finish_impl")],observe=["Result of add_chunk/finish and the write log of the store"])

prop("C13","Pruning never damages a version that must stay readable",
 "After removing every node that the updates declared stale at or before version p, all reads, proofs, iteration and range queries at every version from p onwards give exactly the same answers as before pruning, and further updates on the latest version work. Reads of older versions either give their original correct answer or report an error (for proof-carrying reads, a missing-root error naming that version if its root is gone), never a wrong answer or a panic.",
 ["inputs","histories"],"all histories (including multi-version batches, deletions, empty updates) and all pruning points and sequences of pruning interleaved with updates",
 "Pruning is exercised by two fixed-shape tests with insertions only.",
 [C,T,W,M],[("stale node collection",C+": delete_node, freeze"),("stale index per version",W+": StaleNodeIndex"),("purge",M+": purge_stale_nodes")],observe=["reads at all versions before/after removing stale nodes"])

prop("C14","Stale-node reporting is complete: nothing unreachable survives pruning",
 "Every node that is reachable from some version's root but from no later root is reported stale exactly once, at the first later version that no longer needs it, and never while a newer retained version needs it. Consequently, pruning up to the latest version leaves in storage exactly the nodes reachable from the latest root, so storage does not leak across updates, deletions, empty trees or updates that change nothing.",
 ["inputs","histories"],"all histories over all entry points, including no-op versions and trees that become empty and non-empty again",
 "Tests count nodes for two or three insertion-only steps.",
 [C,T],[("delete_node on every replaced node",T+": insert_at*, batch_insert_at"),("root carry-over of no-op versions",C+": freeze")],observe=["StaleNodeIndexBatch versus reachability computed from storage"])

prop("C15","Computing an update is pure, append-only and repeatable after a crash",
 "Computing an update writes nothing and only produces storage entries for the versions being written, never overwriting an existing entry, so a discarded update has no effect and alternative updates can be computed from the same base. If a crash leaves any subset of the entries of an uncommitted update in storage, all earlier versions still read correctly and recomputing the same update yields the same roots and the same changes, whose application gives the correct state.",
 ["inputs","histories","crash_points"],"all updates and all subsets of their writes left behind by a crash; all forks from the same base",
 "No test leaves a partially applied batch behind or recomputes an update.",
 [T,C,W],[("overlay cache consulted before storage",C+": get_node, get_node_option"),("nodes keyed by (version, path)",N+": NodeKey")],observe=["returned TreeUpdateBatch, reads after partial application"])

prop("C16","Persisted nodes form a well-formed canonical tree",
 "In storage, at every retained version, every inner entry's recorded hash, version, kind and leaf count match the child node it points to; every pointer resolves; every leaf sits on the path spelled by its key; no inner node has a lone leaf child, no empty node exists except as the root of an empty tree. The set of node paths of a version is determined by its key set alone.",
 ["inputs","histories"],"all histories, all versions, all entry points (updates, batch inserts, restoration)",
 "Tests look at node structure in a handful of hand-built trees.",
 [T,N,C,R],[("node construction invariants",N+": InternalNode::new, Children"),("child bookkeeping",T+": insert_at_internal_node, batch_*")],observe=["nodes reachable from each root, walked through the public node accessors"])

prop("C17","Leaf counts and update statistics are exact",
 "The leaf count reported for any retained version equals the number of entries at that version. For every version of an update, the reported numbers of new nodes, new leaves, stale nodes and stale leaves equal the numbers actually present in the returned storage changes for that version.",
 ["inputs","histories"],"all histories and entry points, including several versions per call, coalescing, splits, no-ops",
 "Leaf count is tested on single-version insert-only trees; statistics in one fixed test.",
 [N,C,T],[("leaf_count sums",N+": sum_leaf_count"),("counters",C+": put_node, delete_node, freeze")],observe=["get_leaf_count, TreeUpdateBatch.node_stats"])

prop("C18","All write paths and groupings produce identical results",
 "Applying the same sequence of versions through single-version updates, one multi-version update, the proof-producing variants, the bulk insertion path (with or without precomputed hashes) or any split of the sequence into consecutive calls yields the same roots, the same stored nodes and values and the same stale entries. The merged batches of single versions are the batch of doing them in one update. The order of distinct keys inside one update does not matter to its root, contents and tree shape, and for repeated keys the last write wins.",
 ["inputs","histories"],"all histories, all splits into calls, all permutations within an update",
 "Tests compare bulk and incremental insertion in fixed scenarios and compare roots only.",
 [T,C],[("batch_put_value_sets vs put_value_sets",T),("frozen cache across versions",C+": freeze")],observe=["returned roots and batches"])

prop("C19","Persisted and transmitted encodings round-trip and are stable",
 "Every node key, node, stale entry, update batch, root, key hash and proof survives encoding and decoding unchanged in every format it supports (borsh for all, serde too for all but batches and stale entries), equal values encode to equal bytes, and node keys keep their ordering. The byte encodings of keys, nodes, batches and proofs are exactly the documented-by-structure ones, so data written by one build is readable by another, distinct byte strings never decode to the same value, and decoding arbitrary bytes never panics.",
 ["inputs"],"all values reachable from workloads plus random and mutated byte strings",
 "Round trips are tested for one hand-built value per proof type and for random inner nodes in one format; nothing pins the format.",
 [N,W,D,B,"src/types/proof.rs","src/lib.rs"],[("derived borsh/serde implementations with custom bounds",N+", "+D+", "+W+", "+B)],observe=["borsh/serde bytes compared with an independent encoder"])

prop("C20","Storage errors surface as errors, never as wrong answers or crashes",
 "If the underlying storage fails any single read during an operation, the operation either returns an error or, if it does not depend on that read, the correct result; it never panics and never returns an incorrect value, proof, root or sequence. After the fault clears, repeating the operation succeeds with the correct result.",
 ["fault_sequences","inputs"],"every read position of every operation (reads, proofs, range/exclusion/ICS23 proofs, iteration, updates, update proofs, append, restoration recovery) on every reachable tree",
 "No test injects storage errors.",
 [T,N,I,C,R],[("Result propagation",T+", "+N+": build_sibling, "+I)],observe=["results under a store that fails its n-th read, for each n"])

prop("C21","In-place append extends the latest version without disturbing anything else",
 "Appending a value set to the latest version succeeds whenever the tree is non-empty and that version is the latest, and gives the same root and reads for that version as if its map had been updated by those changes, while all earlier versions read as before. The resulting storage state supports further updates and pruning with correct results, and appending to a version that is not the latest is refused.",
 ["inputs","histories"],"all histories with appends at arbitrary points, repeated appends, no-op appends, appends followed by updates and pruning",
 "The migration feature has no tests.",
 [T,C],[("append_value_set",T),("overwrite cache",C+": new_overwrite")],observe=["returned root, reads, pruning after append"])

prop("C22","Concurrent readers see only complete committed versions",
 "While one thread commits versions to the in-memory store and prunes old ones, any number of reader threads observe a version either as missing or as complete: once a version's root can be read, every read, proof and iteration at that version gives that version's exact content as long as it is not pruned. A reader racing with pruning gets the correct answer or an error, never a wrong answer or a panic.",
 ["schedules","histories"],"all interleavings of commits, prunes and reader operations on several threads",
 "All tests are single-threaded.",
 [M,T],[("single write lock per node batch and per purge",M+": write_node_batch, purge_stale_nodes")],
 state=[("MockTreeStoreInner","nodes, values and stale set behind one RwLock",M)],observe=["reader results under stress with injected delays"])

prop("C23","Results do not depend on build configuration, process or repetition",
 "The same sequence of operations yields byte-identical roots, storage changes, proofs, iteration results and accept/reject decisions in every supported feature configuration (with and without std) and build profile (overflow checks on or off), and in every repetition within and across processes.",
 ["configurations","histories"],"std and no_std builds, debug-checked and optimised builds, repeated runs with different hash-map seeds, over all workloads",
 "CI runs the same tests in several configurations but never compares outputs, and hash-map iteration order differs per process.",
 [C,T,M,"src/lib.rs"],[("std vs hashbrown maps",C),("ordered batches",W)],observe=["trace digests of the same workload in each build"])

prop("C24","The in-memory store is a faithful multi-version store",
 "The in-memory store returns for every node key the node last written, for every key and version bound the newest value at or below that bound (nothing if deleted or absent), finds the rightmost leaf, refuses values that go back in time, duplicate leaves, repeated stale entries and purging by a stale entry whose node does not exist, and refuses node overwrites unless configured to allow them. Purging removes exactly the nodes declared stale at or before the given version and leaves all other nodes and values untouched.",
 ["inputs","histories"],"all sequences of writes, reads and purges against the store interface",
 "The store is only used as a fixture; its own contract is untested.",
 [M,"src/reader.rs"],[("value history search",M+": get_value_option, put_value"),("purge",M+": purge_stale_nodes")],observe=["return values of the store compared with a reference multi-version store"])

prop("C25","A new genesis can be built on top of a pre-genesis state",
 "If storage holds a state at the reserved pre-genesis version, then updates starting at version 0 build on that state: version 0 reads as the pre-genesis map with the updates applied, with matching root and proofs, for any first update including one that changes nothing, and also if an earlier attempt at that genesis crashed and left some of its nodes behind. If there is none, version 0 starts from the empty tree whatever the first update is.",
 ["inputs","histories"],"all pre-genesis maps (empty, single entry, many) and all first updates and continuations",
 "One test covers the choice of the initial root key; no test performs updates on a pre-genesis state.",
 [C,"src/types.rs"],[("pre-genesis root detection",C+": TreeCache::new")],observe=["reads and roots at version 0 and later"])

prop("C26","An update rewrites only the paths it touches and reads only what it needs",
 "The nodes created by an update lie on the paths of the updated keys (or are leaves moved by a split or merge on those paths); all other subtrees are shared with the previous version. Point reads, proofs, positioning an iterator (by key or by index), fetching its next entry and updates access a number of stored nodes bounded by a small multiple of the depths of the paths of the keys concerned (without proofs, only nodes on those paths), independent of how many entries the tree holds.",
 ["inputs","histories"],"all trees and updates; all point queries",
 "No test observes which nodes are read or rewritten.",
 [T,N,C],[("path copying",T+": insert_at*"),("per-node sibling reads",N+": build_sibling")],observe=["read and write log of an instrumented store"])

prop("C27","Batches of changes keep every change and lose none",
 "A node batch holds exactly the nodes and values put into it by construction, insertion, extension and merging, the latest put winning: an inserted node replaces the one held under its key, which is returned; a deletion, an empty value and an absent value stay three different things; it is empty exactly if it holds neither nodes nor values; clearing removes everything; two batches are equal exactly if they hold the same. The reads a storage reader gets for free (a node or value that must exist) return what the storage holds, fail if it holds none or a deletion, and pass the storage's failures on.",
 ["inputs","histories"],"all sequences of batch operations; all contents of a storage",
 "Batches are only built and handed on by the tests; merging, emptiness and conflicts are untested.",
 ["src/writer.rs","src/reader.rs"],[("batch operations","src/writer.rs: NodeBatch"),("derived reads","src/reader.rs: TreeReader::get_node, get_value")],observe=["contents of the batch compared with two maps","results of derived reads over a minimal storage"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError: print("written", len(P))
