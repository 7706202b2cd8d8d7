#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
B='commit_verify/src/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

prop('C01','Every committed protocol can prove its message',
 "For every message set that a multi-protocol commitment tree accepts, the inclusion proof of each protocol verifies that protocol's own message to exactly the tree's commitment id, at the leaf position the tree assigns to the protocol. The proof is the same whether it is taken from the tree, from the full block, from any concealed or merged block in which the protocol is still revealed, or from the list of all known proofs. Asking a block for a protocol it does not reveal fails with an error naming that protocol.",
 ['inputs','histories'],'all message sets, depths, cofactors, protocols, and all sequences of conceal/merge that keep the protocol revealed',
 "tests take proofs for 2..8 random protocols from a full block only and never compare a verified commitment with the tree's",
 [B+'mpc/tree.rs',B+'mpc/block.rs'],
 [('proof extraction','MerkleBlock::into_merkle_proof / to_merkle_proof / into_known_proofs, MerkleTree::into_proofs'),('verification','MerkleProof::convolve, MerkleBlock::with')],
 [('cross_section','revealed leaves and hidden subtree hashes, left to right','mpc/block.rs MerkleBlock')],
 ['strict-encoded proof bytes','MerkleProof::convolve result'])
prop('C02','A commitment opens to at most one message per protocol',
 "Given a multi-protocol commitment id, no proof, protocol id and message verify to it unless the message is the one committed under that protocol. A proof presented with another message, another protocol, or with an altered position, cofactor, depth or path either is rejected with an invalid-proof error that states the expected and the actual leaf position and the tree width, or yields a different commitment id.",
 ['inputs'],'all proofs an adversary can assemble from known hashes, positions, cofactors, and all protocol/message pairs',
 "no test presents a wrong message, protocol or tampered proof to convolve()",
 [B+'mpc/block.rs',B+'mpc/tree.rs'],
 [('position check','MerkleBlock::with'),('position function','protocol_id_pos'),('commitment binds depth, cofactor and root','MerkleConcealed CommitEncode')],
 [('pos','claimed leaf position','MerkleProof')],
 ['MerkleProof::convolve result','MerkleBlock::with result'])
prop('C03','Deterministic collision-free placement of protocols in the tree',
 "Building a tree puts every message at leaf (protocol id as little-endian 256-bit integer) mod (2^depth - cofactor), no two messages share a leaf, and every other leaf is an entropy placeholder. The depth is the smallest one not below the requested minimum, and the cofactor the smallest one at that depth, for which the placement has no collision, trying cofactors 0..=1 at the minimal depth and up to min(500, half the width) at the deeper ones. It fails only for an empty set with zero minimal depth or when no depth up to 31 fits, a source which states no minimal depth has the depth 3, and with fixed entropy the same source always gives the identical tree.",
 ['inputs','configurations'],'all protocol id sets, minimal depths 0..31 and entropy values',
 "tests use random ids and check only sizes and distinct positions for 9 ids; the search order, cofactor bounds and failures are not checked",
 [B+'mpc/tree.rs',B+'mpc/atoms.rs'],
 [('first-fit search','MerkleTree::try_commit'),('position function','protocol_id_pos')],
 [('depth, cofactor, map','tree geometry and leaf assignment','MerkleTree')],
 ['strict-encoded tree bytes','depth()/cofactor()/protocol_id_pos()'])
prop('C04','Concealment hides everything but the chosen leaves, keeps the id',
 "Concealing a block except for a set of revealed protocols keeps exactly those leaves revealed with their original messages, replaces everything else by the smallest possible number of subtree hashes, removes the entropy, and reports the number of nodes hidden or folded; the commitment id and tree parameters do not change. Concealing again with the same set changes nothing. If any requested protocol is not revealed, it fails naming such a protocol and leaves the block as it was.",
 ['inputs','histories'],'all well-formed blocks (raw, partially concealed, merged) at every depth and all requested protocol sets',
 "the only tests of conceal_except on partially revealed blocks are in a file that is not compiled; entropy removal and error atomicity are never checked",
 [B+'mpc/block.rs'],
 [('leaf hiding and folding','MerkleBlock::conceal_except / conceal_other'),('full concealment','Conceal for MerkleBlock')],
 [('cross_section','cut of the tree','MerkleBlock'),('entropy','placeholder seed','MerkleBlock')],
 ['strict-encoded block bytes','known_protocol_ids','to_known_message_map'])
prop('C05','Merging blocks joins exactly what either side reveals',
 "Merging a block or a proof path into another block of the same commitment yields a block with the same commitment id which reveals exactly the union of the leaves revealed by both, with the tree cut at the finer of the two at every place; the result does not depend on the order or grouping of merges, and merging what is already known changes nothing. A block with a different commitment id, or a path that is invalid for its protocol, is rejected with the matching error and leaves the base block unchanged.",
 ['inputs','histories'],'all pairs and sequences of well-formed blocks of one or several trees, at every depth',
 "the single test merges canonical one-leaf blocks of random small trees and checks only the id",
 [B+'mpc/block.rs',B+'merkle.rs'],
 [('two-pointer merge','MerkleBlock::merge_reveal'),('path merge','MerkleBlock::merge_reveal_path'),('subtree tracking','MerkleBuoy')],
 [('cross_section','cut of the tree','MerkleBlock')],
 ['strict-encoded block bytes','merge result'])
prop('C06','All forms of one commitment agree on its identity',
 "The tree, every block derived from it in any state of concealment, its fully concealed summary and every proof opened with its message produce one and the same commitment id, which is the tagged hash of depth, cofactor and Merkle root; the tree's root is the root of its summary. Two trees, two blocks or two proofs of committed messages match exactly when their commitment ids are equal, and geometry getters (width, factored width, leaf positions, depth, cofactor) agree across the forms.",
 ['inputs','histories'],'all sources, depths, concealment states and pairs of forms',
 "tests compare tree and full block ids for up to 9 random messages; matches() is never called",
 [B+'mpc/block.rs',B+'mpc/tree.rs',B+'mpc/mod.rs',B+'mpc/atoms.rs'],
 [('commit_id of each form','CommitEncode derives on MerkleTree, MerkleBlock, MerkleConcealed'),('Proof::matches','impl Proof for MerkleTree, MerkleBlock, MerkleProof')],
 [],['commit_id()','root()','conceal()','matches()'])
prop('C07','Merkle root follows LNPBP-81 for every number of leaves',
 "The Merkle root of any list or set of leaves is the recursive tagged hash that splits the leaves into a first part of ceil(n/2) and the rest, each node committing to its branching kind, depth and the total number of leaves; one leaf is its own root, no leaves give the void node, and an odd branch is a single node. The root depends on every leaf, on their order and number, and not on which size-bounded collection type carries them; a multi-protocol leaf can never be taken for an inner node.",
 ['inputs'],'all leaf sequences of any length and collection type, and all arguments of the node constructors',
 "tests only merklize power-of-two wide trees and never compare a root with an independent value",
 [B+'merkle.rs',B+'mpc/atoms.rs'],
 [('recursion','MerkleHash::merklize / _merklize'),('node encoding','MerkleNode, NodeBranching, Leaf tags'),('leaf iteration','MerkleLeaves impls')],
 [],['MerkleHash::merklize','MerkleHash::void/single/branches','Leaf::commit_id'])
prop('C08','A commitment id hashes exactly the committed parts, in order',
 "The id produced by a commitment encoding is the SHA-256 hash, tagged by the id type's tag, of the concatenated strict encodings of the parts in the order they were committed: a serialized value as itself, an option with its presence byte, a list, set or map with its length prefix and its elements, a hashed value as its 32-byte id, a merklized collection as its root, a concealed value as its concealed form. Two different sequences of parts under the same types therefore never share an id, and the same data always gives the same id.",
 ['inputs','histories'],'all sequences of commit operations, values, collection contents and tags',
 "tests only exercise one serialized value per id; options, collections, hashes and merklized parts are never committed in any test",
 [B+'id.rs',B+'digest.rs'],
 [('engine','CommitEngine::commit_to_*'),('tagging','CommitEngine::new, DigestExt::from_tag'),('CommitId','blanket impl')],
 [('hasher','bytes committed so far','CommitEngine'),('layout','steps taken so far','CommitEngine')],
 ['finish()','commit_id()'])
prop('C09','The commitment layout reports exactly what was committed',
 "The layout reported for a commitment contains one step per committed part, in commit order, each with the kind of step (serialized, hashed, merklized, concealed, list, set, map), the fully qualified type of the committed (element) value, for collections the size bounds and for maps the key type, together with the id type and tag. Its human-readable form states the same steps with the same kinds, subjects, size bounds and map keys and values. Once its layout was looked at or it was marked finished, an engine takes no further part (builds with debug assertions), so no layout which was read misses one.",
 ['inputs','histories'],'all sequences of commit operations',
 "no test looks at a layout",
 [B+'id.rs',B+'vesper.rs'],
 [('layout log','CommitEngine::commit_to_*, into_layout, finish_layout, as_layout'),('layout of a type','CommitmentLayout'),('rendering','CommitLayout::to_vesper')],
 [('layout','steps taken so far','CommitEngine')],
 ['into_layout()','commitment_layout()','to_vesper()'])
prop('C10','Derived commitment encodings follow the declared strategy',
 "A type deriving its commitment encoding commits, under the declared id type's tag, to its own strict encoding (strict), to the encoding of its wrapped inner value (transparent), to the encoding of its concealed form (conceal; concealing a form which is concealed already leaves it as it is) or to the Merkle root of its leaves (merklize), and to nothing else, for structs, tuples, enums and generic types alike. Values with equal strategy-encodings have equal ids; values with different ones have different ids.",
 ['inputs','programs'],'all derivable type shapes, strategies and values',
 "tests pin one or two ids per strategy; merklize and generics have no test",
 ['commit_verify/derive/src/derive.rs','commit_verify/derive/src/params.rs',B+'id.rs'],
 [('code generation','CommitDerive::derive_encode'),('attributes','ContainerAttr, StrategyAttr')],
 [],['commit_id() and layout of derived types'])
prop('C11','Commit-verify accepts exactly the committed message',
 "Verifying a commitment against a message succeeds if and only if committing to that message now gives an equal commitment; it reports an invalid commitment when they differ, and for the fallible scheme an invalid message when no commitment can be made to it. In particular a multi-protocol tree verifies against a source exactly when that source, with its entropy, builds the same tree.",
 ['inputs'],'all implementations of the scheme, commitments and messages',
 "tests use a fixed list of ten messages; the fallible scheme's verification and its error kinds are never exercised",
 [B+'commit.rs',B+'mpc/tree.rs'],
 [('default verification','CommitVerify::verify, TryCommitVerify::verify')],[],['verify() result'])
prop('C12','Embedded commitments verify only against their own proof and data',
 "Verifying an embedded commitment restores the original container from the proof, commits to the message again and succeeds if and only if both the regenerated proof is equivalent to the given one and the regenerated container is equivalent to the verified one. Each failure is reported by its documented kind, in this order: whatever restoring reports, an invalid message when committing fails, a proof mismatch, a commitment mismatch; the verified container, message and proof are the ones that were passed in.",
 ['inputs','programs'],'all implementations (container, proof, restore, embed, equivalence) and all containers, messages and proofs',
 "the test container ignores everything but happy paths and wrong messages: no failing restore, failing commit or foreign proof is tried",
 [B+'embed.rs'],
 [('default verification','EmbedCommitVerify::verify'),('equivalence','VerifyEq')],[],['verify() result','calls made to the implementation'])
prop('C13','Convolved commitments verify only against their own proof and data',
 "Verifying a convolved commitment restores the source from the proof and the commitment, convolves it again with the supplement taken from the proof and the message, and succeeds if and only if both the regenerated proof and the regenerated commitment are equivalent to the given ones. A message that can not be committed to, a different proof and a different commitment are reported as such, in this order.",
 ['inputs','programs'],'all implementations (source, proof, supplement, convolve, equivalence) and all commitments, messages and proofs',
 "the test scheme never fails to commit and never regenerates a different proof",
 [B+'convolve.rs'],
 [('default verification','ConvolveCommitProof::verify')],[],['verify() result','calls made to the implementation'])
prop('C14','A seal witness verifies only if it closes every seal over the message',
 "Verification of a witness for a list of seals and a message succeeds if and only if every one of the seals is included in the witness for that message and the published witness contains the commitment to what the client-side witness derives from that message. Otherwise it reports the first failing condition: the first seal (in order) that is not included together with the publication id, the client-side error, or the published-side error; checking one seal is the same as checking a list of one, and without a client-side witness the message itself is what must be published.",
 ['inputs','programs'],'all seal protocols, seal lists (also empty and repeating), messages and witnesses',
 "the crate has no tests at all",
 ['single_use_seals/src/lib.rs'],
 [('verification','SealWitness::verify_seals_closing / verify_seal_closing'),('no client witness','NoWitness'),('errors','SealError')],
 [],['verify_seals_closing result','calls made to the seal protocol'])
prop('C15','Client-side validation visits everything and drops no report',
 "Validation first checks the data's own consistency and then, item by item in iteration order, asks the resolver exactly once for each seal of the item in order and then checks the item's consistency. It never stops early, and the resulting status contains every issue, failure, warning and info produced, each exactly once and in the order of production, and nothing else.",
 ['inputs','histories','fault_sequences'],'all data hierarchies, all resolver behaviours (also stateful and failing at any call) and all consistency reports',
 "the crate has no tests at all",
 ['src/api.rs'],
 [('traversal','ClientSideValidate::client_side_validate'),('accumulation','Status += Status, Status::add_seal_issue')],
 [('Status','four report lists','src/api.rs')],['returned Status','calls made to resolver and items'])
prop('C16','Validity verdict and status accumulation lose nothing',
 "A status is invalid if and only if it contains a failure, has seal issues if and only if it contains no failure but a seal issue, and is valid otherwise; warnings and infos never matter. Adding an entry or another status appends to the matching list, keeps all earlier entries and their order and touches no other list, so adding reports never turns an invalid or seal-issue status into a better one.",
 ['histories'],'all sequences of constructions, additions and merges of statuses',
 "the crate has no tests at all",
 ['src/api.rs'],
 [('verdict','Status::validity'),('accumulation','AddAssign, FromIterator, from_failure, add_*')],
 [('Status','four report lists','src/api.rs')],['Status fields','validity()'])
prop('C17','Reserved bytes accept only their reserved value',
 "Decoding a reserved field succeeds if and only if every byte equals the reserved value, encoding writes exactly these bytes, and a non-conforming value is an error (never silently replaced or accepted); constructing one from a non-conforming array is refused. Its commitment is to exactly these bytes.",
 ['inputs'],'all field lengths, reserved values and byte strings',
 "no test touches reserved bytes except for the type library id",
 [B+'lib.rs'],
 [('decoding','StrictDecode for ReservedBytes'),('construction','From<[u8; LEN]>, Default'),('serde','Serialize/Deserialize')],
 [],['strict_decode result','strict_encode bytes'])
prop('C18','Tagged digests and length-prefixed input are exact and unambiguous',
 "A digest created from a tag starts with the hash of the tag absorbed twice, for both supported hash functions, and raw input adds just the data. Length-prefixed input adds the length as little-endian integer of the smallest of 1, 2, 3 or 4 bytes that fits the declared maximum, then the data, so that different sequences of inputs that respect the declared maximum never produce the same digest.",
 ['inputs','histories'],'all tags, sequences of inputs and declared maximums',
 "tests never check a digest against an independent value and use only one declared maximum",
 [B+'digest.rs'],
 [('tagging','DigestExt::from_tag'),('length prefix','DigestExt::input_with_len')],[('engine','bytes absorbed','Sha256/Ripemd160')],['finish()'])
prop('C19','The depth buoy tracks completed subtrees exactly',
 "After any sequence of node depths is pushed, the level of the buoy is the depth of the last not yet paired subtree once all adjacent subtrees of equal depth have been joined into their parent, repeatedly; a push reports surfacing exactly when the whole content collapses into one subtree. Depth-zero pushes are ignored.",
 ['histories'],'all sequences of pushed depths and start depths',
 "MerkleBuoy has no direct test",
 [B+'merkle.rs'],
 [('cascade','MerkleBuoy::push'),('level','MerkleBuoy::level')],[('stack','unpaired subtree depths','MerkleBuoy')],['push() result','level()'])
prop('C20','Checking untrusted proofs and blocks never crashes',
 "Any proof or block that the library's decoder accepts can be inspected, verified against any protocol and message, converted and merged into an honest block without a panic: bad data leads to an error value or to a different commitment id. The same holds for building a tree from any message set and fixed entropy.",
 ['inputs','fault_sequences'],'all decodable byte strings and all protocol/message pairs',
 "tests only use proofs and blocks which the library itself has just produced",
 [B+'mpc/block.rs',B+'mpc/tree.rs'],
 [('position check','MerkleBlock::with'),('geometry getters','width_limit, factored_width, protocol_id_pos'),('decoding','StrictDecode derives')],
 [],['absence of panics in every operation on decoded data'])
prop('C21','Wire encoding is canonical and lossless',
 "Trees, blocks, proofs, leaves, nodes, ids and concealed summaries are encoded exactly as the published type library defines (field order, integer width and endianness, union tags, length prefixes), and decoding is the inverse: it accepts a byte string if and only if it is the encoding of some value, and returns this value. Truncated or overlong data, unknown tags, out of range depths and unsorted or duplicate map keys are errors.",
 ['inputs'],'all values reachable through the API and all (also mutated) byte strings',
 "the type library id test covers type definitions only; no test encodes and decodes a value",
 [B+'mpc/block.rs',B+'mpc/tree.rs',B+'mpc/atoms.rs',B+'merkle.rs',B+'id.rs'],
 [('encoding','StrictEncode/StrictDecode derives and attributes')],[],['strict-encoded bytes','strict_decode result'])
prop('C22','Commitments without fixed entropy are freshly blinded',
 "When the source gives no entropy, every tree is built with a fresh uniformly random 64-bit placeholder seed, so two commitments to the same messages differ and unrevealed placeholders can not be guessed; when it gives one, exactly that value is used. Every placeholder leaf hashes the seed together with its own position, and blocks that were concealed do not carry the seed.",
 ['inputs','histories'],'all sources and repeated commitments',
 "one test overwrites the entropy field by hand; freshness of generated entropy and the seed-position binding of placeholders are never checked",
 [B+'mpc/tree.rs',B+'mpc/atoms.rs',B+'mpc/block.rs'],
 [('entropy choice','MerkleTree::try_commit'),('placeholders','Leaf::entropy, MerkleTree::root, From<&MerkleTree> for MerkleBlock')],
 [('entropy','placeholder seed','MerkleTree, MerkleBlock')],['entropy()','strict-encoded tree and block bytes'])
prop('C23','End to end: an honest transfer validates, a double spend never does',
 "In a system of issuers, a publication medium and verifiers built from the library's parts (multi-protocol commitments as client-side witness, seals closed by publications, validation with a resolver), every item honestly committed and published validates at every verifier who got its proof, whatever was concealed or merged on the way. No reordering, withholding, re-use or tampering of proofs, witnesses or seals makes two different messages of one protocol validate under the same seal, or a history with an unclosed seal valid.",
 ['histories','fault_sequences','schedules'],'all interleavings of issuing, closing, publishing, concealing, merging, transferring and adversarial tampering',
 "no test combines the crates; each crate's tests (if any) use its own types in isolation",
 ['src/api.rs','single_use_seals/src/lib.rs',B+'mpc/block.rs',B+'mpc/tree.rs'],
 [('validation','ClientSideValidate::client_side_validate'),('seal verification','SealWitness::verify_seals_closing'),('client witness','MerkleProof::convolve')],
 [('medium','publications and the commitments they carry','harness implementation of the seal traits')],['validity()','verify_seals_closing result'])
prop('C24','Human-readable serialization is lossless',
 "Serializing any id, block, proof, summary, status or seal witness with serde and reading it back gives an equal value with the same strict encoding and commitment id, and the hexadecimal text form of every 32-byte id type reads back to the same id; text or arrays of a wrong length are rejected.",
 ['inputs'],'all values reachable through the API, all id types and all texts',
 "no test serializes anything with serde or parses an id",
 [B+'mpc/atoms.rs',B+'mpc/block.rs',B+'merkle.rs',B+'id.rs','src/api.rs','single_use_seals/src/lib.rs'],
 [('serde derives and attributes','all data types'),('text forms','Wrapper Display/FromStr, copy_from_slice')],[],['serde_json round trip','Display/FromStr'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
