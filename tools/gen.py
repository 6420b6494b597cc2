#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
        technique=technique, note=note))

BLS = ["bls/bls.go"]
prop("C01", "Honest BLS signatures verify and are the scheme's signatures",
 "For every key pair and every message, a signature made with the key pair verifies under it (plain multisignature form and rogue-key-unsafe form), also after being copied or encoded and decoded. The signature is a deterministic function of key and message equal to the scheme's formula (secret times message digest times the first group's generator, times the digest of the encoded public key in the multisignature form). Key generation takes its entropy only from the reader it is given (the system's source when given none), and fails when that reader fails.",
 ["inputs"], "all key pairs, messages of any length and content, entropy readers",
 "The tests sign one random 32-byte message or one literal with fresh keys; they never vary message length or content, never compare with the formula and never control the entropy.",
 BLS, [("Sign, UnsafeSign, apkSigWrap, h0, h1", "bls/bls.go"), ("GenKeyPair", "bls/bls.go"), ("verify", "bls/bls.go")],
 ["Sign", "UnsafeSign", "Verify", "VerifyUnsafe", "GenKeyPair", "Signature.Copy"],
 "runtime reference-model monitor (independent recomputation in bn256) over generated sign/verify executions",
 "Held on the executions observed; trusts bn256's group arithmetic and pairing, and SHA3 of the Go standard library.")
prop("C02", "BLS verification accepts only the signed message, key and signature",
 "Verification of a single signature (either form) succeeds exactly when the signature is the one the scheme defines for that key and that message: a changed message, a different key, the other signature form, or any other point of the group as signature is rejected. The verdict does not depend on how the three values were obtained (fresh, copied, decoded, decompressed) and verification never panics on decoded values.",
 ["inputs"], "all keys, messages and signature points, including related ones (multiples, negations, sums, identity)",
 "The tests try one random other message and one random other key; a verifier that ignores part of a message, a key or a signature passes them.",
 BLS, [("verify (pairing equation)", "bls/bls.go"), ("h0", "bls/bls.go")], ["Verify", "VerifyUnsafe"],
 "runtime monitor with an exponent-model oracle (known discrete logs decide the expected verdict)",
 "Held on the executions observed; one recorded known finding (message hash has a known discrete logarithm, KF1).")
prop("C03", "BLS aggregation is order-independent and binds the exact multiset of signers",
 "Aggregating keys and signatures of the same multiset of signers of one message gives a valid pair whatever the order, grouping or API used (list, one by one, from bytes, from an unsafe signature), counting a signer as often as it was added. The aggregated key is the sum of each key weighted by the digest of its encoding, so plain sums of keys, rogue keys and aggregates over any other multiset or message do not verify. Aggregation changes only its receiver.",
 ["inputs", "histories"], "all multisets of signers, aggregation orders and groupings, and interleavings of the aggregation APIs",
 "The tests aggregate two distinct signers in one order; repeated signers, larger sets, other groupings, rogue keys against the safe form and partial overlap are never tried.",
 BLS, [("AggregateApk, Apk.Aggregate, Apk.AggregateBytes, NewApk, pkt", "bls/bls.go"), ("Signature.Aggregate, AggregateBytes, Add", "bls/bls.go"), ("PublicKey.Aggregate, UnsafeAggregate, UnsafeBatch", "bls/bls.go")],
 ["Verify", "Apk.Marshal", "Signature.Marshal"],
 "runtime monitor with an exponent-model oracle over random aggregation histories",
 "Held on the histories observed; trusts bn256 arithmetic.")
prop("C04", "BLS batch verification accepts exactly the complete batch",
 "Verifying a batch of keys and messages against one aggregated signature (aggregated keys, unsafe signatures, compressed signature) succeeds exactly when every key is paired with its message and the signature is the sum of the individual ones. Batches that are empty, have a different number of keys and messages, repeat a message at any two positions when repetition is not allowed, or have a missing, extra, swapped or altered entry are rejected with an error and without panicking.",
 ["inputs"], "all batch sizes, pairings, duplicate positions and alterations of one entry",
 "The tests verify one batch of two; no negative batch is tried at all.",
 BLS, [("verifyBatch, distinct", "bls/bls.go"), ("VerifyBatch, VerifyUnsafeBatch, VerifyCompressed", "bls/bls.go")],
 ["VerifyBatch", "VerifyUnsafeBatch", "VerifyCompressed"],
 "runtime monitor with an exponent-model oracle over generated batches (all pairs of duplicate positions, each entry altered)",
 "Held on the batches observed.")
prop("C05", "BLS encodings round-trip, are canonical, and hostile bytes are rejected",
 "Every key, aggregated key and signature (the identity excepted) decodes from each of its encodings (binary, text, compressed) to an equal value with the same encoding. Any other byte string - truncated, extended, off the curve, outside the prime-order group, the identity as a key, a coordinate not reduced, an invalid compression flag - is rejected with an error, never with a panic, and leaves the receiver as it was. An encoding identifies its value: different values have different encodings.",
 ["inputs"], "all byte strings offered to a decoder and all values offered to an encoder",
 "The tests round-trip one random key and one signature and never offer invalid bytes.",
 BLS, [("PublicKey.Marshal/Unmarshal/MarshalText/UnmarshalText, UnmarshalPk, UnmarshalApk", "bls/bls.go"), ("Signature/UnsafeSignature Marshal/Unmarshal/Compress/Decompress", "bls/bls.go")],
 ["UnmarshalPk", "UnmarshalApk", "UnmarshalSignature", "Decompress", "AggregateBytes"],
 "runtime monitor: round-trip and canonicity oracle under hostile, mutated and structured byte strings",
 "Held on the byte strings observed; off-subgroup points are constructed by the harness.")

RB = ["ringsig/blsag/blsag.go"]
prop("C06", "Ring signatures of honest signers verify over exactly the intended ring",
 "For every message, every set of decoy keys (any size, including none, duplicates and the signer's own key) and every secret key, the ring signature verifies for that message. Its ring is exactly the decoys in their given order with the signer's public key inserted once, with one response per member and the key image of the secret key, and it satisfies the published scheme's verification equations.",
 ["inputs"], "all messages, ring sizes and secret keys, and all positions the signer may get",
 "The tests use a ring of six random keys and short messages; they never check that the ring is the one asked for as a multiset, nor rings of one or of large size.",
 RB, [("Sign", "ringsig/blsag/blsag.go"), ("Verify, computeCLR", "ringsig/blsag/blsag.go")], ["blsag.Sign", "blsag.Verify"],
 "runtime monitor: independent reference verifier and ring-content oracle on each produced signature",
 "Held on the signatures observed; trusts ristretto arithmetic.")
prop("C07", "Ring signature verification rejects everything that was not signed",
 "Verification of a ring signature succeeds exactly when the challenge chain of the scheme closes over the message, the ring in its order, the responses and the key image. Changing any bit of the message, any ring member, any response, the key image or the challenge, reordering or resizing the ring, or mixing parts of two valid signatures makes it fail, and a malformed signature is rejected without panicking.",
 ["inputs"], "all alterations of valid signatures and all malformed signatures",
 "The tests only try a wrong message of another length; ring members, responses, key image and shapes are never altered.",
 RB, [("Verify, computeCLR", "ringsig/blsag/blsag.go")], ["blsag.Verify"],
 "runtime monitor: differential oracle (independent verifier) over mutated and crafted signatures",
 "Held on the alterations observed.")
ML = ["mlsag/mlsag.go", "mlsag/dualkey.go", "mlsag/proof.go", "mlsag/pubkeys.go", "mlsag/responses.go"]
prop("C08", "Linkable multi-key ring proofs of honest provers verify",
 "For every message, every non-zero primary key and commitment-to-zero key, and every set of decoy pairs (any number, including none), the dual-key proof succeeds, returns the key image of the primary key, and verifies with it - also by a verifier who received the encoded signature and knows the ring and the message. The ring is exactly the decoys, with the offset subtracted from their second keys when one was subtracted, plus the prover's pair once. A zero key, or decoys with a different number of keys, is refused with an error.",
 ["inputs"], "all keys, ring sizes, messages and offsets",
 "The tests prove one ring of 20 without looking at the verdict of verification for the dual-key form, and never verify a decoded signature.",
 ML, [("DualKey.Prove, Proof.prove", "mlsag/dualkey.go, mlsag/mlsag.go"), ("SubCommToZero, AddDecoy", "mlsag/dualkey.go, mlsag/proof.go")],
 ["DualKey.Prove", "Signature.Verify"],
 "runtime monitor: independent reference verifier and ring-content oracle on each produced proof",
 "Held on the proofs observed; trusts ristretto arithmetic.")
prop("C09", "Multi-key ring proof verification rejects everything that was not proven",
 "Verification succeeds exactly when the challenge chain of the scheme closes over the message, all key vectors in their order, all responses and the given key images; it reports an error whenever it reports failure. Changing the message, any key of any member, any response, the challenge or any key image, using the key image of another key, dropping or adding key images, or reordering or resizing the ring makes it fail, and malformed signatures are rejected without panicking.",
 ["inputs"], "all alterations of valid proofs over any number of members, keys and key images, and all malformed signatures",
 "The tests only try one wrong message.",
 ML, [("Signature.Verify, generateChallenge", "mlsag/mlsag.go")], ["mlsag.Signature.Verify"],
 "runtime monitor: differential oracle (independent prover and verifier) over mutated and crafted signatures",
 "Held on the alterations observed.")
prop("C10", "Key images link exactly the signatures of the same secret key",
 "Two ring signatures or proofs carry the same key image exactly when they were made with the same secret key, whatever the message, ring, position, prover object or scheme; the key image is the secret times the hash-to-group of the public key. Verification does not accept a signature together with any other key image, so one secret key has one key image.",
 ["inputs", "histories"], "all pairs of signatures made by the same or by different keys",
 "No test compares key images of two signatures.",
 RB + ["mlsag/mlsag.go"], [("Sign (I)", "ringsig/blsag/blsag.go"), ("CalculateKeyImage, calculateKeyImages", "mlsag/mlsag.go")],
 ["RingSignature.I", "DualKey.Prove", "CalculateKeyImage"],
 "runtime monitor over recorded signing histories: link relation versus ground truth, and substituted images",
 "Held on the histories observed.")
prop("C11", "Ring signatures hide the signer's position and never reuse a nonce",
 "The signer's position in the ring is uniform and independent between signatures, and all secret randomness (position, nonces, decoy responses) comes from the system's cryptographic random source. The responses of signer and decoys are fresh full-range scalars: no response, nonce or challenge repeats across signatures, so that neither the position nor the secret key can be computed from any history of signatures.",
 ["inputs", "histories"], "all rings, positions and sequences of signatures by one key",
 "The tests check neither the distribution of positions nor the relation between several signatures.",
 RB + ["mlsag/proof.go", "mlsag/mlsag.go"], [("randomIndex, alpha and s values", "ringsig/blsag/blsag.go"), ("shuffleSet, generateNonces, generateResponses", "mlsag/proof.go, mlsag/mlsag.go")],
 ["blsag.Sign", "DualKey.Prove"],
 "runtime statistical monitor over signing histories (position uniformity, nonce recovery and repetition, response bits) and entropy-source substitution",
 "Statistical: false-alarm probability below 1e-9 per statistic; sees only statistics it computes.")
prop("C12", "Multi-key ring proof encodings round-trip and hostile bytes are rejected",
 "Every signature decodes from its encoding (with or without the keys) to an equal signature with the same encoding, whatever chunks the reader delivers, and a write failure at any byte is reported. Every truncation, every point or scalar that is not canonically encoded and every inconsistent count is rejected with an error, without panicking and without allocating more than a small multiple of the bytes supplied. Equality holds exactly between signatures with the same challenge, responses and (when included) keys.",
 ["inputs", "fault_sequences"], "all signatures, byte strings, reader chunkings and write faults",
 "The tests round-trip one signature through a buffer and never offer invalid bytes or failing streams.",
 ML, [("Signature.Encode/Decode/Equals", "mlsag/mlsag.go"), ("PubKeys and Responses Encode/Decode/Equals", "mlsag/pubkeys.go, mlsag/responses.go")],
 ["Signature.Encode", "Signature.Decode", "Signature.Equals", "PubKeys.Decode", "Responses.Decode"],
 "runtime monitor: round-trip/canonicity oracle with injected stream faults and allocation accounting",
 "Held on the byte strings and fault points observed.")
prop("C13", "Issued ring proofs and callers' keys are unaffected by later use of the prover",
 "A signature, once returned, keeps its encoding and its verdict whatever is done afterwards with the prover that made it (adding decoys, subtracting an offset, changing keys or message, proving again, also after a failed attempt) or with the slices passed in. Each proof made by a reused prover is valid for the message, keys and decoys current at that time, with the prover's pair in the ring exactly once. The prover never modifies the decoys its caller still holds.",
 ["histories"], "all sequences of operations on one prover object and its inputs",
 "The tests use each prover once (one reuses it but never verifies).",
 ML, [("Proof state: decoys, signer keys, secrets", "mlsag/proof.go"), ("DualKey.Prove, SubCommToZero, SetMsg", "mlsag/dualkey.go")],
 ["DualKey.Prove", "Signature.Verify", "Signature.Encode"],
 "runtime monitor over random operation histories against a model of the prover's state",
 "Held on the histories observed.")

RP = ["rangeproof/rangeproof.go", "rangeproof/poly.go", "rangeproof/bitCommitment.go", "rangeproof/debug.go"]
prop("C14", "Range proofs of in-range values are always produced and verify",
 "For every list of 1 to 16 values in [0, 2^64), proving succeeds in normal and in debug mode, and the proof verifies and satisfies the published protocol's equations. Its commitments open to the values in order, then to zeros up to the next power of two. An empty list or more than 16 values is refused with an error.",
 ["inputs"], "all lists of 1 to 16 values, boundary values included, both modes",
 "The tests prove three or four random 63-bit values; the upper half of the range, boundary values, other counts and the openings are never tried.",
 RP, [("Prove", "rangeproof/rangeproof.go"), ("BitCommit", "rangeproof/bitCommitment.go"), ("computePoly, computeDelta, sumZMTwoN", "rangeproof/poly.go")],
 ["rangeproof.Prove", "rangeproof.Verify"],
 "runtime monitor: independent reference verifier and opening oracle on each produced proof",
 "Held on the proofs observed; trusts ristretto arithmetic.")
prop("C15", "Range proof verification rejects false statements and altered proofs",
 "Verification succeeds exactly when the published protocol's equations hold for the commitments and proof, with challenges that bind every commitment and every earlier message of the prover (those of the inner-product rounds: all rounds so far). So no proof is accepted for a commitment to a value outside [0, 2^64), for other commitments than those proven (changed, reordered, added, removed), or with any of its elements altered - also when several elements are altered consistently, or replaced by values that are no group elements; rejected proofs give an error and never a panic.",
 ["inputs"], "all proofs: honest, altered element by element or consistently, made by cheating provers, malformed",
 "The tests never verify an invalid proof: a verifier that always accepts passes them.",
 RP + ["rangeproof/innerproduct/innerproduct.go", "rangeproof/fiatshamir/fiatshamir.go"],
 [("Verify, megacheckWithC", "rangeproof/rangeproof.go"), ("VerifScalars", "rangeproof/innerproduct/innerproduct.go"), ("computeDelta", "rangeproof/poly.go")],
 ["rangeproof.Verify", "Proof.Decode"],
 "runtime monitor: differential oracle (independent verifier) over tampered proofs and an instrumented cheating prover",
 "Held on the proofs observed; completeness of the attack list is not claimed.")
prop("C16", "A range proof's verdict depends only on the proof",
 "Whether a proof verifies depends on nothing but the proof and its commitments: not on which proofs were made or verified before in the process, with how many values, whether they failed, nor on the order of calls or on repetition. In particular a process that never proved anything gives the same verdicts.",
 ["histories", "schedules"], "all histories of proving and verifying with different numbers of values, and fresh processes",
 "Each test proves and verifies once with one number of values in one process.",
 RP, [("number of values per proof", "rangeproof/rangeproof.go")], ["rangeproof.Prove", "rangeproof.Verify"],
 "runtime monitor over random prove/verify/fail histories compared with verdicts of fresh processes",
 "Held on the histories observed.")
prop("C17", "Range proofs and commitments use fresh full-range blinding",
 "Every commitment, and every blinded element of a range proof, is randomised with fresh full-range scalars from the system's cryptographic random source: proving the same values twice shares no element, no blinding factor repeats within a proof or across a history of proofs, and commitments to equal values (padding included) differ. Together, no element of a proof reveals or depends deterministically on the values.",
 ["inputs", "histories"], "all values and sequences of proofs and commitments",
 "No test compares two proofs or looks at blinding factors.",
 RP + ["rangeproof/pedersen/pedersen.go"], [("CommitToScalar, CommitToVectors blinders", "rangeproof/pedersen/pedersen.go"), ("computeS", "rangeproof/rangeproof.go")],
 ["rangeproof.Prove", "Pedersen.CommitToScalar", "Pedersen.CommitToVectors"],
 "runtime statistical and history monitor (element repetition, blinder bits, known-witness recovery of blinding terms, entropy-source substitution)",
 "Statistical: false-alarm probability below 1e-9 per statistic.")
prop("C18", "Range proof encodings round-trip and hostile bytes are rejected",
 "Every proof decodes from its encoding (with or without commitments) to an equal proof with the same encoding and verdict, whatever chunks the reader delivers, and a write failure at any byte is reported. Every truncation (one that drops whole trailing rounds of the inner-product part may decode, but then does not verify), every point or scalar that is not canonically encoded, every invalid point and every inconsistent length is rejected with an error, without panicking and without allocating more than a small multiple of the bytes supplied. Equality holds exactly between proofs with the same elements, inner-product part included, and (when included) the same commitments.",
 ["inputs", "fault_sequences"], "all proofs, byte strings, reader chunkings and write faults",
 "The tests round-trip one proof without its commitments and compare with an equality that ignores part of it.",
 RP + ["rangeproof/innerproduct/innerproduct.go", "rangeproof/pedersen/pedersen.go"],
 [("Proof.Encode/Decode/Equals", "rangeproof/rangeproof.go"), ("innerproduct Proof.Encode/Decode/Equals", "rangeproof/innerproduct/innerproduct.go"), ("EncodeCommitments/DecodeCommitments", "rangeproof/pedersen/pedersen.go")],
 ["Proof.Encode", "Proof.Decode", "Proof.Equals", "DecodeCommitments"],
 "runtime monitor: round-trip/canonicity oracle with injected stream faults and allocation accounting",
 "Held on the byte strings and fault points observed.")
prop("C19", "Pedersen commitments open as specified over independent generators",
 "A commitment to a scalar or to vectors equals the blinding factor times the blinding base plus the committed scalars times their generators, for every number and length of vectors and whatever generators were computed or cleared before; commitments are additively homomorphic and equality follows value and blinding factor. Generators are a deterministic chain derived from the seed bytes alone: the same however many are computed at a time, pairwise distinct, and different for different seeds.",
 ["inputs", "histories"], "all scalars, vectors, seeds and sequences of generator operations",
 "The tests recompute one scalar commitment and one or two short vectors, and compute generators in one step.",
 ["rangeproof/pedersen/pedersen.go", "rangeproof/generators/generator.go"],
 [("CommitToScalar, CommitToVectors, commitToScalars", "rangeproof/pedersen/pedersen.go"), ("Generator.Compute, Iterate, Clear", "rangeproof/generators/generator.go")],
 ["Pedersen.CommitToScalar", "Pedersen.CommitToVectors", "Generator.Bases"],
 "runtime reference-model monitor over generated commitments and generator histories",
 "Held on the executions observed.")
prop("C20", "Inner-product proofs are complete and sound",
 "For every power-of-two size and all vectors, the inner-product proof is produced and verifies against the committed point and inner product; the prover does not change its inputs. Verification fails for any other point, altered proof element, scaling factors or generators, and for a point whose claimed inner product is not that of the committed vectors. Sizes that are no power of two, mismatched lengths and malformed proofs are refused without panicking.",
 ["inputs"], "all sizes, vectors (zeros, equal, extreme scalars), alterations and shapes",
 "The tests verify random vectors only, and never an invalid proof or shape.",
 ["rangeproof/innerproduct/innerproduct.go"], [("Generate", "rangeproof/innerproduct/innerproduct.go"), ("VerifScalars, Verify", "rangeproof/innerproduct/innerproduct.go")],
 ["innerproduct.Generate", "innerproduct.Proof.Verify"],
 "runtime monitor: differential oracle (independent recursive verifier and prover) over generated and altered proofs",
 "Held on the executions observed.")
prop("C21", "Vector algebra is exact modulo the group order for every operand",
 "Every vector operation (sum, difference, negation, products, powers, sums of powers, multi-exponentiation, splitting) returns exactly the result of arithmetic modulo the group order, in new memory where it computes, for all lengths including zero and one and all scalars including zero, one and minus one. Operands of different or insufficient length are refused with an error.",
 ["inputs"], "all vectors, lengths and scalars",
 "The tests use one length and small operands.",
 ["rangeproof/vector/vector.go"], [("Add, Sub, Neg, Hadamard, InnerProduct, ScalarPowers, ScalarPowersSum, Exp, Split*", "rangeproof/vector/vector.go")],
 ["vector.*"],
 "runtime reference-model monitor (big-integer arithmetic) over generated operands",
 "Held on the operands observed.")
prop("C22", "Challenge transcripts depend on exactly the bytes appended, in order",
 "The transcript holds exactly the concatenation, in order, of everything appended since creation or the last clear, however the bytes were split over calls, and whatever the caller does with its slices afterwards. The challenge is the wide reduction of the SHA-512 digest of that content, so any changed, missing, added or reordered byte changes it, and reading the transcript or a challenge never changes later ones.",
 ["inputs", "histories"], "all sequences of append, clear, read and derive operations",
 "The tests append one or two short values.",
 ["rangeproof/fiatshamir/fiatshamir.go"], [("HashCacher.Append/Result/Clear/Derive", "rangeproof/fiatshamir/fiatshamir.go")],
 ["HashCacher.Result", "HashCacher.Derive"],
 "runtime monitor over random operation histories against a byte-string model and independent reduction",
 "Held on the histories observed.")
MT = ["merkletree/merkletree.go"]
prop("C23", "The Merkle root is a deterministic function of all leaves in order",
 "For every non-empty list of payloads the tree is built, its root equals the published pairing rule (SHA3-256 of left and right, last node paired with itself on odd levels) over the payload hashes in order, and every node's links and hash are consistent. Changing, swapping, adding or removing a payload (other than repeating the last one where the pairing rule already repeats it) changes the root. Rebuilding gives the same tree as building anew.",
 ["inputs", "histories"], "all numbers and contents of payloads, and sequences of rebuilds",
 "The tests build trees of a few fixed literal contents.",
 MT, [("create, createIntermediate", "merkletree/merkletree.go"), ("RebuildTree, RebuildTreeUsing", "merkletree/merkletree.go")],
 ["NewTree", "Tree.MerkleRoot", "Tree.Leaves"],
 "runtime monitor: structural walk and independent root computation for every size up to a bound",
 "Held on the trees observed.")
prop("C24", "Merkle verification detects every inconsistency it claims to detect",
 "An intact tree verifies, and every payload it was built from is found in it, while payloads it does not contain are not found. After changing any leaf's payload, swapping leaves, or changing the reported root, whole-tree verification fails; after changing the stored hash of any inner node on a payload's path, or of any inner node directly below one beside that path, or the payload beside it, looking up that payload reports it as not verified. Errors of payload hashing are reported.",
 ["inputs", "histories", "fault_sequences"], "all trees, positions of tampering and failing payloads",
 "The tests corrupt the root of a few fixed small trees.",
 MT, [("VerifyTree, VerifyNode", "merkletree/merkletree.go"), ("VerifyContent, CalculateNodeHash", "merkletree/merkletree.go")],
 ["VerifyTree", "Tree.VerifyContent"],
 "runtime monitor: exhaustive single-point tampering of trees of many sizes with a path oracle",
 "Held on the trees and tamper points observed.")
prop("C25", "Failed Merkle operations change nothing",
 "When building or rebuilding fails (no payloads, or a payload whose hash fails, at any position and at any call), an error is returned, no tree is returned by the constructor, and an existing tree keeps its root, leaves and verdicts unchanged and stays usable. Verification and lookup never modify the tree, and a failure during them is reported as an error and not as a verdict.",
 ["fault_sequences", "histories"], "all positions and times of payload hashing failures, and operations afterwards",
 "The tests have no failing payloads.",
 MT, [("create, RebuildTreeUsing", "merkletree/merkletree.go")], ["NewTree", "RebuildTree", "RebuildTreeUsing", "VerifyTree", "VerifyContent"],
 "runtime monitor: fault injection at every payload call with whole-tree snapshots",
 "Held on the fault points observed.")
prop("C26", "Digests, checksums and entropy are exact for every input",
 "Each digest function returns the standard digest of its whole input, for every length and content, leaves the input unchanged, and returns fresh memory; the generic form hashes with the given hash state and reports its write error. The checksum is the first four bytes (big endian) of the 64-bit hash, and comparison succeeds exactly for it. Requested entropy has exactly the requested length, comes whole from the system's random source and does not repeat.",
 ["inputs", "fault_sequences"], "all inputs, lengths (block boundaries included), hash states and entropy sizes",
 "The tests check lengths and a literal or two.",
 ["hash/hash.go"], [("Sha3256, Sha3512, Blake2b256, Blake2b512, Xxhash, PerformHash", "hash/hash.go"), ("Checksum, CompareChecksum, RandEntropy", "hash/hash.go")],
 ["hash.*"],
 "runtime reference-model monitor (independent SHA3, BLAKE2b and XXH64) over generated inputs",
 "Held on the inputs observed; SHA3 reference is the Go standard library, BLAKE2b and XXH64 references are written in the harness.")
ALL = ["bls/bls.go", "ringsig/blsag/blsag.go", "mlsag/mlsag.go", "rangeproof/rangeproof.go", "merkletree/merkletree.go", "hash/hash.go"]
prop("C27", "Concurrent use of shared keys, signatures and proofs is race-free",
 "Independent operations, and operations that only read shared keys, signatures, proofs, trees, commitments or messages (signing, verifying, encoding, copying, comparing, proving, looking up), can run in parallel without data races, and each gives the result it gives alone.",
 ["schedules"], "all interleavings of reading and independent operations from several goroutines",
 "The tests are single-threaded.",
 ALL, [("no shared mutable package state", "all packages"), ("points kept in normal form so that encoding does not write", "bls/bls.go")], ["all exported operations"],
 "Go race detector over a stress workload, with results compared with sequential ones",
 "The race detector reports only races on executed interleavings.")
prop("C28", "Operations never modify their inputs or the memory behind them",
 "No operation changes the messages, keys, values, decoys, proofs, payload hashes or byte slices passed to it, nor the unused capacity behind those slices (operations documented to change their receiver change only the receiver). Results do not share memory with inputs: changing an input afterwards, or a returned encoding or digest, changes neither the other results nor later ones.",
 ["inputs", "histories"], "all operations, with slices of any spare capacity, and later changes by the caller",
 "The tests compare results only, never the inputs afterwards.",
 ALL + ["rangeproof/pedersen/pedersen.go", "rangeproof/innerproduct/innerproduct.go", "rangeproof/vector/vector.go"], [("copies taken by each operation", "all packages")], ["all exported operations"],
 "runtime monitor: canary-guarded inputs and before/after snapshots around every exported operation",
 "Held on the calls observed.")
prop("C29", "Formats and verdicts are stable across versions",
 "Keys, signatures, ring signatures, proofs, generators, commitments, digests, checksums and Merkle roots recorded earlier decode and verify with the same verdict and encode to the same bytes, and deterministic operations on recorded inputs give the recorded outputs. Valid artefacts produced now are accepted by an independent implementation of the published formats and the reverse.",
 ["histories", "inputs"], "all artefacts produced by earlier versions, and by independent implementations",
 "The tests compare with what the same code just produced.",
 ALL + ["rangeproof/generators/generator.go", "rangeproof/pedersen/pedersen.go"], [("domain strings, transcripts, encodings", "all packages")], ["all encodings and verifiers"],
 "runtime conformance monitor against recorded golden artefacts and independent implementations",
 "Covers the recorded artefacts and those exchanged with the references in the run.")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(q) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh",
        checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
            thorough_cmd="bash check.sh %s thorough" % p["id"], technique=p["technique"],
            level="exploration", level_note=p["note"]) for p in P],
        not_applicable=[],
        notes="Runtime monitoring only; no hooks in /repo. See DESIGN.md and known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
