# the circuits, the prover API and the C interface
CIRC = "TLA+ model (TLC), exhaustive exploration of recorded toy-field constraint systems, trace validation of the real circuit"
NOPROV = "no test gives the circuit a dishonest assignment, so a missing constraint passes them all"
p("C12", "Bitmap circuit admits exactly the bitmaps with few enough occurrences",
  "For every vector of bits, every limit below half the field and either bit value, the bitmap gadget's constraints are satisfiable iff the number of bits with that value is at most the limit. "
  "No assignment of the auxiliary witnesses makes an inadmissible bitmap satisfy them, every admissible bitmap satisfies them, whatever the length and however bits and limit are allocated, and nothing panics.",
  ["inputs"], "every bit vector of any length, every limit, both values, every witness assignment (malicious prover)",
  "Tests try ten bits with a few limits; long bitmaps, boundary limits, mixed allocation are not covered and " + NOPROV + ".",
  [BG + "bitmap.rs"], [("counting and bound", BG + "bitmap.rs: enforce_maximum_occurrences_in_bitmap")], tech=CIRC,
  note="Every assignment of the circuit's witnesses over fields of 11-31 elements is explored by TLC (systems recorded from the real code); over the real field, verdicts for up to 300 bits and a repairing malicious prover. Limits of half the field or more are not numbers of validators and only must not panic.")
p("C15", "Sign-bit circuit agrees with point compression",
  "For every value of a G1 or G2 ordinate, y_to_bit yields the sign bit that point compression uses: whether it exceeds half the field, for G2 the second coefficient unless it is zero, then the first. "
  "The underlying is_eq_zero and normalize gadgets yield exactly 'is zero' and 'is over half', the honest assignment always satisfies the constraints, and no other answer does, save at exactly (p-1)/2, where normalize is known to be ambiguous.",
  ["inputs"], "every field element and every witness assignment (malicious prover)",
  "Tests check random points with the honest prover; half, zero and boundary coordinates and dishonest bits are never tried.",
  [BG + "y_to_bit.rs"], [("normalize", BG + "y_to_bit.rs: FpUtils::normalize"), ("is_eq_zero", BG + "y_to_bit.rs: FpUtils::is_eq_zero"), ("G1 and G2", BG + "y_to_bit.rs: y_to_bit")], tech=CIRC,
  note="Every assignment over fields of 11-31 elements explored by TLC; boundary and random coordinates over the real fields, with all flips of the boolean witnesses repaired by a malicious prover. Known finding: ambiguity at exactly (p-1)/2 (no ordinate of a curve point in practice).")
p("C14", "Hash-to-curve circuit recomputes the native CIP22 hash",
  "For every message, extra data, counter and personalisation, the circuit's CRH bits are the composite CRH, its XOF bits (when constrained) BLAKE2Xs of counter || extra data || CRH, and its point the cofactor multiple of the decoded candidate, as the native CIP22 hash computes them for that counter. "
  "It is satisfiable iff that candidate decodes, in particular for the native counter and for none below it, and no other CRH, XOF or point (in whatever coordinates) is accepted.",
  ["inputs"], "every message, extra data, counter, allocation, and every witness assignment (malicious prover)",
  "The test compares six random lengths with the honest counter and prover; " + NOPROV + ".",
  [BG + "hash_to_group.rs"], [("XOF gadget", BG + "hash_to_group.rs: hash_to_bits, blake2xs_params"), ("CRH and layout", BG + "hash_to_group.rs: enforce_hash_to_group, pedersen_hash"), ("decoding", BG + "hash_to_group.rs: hash_to_group")], tech=CIRC,
  note="Recorded circuits are re-derived with the executable BLAKE2s of the specification; malicious provers repair flipped witnesses and re-synthesise from dishonest points (negated, one bit off in x, rescaled, unrelated) and XOFs; with and without compat. The CRH and BLAKE2s compression gadgets are the library's (idealised in /verif/shim).")
p("C13", "BLS circuits accept exactly quorum-signed aggregates",
  "The signature circuit is satisfiable iff at most maximum_non_signers bits are unset, no set bit selects the padding key, the selected keys do not sum to the identity and the signature is the sum of those keys' signatures on the hash; the batch circuit iff every aggregate key is non-zero and the signature is the sum over the pairs. "
  "The aggregate key they hand on is the sum of the selected (or all) keys, whatever representatives the prover supplies and however it assigns the witnesses.",
  ["inputs"], "every list of keys (zero, negated, repeated, padding), bitmap, limit, signature, every witness assignment",
  "Tests use one key set per case and the honest prover; cancelling keys, padding keys, key-signature exchanges, other representatives are not covered and " + NOPROV + ".",
  [BG + "bls.rs"], [("bitmap and aggregation", BG + "bls.rs: enforce_bitmap, enforce_aggregated_pubkeys"), ("equation", BG + "bls.rs: verify, batch_verify, enforce_bls_equation")], tech=CIRC,
  note="Verdicts for about 10000 small instances enumerated by TLC, replayed on the real circuit over real points, with malicious provers (every witness replaced, the rest recomputed or repaired). Pairing gadgets are the library's (one idealised constraint in /verif/shim, refusing the identity in G2 as the library does).")
ENC = "TLA+ model (TLC: writer and its inverse reader), trace validation of the real encodings"
p("C16", "Epoch blocks encode and hash to exactly the specified bits",
  "For every epoch block with entropies of 16 bytes or none, the plain, first, last (with aggregate key), inner and extra-data encodings are exactly the specified fields in the specified order and widths, keys compressed to both abscissa coefficients and the sign bit, the CIP22 ones padded with the generator key up to maximum_validators. "
  "No two blocks differing in an encoded field (up to padding) share an encoding. The published hash is BLAKE2s under the output domain of the first and last encodings, and the signed point the CIP22 hash of the inner and extra encodings.",
  ["inputs"], "every index, round, limit, entropies, validator list (any representatives) and maximum",
  "Tests compare four fixed encodings of a block of ten generator keys; the inner encoding, padding with distinct keys, the sign bit, boundary numbers and both hashes are untested.",
  [ES + "epoch_block.rs", ES + "encoding.rs"], [("layouts", ES + "epoch_block.rs: encode_to_bits, encode_to_bits_cip22, encode_inner_to_bits_cip22, encode_last_epoch_to_bits_with_aggregated_pk_cip22"), ("keys and numbers", ES + "encoding.rs: encode_public_key, encode_u16, encode_u32, encode_u8"), ("hashes", ES + "epoch_block.rs: hash_first_last_epoch_block, hash_to_bits, hash_to_g1_cip22")], tech=ENC,
  note="TLC shows on a scaled-down block that the layouts read back uniquely; about 1300 generated real blocks and every boundary of the sign bit are compared with the specification bit for bit, BLAKE2s included. The aggregate of keys summing to the identity has no specified encoding.")
p("C17", "Epoch circuit hashes and publishes the native encodings",
  "For every epoch block, the bits the epoch circuit derives are exactly its native inner, extra-data, first and last encodings, its CRH the composite CRH of the inner encoding and its message hash the point natively signed; it is satisfiable iff the index is zero or one more than the previous one. "
  "Whatever values a prover assigns to the numbers and keys, the bits are the encoding of the values the circuit works with: numbers that do not fit their width and keys in other coordinates or off the curve are refused.",
  ["inputs"], "every block, previous index, and every witness assignment (malicious prover)",
  "Tests compare one or two blocks with the honest prover; " + NOPROV + ".",
  [ES + "gadgets/epoch_data.rs", ES + "gadgets/mod.rs"], [("bits", ES + "gadgets/epoch_data.rs: to_bits; " + ES + "gadgets/mod.rs: fr_to_bits, bytes_to_fr, g2_to_bits"), ("index", ES + "gadgets/epoch_data.rs: enforce_next_epoch"), ("hash", ES + "gadgets/epoch_data.rs: hash_bits_to_g1")], tech=CIRC,
  note="About 430 generated blocks (boundary numbers, entropies absent and present, 1-5 keys) on the real circuit, bit for bit against the executable encoding; malicious provers reassign every number, key coordinate and boolean and the auxiliary witnesses of the index rule. Blocks with fewer keys than maximum_validators are padded by the caller, not by the circuit.")
p("C18", "Chain circuit accepts exactly quorum-linked chains of epochs",
  "For every first block, list of updates and aggregate signature of one validator-set size, the validator-set-update circuit is satisfiable iff, skipping dummies (index zero), every index is its predecessor's plus one, every block names its predecessor's entropy (when the first block has one), at most the predecessor's maximum_non_signers of its validators did not sign and none that signed is padding, the last block is no dummy, and the signature is exactly the signers' sum over the blocks, plus the generator per dummy. "
  "Its public inputs are the packed hashes of the first and last blocks of that chain, whatever witnesses a prover assigns: from one first block, provers cannot reach two different chains while honest validators sign one block per index.",
  ["inputs", "histories"], "every chain of any length, dummies anywhere, every bitmap, key set, entropy, signature, and every witness assignment (malicious prover)",
  "Six tests run one chain of four epochs each, honest prover only; quorum by the predecessor's limit, padding signers, dummies elsewhere, index and signature mix-ups are not covered and " + NOPROV + ".",
  [ES + "gadgets/epochs.rs", ES + "gadgets/single_update.rs"], [("chain", ES + "gadgets/epochs.rs: verify_intermediate_epochs, enforce"), ("one update", ES + "gadgets/single_update.rs: constrain"), ("public inputs", ES + "gadgets/epoch_bits.rs: verify_edges"), ("signature", ES + "gadgets/epochs.rs: verify_signature")],
  tech="TLA+ model of the chain (TLC: lineage, quorum, entropy, dummies, no fork), model-generated chains replayed on the real circuit, trace validation",
  note="TLC explores about 125000 small chains step by step and a world of signers for forks (the fault bound is tight); about 2300 generated chains run on the real circuit with real hashes, and malicious provers reassign every number, key, bit, flag and random witnesses, alone and in pairs: whatever is satisfied must be an acceptable chain as claimed. The entropy of the first block is not published, so only its chosen value is linked. Pairings, CRH and BLAKE2s gadgets are the library's (idealised).")
p("C19", "Packing and hash-publishing circuits expose exactly their bits",
  "Natively and in circuits over both fields, bits are packed Capacity at a time, each element the number its chunk spells most significant bit first; the circuit always has a satisfying assignment, and in any satisfying assignment the low bits of each packed element are its chunk's bits. "
  "The hash-to-bits circuit's public inputs are the packed messages and the packed 512-bit BLAKE2Xs of each message under the signature domain, and the epoch edges circuit's are the packed BLAKE2s hashes, under the output domain, of the first and last bits: no assignment of the witnesses exposes anything else.",
  ["inputs"], "every bit string, element size up to the capacity, number of messages, lengths of epoch bits, and every witness assignment (malicious prover)",
  "Tests pack one random 512-bit string and prove three random messages with the honest prover; chunk boundaries, unaligned epoch bits are not covered and " + NOPROV + ".",
  [ES + "gadgets/pack.rs", ES + "gadgets/hash_to_bits.rs", ES + "gadgets/epoch_bits.rs", ES + "gadgets/mod.rs"], [("circuit packing", ES + "gadgets/pack.rs: MultipackGadget::pack"), ("native packing", ES + "gadgets/mod.rs: pack"), ("CRH to XOF", ES + "gadgets/hash_to_bits.rs: generate_constraints"), ("edges", ES + "gadgets/epoch_bits.rs: verify_edges")], tech=CIRC,
  note="TLC explores every assignment of the packing circuit over fields of 11-17 elements; about 5000 events over the real fields, including malicious provers that reassign or repair witnesses and public inputs, are re-derived with the executable BLAKE2s. Bits of an element above its chunk are free, as the verifier computes the inputs itself.")
p("C20", "Proofs verify exactly for the attested first and last epoch",
  "For every setup and every chain of one to the maximum number of transitions between blocks of the setup's validator-set size, a proof made by prove() verifies under that setup's key, for exactly the first and last blocks whose published fields (index, first's parent entropy, last's epoch entropy, limit, padded keys, last's aggregate key) are those of the chain, iff the chain is acceptable as it stands: filling a short chain up with dummies neither helps nor hurts. "
  "Other keys, altered or default proofs, other first or last blocks, too few or many transitions for the setup and badly signed or linked chains are answered with VerificationFailed, never with a panic.",
  ["inputs", "histories"], "every setup, chain, padding of validator sets, number of transitions, question about a proof",
  "The two end-to-end tests are ignored in CI (too slow), run one honest chain each, and ask only the one question that is answered yes.",
  [ES + "api/prover.rs", ES + "api/verifier.rs", ES + "api/setup.rs"], [("setup", ES + "api/setup.rs: trusted_setup"), ("dummies and signatures", ES + "api/prover.rs: prove, to_dummy_update"), ("public inputs", ES + "api/verifier.rs: verify")],
  tech="TLA+ model of setups, provers and verifiers (TLC), model-generated histories replayed on the real API, trace validation",
  note="Groth16 itself is idealised in /verif/shim: a proof binds its key, the circuit's shape, the public inputs and whether the assignment satisfied the recorded constraints, so setup and prover must synthesise the same circuit. Known finding: with the two-proof technique (hashes_in_bls12_377) the circuit ignores whether the inner proof holds. Empty or overlong lists of transitions panic in prove() and are not claimed.")

p("C21", "The C interface is the library, call by call",
  "For every sequence of calls through the C interface: each of the flag pairs (composite, CIP22) selects its hash (direct, composite, CIP22) for signing and for every way of verifying, and CIP22 without composite is refused; a signature made by any call verifies exactly for its key, message, extra data and hash; the verdict is written only if the call succeeds; "
  "strict batch verification answers each batch by itself (good iff it has as many signatures as keys and each verifies for its key) and returns true iff all are good; aggregation, subtraction, hashing and encoding give what the library gives; a failing call writes nothing; every handle and buffer a call hands out is independent of all others, stays valid until released and can be released exactly once with the length it was given; an empty message or list may be given as a null pointer; no call ends the process.",
  ["inputs", "histories", "schedules"], "every sequence of calls, order of releases, mix of flags, batch shape, and concurrent callers sharing the key cache",
  "No test makes a call through the C interface except verify, with one recorded proof.",
  [FS + "signatures.rs", FS + "serialization.rs", FS + "utils.rs", FS + "lib.rs"], [("hash selection", FS + "signatures.rs: sign_message, verify_signature, batch_verify_signature, batch_verify_strict"), ("lifetimes", FS + "serialization.rs: destroy_*, free_vec"), ("pointers", FS + "utils.rs: slice_from, Buffer")],
  tech="TLA+ model of the caller's heap (TLC, exhaustive to a bound and simulated), simulated histories replayed on the real C interface under a tracking allocator, trace validation",
  note="Callers keep C's side of the contract: lengths are not negative, handles are live, outputs are writable. Aggregation treats its keys as a set, as the cache does. Memory is watched through the Rust allocator (wrong size or double release, leaks outside the cache, overwritten released memory), not through the pairing library. Concurrent sessions run freely on the machine's scheduler.")
p("C22", "What crosses the C interface as bytes",
  "For all bytes: keys, signatures and secret keys decode through the C interface exactly as in the library (also through the cache, first and again), encode to the same bytes, and the lengths reported are theirs; two coordinates compress to the encoding of the point they name, anything shorter or not reduced is refused; epoch blocks are encoded to the same bytes as the library's and an EpochBlockFFI becomes the block it names (absent entropies from null pointers, no block from bytes that hold no key); "
  "verify() accepts exactly the serialised key, proof and blocks that the library's verify() accepts, refuses truncated keys, proofs and bad validator keys, and never ends the process.",
  ["inputs"], "every byte string, point, epoch block, proof and question",
  "Tests convert one block with ten keys and verify one recorded proof; compression and epoch encoding have no test.",
  [FS + "serialization.rs", FS + "snark/epoch_block.rs", FS + "snark/mod.rs"], [("codec", FS + "serialization.rs: serialize, deserialize, compress_pubkey, compress_signature"), ("blocks", FS + "snark/epoch_block.rs: encode_epoch_block_to_bytes*, TryFrom<&EpochBlockFFI>"), ("verify", FS + "snark/mod.rs: verify")],
  tech="TLA+ models of the codec, the epoch encodings and the proof system (TLC), generated cases replayed on the real C interface, trace validation",
  note="Groth16 and the curve are those of /verif/shim (see C10, C16, C20). Coordinates given to compress_* are not checked to lie on the curve, by design. Bytes after the end of a key, proof or pair of coordinates are ignored.")
