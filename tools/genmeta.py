#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC, BG, ES, FS = "crates/bls-crypto/src/", "crates/bls-gadgets/src/", "crates/epoch-snark/src/", "crates/bls-snark-sys/src/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, tech="TLA+ model (TLC) + trace validation of the real code",
      level="model_checking", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  tech=tech, level=level, note=note, claimed=claimed, reason=reason))


p("C01", "Direct hasher computes BLAKE2s / BLAKE2Xs exactly",
  "For every domain of at most 8 bytes, message and output length up to 65535, DirectHasher's crh is the 32-byte BLAKE2s digest whose parameter block carries the domain as personalisation and the requested output length, xof is the BLAKE2Xs expansion (one node per 32 bytes, each bound to its index, size and the total length), and hash is the xof of the crh. "
  "Every one of these outputs is byte-for-byte the standard's, so all implementations of the protocol agree.",
  ["inputs"], "every domain (0..8 bytes), message length and output length 0..65535",
  "The tests compare a handful of fixed vectors at one or two output lengths; node boundaries, short last nodes, long outputs and parameter-block separation are never sampled.",
  [BC + "hashers/direct.rs"], [("crh", BC + "hashers/direct.rs: DirectHasher::crh"), ("xof", BC + "hashers/direct.rs: DirectHasher::xof")],
  note="Exhaustive TLC check of the hashing state machine over a symbolic primitive; every recorded call of the real hasher is re-derived byte by byte by an executable BLAKE2s in TLA+. Bounded: about 1800 sampled calls per run (boundary matrix + random), lengths up to 65535.")
p("C02", "Hashers are total: exact length or a typed error, never a panic",
  "For every domain, message (that fits the CRH) and output length up to 65535 bytes, crh, xof and hash of both the direct and the composite hasher return exactly the number of bytes asked for (32, respectively 48, for crh), or refuse a domain of more than 8 bytes with an error that names its length; they never panic, and asking again gives the same answer. "
  "Only the composite crh, which ignores the domain, accepts a longer one.",
  ["inputs"], "every (hasher, operation, domain length, message length, output length)",
  "The tests call each operation with one valid domain and two or three lengths; no test passes a domain other than 8 bytes to crh.",
  [BC + "hashers/direct.rs", BC + "hashers/composite.rs", BC + "hashers/mod.rs"],
  [("domain check", BC + "hashers/direct.rs: DirectHasher::crh, xof"), ("delegation", BC + "hashers/composite.rs: xof"), ("hash", BC + "hashers/mod.rs: Hasher::hash")],
  note="The outcome function is specified for all inputs in TotalHasher.tla; TLC enumerates a matrix of about 10000 calls, all replayed into the real hashers and validated. bls-crypto is compiled from /repo over an arkworks-compatible algebra library kept in /verif/shim (the real arkworks crates are not available offline).")
p("C03", "Legacy try-and-increment hash to curve: first valid candidate wins",
  "For every domain, message and extra data, the legacy hash to curve tries counters 0, 1, ... 254 in order, hashing counter || extra data || message with the CRH and expanding it with the XOF, and returns the cofactor multiple of the first candidate that decodes to a curve point whose multiple is not the identity, with the sign its encoding asks for. "
  "The result is always a non-zero element of the prime-order subgroup, hasher errors are passed on, and exhaustion of the counter is the only other failure.",
  ["inputs", "fault_sequences"], "every sequence of candidate encodings and hasher failures, every message",
  "Tests check a few vectors; with honest hashers the exhaustion, torsion, infinity-flag, out-of-range and hasher-error paths are practically never taken.",
  [BC + "hash_to_curve/try_and_increment.rs", BC + "hash_to_curve/mod.rs"],
  [("loop", BC + "hash_to_curve/try_and_increment.rs: hash_with_attempt"), ("decoding", BC + "hash_to_curve/mod.rs: from_random_bytes")],
  note="State machine exhaustively model checked over candidate kinds; TLC-generated candidate sequences are injected through a scripted hasher into the real code, whose hasher calls are recorded and validated; honest runs too, on both curves, with and without the compat feature. Trusts the algebra of /verif/shim.")
p("C04", "CIP22 try-and-increment: inner hash once, counter in the XOF",
  "For every domain, message and extra data, the CIP22 hash to curve hashes the message once with the CRH, tries counters 0, 1, ... 254 in order on the XOF of counter || extra data || inner hash, and returns the cofactor multiple of the first candidate that decodes to a curve point whose multiple is not the identity, with the sign its encoding asks for. "
  "The result is always a non-zero element of the prime-order subgroup, hasher errors are passed on, and exhaustion of the counter is the only other failure.",
  ["inputs", "fault_sequences"], "every sequence of candidate encodings and hasher failures, every message",
  "Tests check a few vectors; with honest hashers the exhaustion, torsion, infinity-flag, out-of-range and hasher-error paths are practically never taken.",
  [BC + "hash_to_curve/try_and_increment_cip22.rs", BC + "hash_to_curve/mod.rs"],
  [("loop", BC + "hash_to_curve/try_and_increment_cip22.rs: hash_with_attempt_cip22"), ("decoding", BC + "hash_to_curve/mod.rs: from_random_bytes")],
  note="As C03, for the CIP22 state machine.")
p("C05", "Composite hasher is the fixed Bowe-Hopwood CRH followed by the XOF",
  "For every message of up to 19530 bytes the composite CRH is the abscissa (48 bytes, little endian) of the Bowe-Hopwood combination of that message's 3-bit chunks with generators drawn from ChaCha seeded by BLAKE2s('ULTRALIGHT PRNG SEED', personalisation 'UL_prngs'), whatever the domain or output length; every hasher instance agrees. "
  "Its xof is the direct hasher's xof, its hash is the xof of its crh, and a message beyond the capacity of the windows is never hashed.",
  ["inputs"], "every message up to and beyond the capacity, every domain and output length",
  "One random 32-byte vector and the empty message are tested; segment boundaries, long messages, independence of domain and length are not.",
  [BC + "hashers/composite.rs"], [("parameters", BC + "hashers/composite.rs: prng, setup_crh, Window"), ("crh", BC + "hashers/composite.rs: crh"), ("xof", BC + "hashers/composite.rs: xof")],
  note="Digit decomposition specified and model checked in TLA+; TLC emits messages with their digits, which the driver combines with independently derived generators; the real crh must produce that point. The Bowe-Hopwood evaluation itself is the library's (here /verif/shim).")
p("C06", "Signatures verify for exactly their key, domain, message and extra data",
  "A signature produced with a secret key verifies under the corresponding public key for the message and extra data that were signed, and a proof of possession verifies for its message; nothing else does: no other key, message, extra data or altered signature verifies, and a signature never passes as a proof of possession nor the other way round. "
  "This holds through serialisation of keys and signatures and for every hash-to-curve variant.",
  ["inputs", "histories"], "every sequence of key generations, signatures, alterations and verifications, for each hasher",
  "Tests verify one message and one wrong message; cross-domain use, extra data, boundary lengths and altered signatures are not covered.",
  [BC + "bls/public.rs", BC + "bls/secret.rs", BC + "bls/signature.rs"],
  [("sign", BC + "bls/secret.rs: sign_message"), ("verify", BC + "bls/public.rs: verify_sig"), ("domains", BC + "lib.rs: SIG_DOMAIN, POP_DOMAIN")],
  note="The scheme is a TLA+ state machine over formal group combinations, model checked exhaustively in a small scope; random behaviours of it and structured sessions are replayed into the real code and every verdict and equality is validated. Distinct hash points are assumed independent; legacy hashing is modelled as absorbing extra || message.")
p("C07", "Aggregation is exactly the group sum",
  "Aggregating public keys or signatures, or taking their linear combination with given exponents, yields exactly the group sum of the inputs, counted with multiplicity and in any order (mismatched lengths are refused), so an aggregate signature verifies under the aggregate key iff the sums match. "
  "Verifying one aggregate signature against a list of (key, message) pairs accepts iff the signature is the sum of the pairs' signatures, in the given domain, and refuses lists of different lengths with an error.",
  ["inputs", "histories"], "every sequence of aggregations, combinations and verifications, including duplicates, empty and mismatched lists",
  "Tests aggregate two or ten honest keys; duplicates, empty and uneven lists, zero exponents, permuted pairs are not covered.",
  [BC + "bls/public.rs", BC + "bls/signature.rs"],
  [("aggregate", BC + "bls/public.rs, signature.rs: aggregate"), ("batch", BC + "bls/public.rs, signature.rs: batch"), ("pairs", BC + "bls/signature.rs: batch_verify, batch_verify_hashes")],
  note="As C06.")
p("C08", "Strict batch verification is all-or-nothing and unforgeable",
  "A batch verifies iff every (key, signature) entry in it individually verifies for the batch's message and extra data, so invalid entries never cancel out, whatever their number, order and relation; verifying entry by entry gives the same verdict. "
  "Each verification weighs the entries with fresh, independent random exponents of at least 128 bits, never repeated between entries or runs.",
  ["inputs", "histories"], "every batch (size, multiset of valid and related invalid entries) and every number of verifications",
  "The test adds one unrelated invalid signature to ten valid ones, which even unweighted summation would reject.",
  [BC + "bls/batch.rs"], [("verify", BC + "bls/batch.rs: Batch::verify"), ("exponent size", BC + "bls/batch.rs: byte_count_from_target_batch_size"), ("verify_each", BC + "bls/batch.rs: Batch::verify_each")],
  note="As C06; cancelling and exchanged signatures at every pair of positions; the scalars the code feeds to the algebra library are recorded: no repeats, at least 120 varying bit positions over at least 64 scalars.")
p("C09", "Public key cache is transparent",
  "Whatever the history of deserialisations, aggregations and clearings, the cache answers as if it were not there: deserialising gives what decoding those bytes gives (errors included, which leave no trace), aggregating gives the sum of the set of distinct keys passed, however each is represented, in whatever order and however often. "
  "The memo never holds more than 512 entries and clearing forgets everything.",
  ["histories", "inputs"], "every sequence of deserialize, aggregate and clear_cache calls on one cache",
  "The test does one aggregation on a fresh cache; incremental updates, removals, duplicates, different representations, eviction and clearing are not covered.",
  [BC + "bls/cache.rs"], [("incremental aggregate", BC + "bls/cache.rs: aggregate"), ("memo", BC + "bls/cache.rs: deserialize"), ("clear", BC + "bls/cache.rs: clear_cache")],
  note="The cache is a TLA+ state machine, exhaustively checked for transparency in a small scope; random histories of it and structured ones (slowly changing sets, eviction, mixed representations) run on the real cache. Found and fixed: keys in different projective representations were counted twice.")
p("C10", "Keys and signatures have one canonical, validated wire format",
  "Public keys (96 bytes compressed, 192 uncompressed), signatures (48, 96) and secret keys (32) encode as the little-endian coordinates of the point with the sign and infinity flags in the two top bits, the sizes they announce for either form are those written, and decoding an encoding gives the value back. "
  "Decoding refuses truncated input, unreduced field elements, abscissas without a point, points outside the prime-order subgroup and invalid flags, and never panics.",
  ["inputs"], "every byte string, every key and signature including zero",
  "The tests round-trip random valid values only.",
  [BC + "bls/public.rs", BC + "bls/signature.rs", BC + "bls/secret.rs"],
  [("public key codec", BC + "bls/public.rs: CanonicalSerialize, CanonicalDeserialize"), ("signature codec", BC + "bls/signature.rs: CanonicalSerialize, CanonicalDeserialize"), ("secret key codec", BC + "bls/secret.rs: derive")],
  note="Format specified byte by byte in Codec.tla, checked exhaustively over a toy curve, and every real encoding and decoding (valid and 15 kinds of mutation) is validated against it. Existence of a point and subgroup membership are facts computed by /verif/shim.")
p("C11", "Bit/byte conversions are exact inverses with the stated bit order",
  "For every input length, the conversions between byte strings and bit vectors, in little- and big-endian form, keep every bit at the position their name says, pad only with zeros to a whole byte, and compose to the identity; converting back never depends on bytes or bits beyond the input.",
  ["inputs"], "every bit and byte string of every length",
  "Tests check a few bytes of even length.",
  [BG + "utils.rs"], [("conversions", BG + "utils.rs: bytes_le_to_bits_le, bits_le_to_bytes_le, ...")],
  note="Specified as a streaming machine in BitConv.tla, exhaustively checked up to a small length, and thousands of real conversions validated.")

exec(open(os.path.join(V, "tools", "genmeta_circuits.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                        "hook_needed": None}}) + "\n")
        assert len(x["title"]) <= 80, x["id"]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "All checks: TLA+ specifications in spec/, checked with TLC; drivers in harness/ compile the sources of /repo unmodified over the arkworks-compatible shim in shim/ (no arkworks crate is available offline)."}
m["hooks"] = {"guard": "cargo feature verif-hooks (crates bls-gadgets and epoch-snark)",
              "enable": "default feature of /verif/harness/bls-gadgets and /verif/harness/epoch-snark, which compile the sources of /repo",
              "source_commits": ["f250bd0", "3a0c05f"]}
for x in P:
    if x["claimed"]:
        m["checks"].append({"property": x["id"], "quick_cmd": "python3 tools/check.py %s quick" % x["id"],
                            "thorough_cmd": "python3 tools/check.py %s thorough" % x["id"],
                            "technique": x["tech"], "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": x["reason"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
