#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

G = "src/helpers/groth16/"
prop("C01", "Verifying keys survive faulty byte streams whole or not at all",
 "Writing a truncated verifying key reports success only if every byte of its encoding reached the stream, and reading one returns a key only if the stream delivered a complete well-formed key without failing, in which case it is exactly the key that was stored (every public-input point included). Short transfers and interruptions of the stream change nothing, while a stream error, an early end, left-over bytes or a damaged point is reported as an error and never yields a shorter or different key. Once the stream works again the same call succeeds.",
 ["inputs", "fault_sequences"], "every key on both curves, every split of the stream into transfers, every interruption, failure offset, truncation, extension and damage of the stored bytes",
 "No test reads or writes a key through a stream that is short, interrupted or failing; the fault offsets and damages are unbounded.",
 [G+"verifier.rs"], [("read/write of TruncatedVerifyingKey", G+"verifier.rs"), ("read_exact_or_eof", G+"verifier.rs")],
 ["result of read/write", "bytes the writer received", "fields of the returned key"])
prop("C02", "Proofs survive faulty byte streams whole or not at all",
 "Writing a proof reports success only if exactly its encoding reached the stream, and reading returns a proof only if the stream delivered one complete valid encoding without failing, in which case it is that proof. Reading one proof takes exactly that proof's bytes, so proofs written one after another on a stream are read back one after another in order. Short transfers and interruptions change nothing; errors, early ends and damaged, infinite or out-of-group points are reported as errors.",
 ["inputs", "fault_sequences", "histories"], "every sequence of proofs on one stream, both curves, every transfer split, interruption, failure offset and damage",
 "No test stores or loads proofs through a failing stream, nor more than one proof per stream.",
 [G+"prover.rs"], [("Proof::write / Proof::read", G+"prover.rs")],
 ["result of read/write", "bytes taken from the reader", "points of the returned proof"])
prop("C03", "The binary (NEAR) wire format is exact, canonical and self-delimiting",
 "Every field element, curve point, proof, verifying key and vector of field elements decodes from its binary encoding to itself and consumes exactly its own bytes, and the bytes are the documented fixed-width little-endian layout. Bytes that are truncated, or that hold a number not below the field modulus, are refused; no two different byte strings decode to the same value. A writer that fails makes encoding fail, and one that accepts data in parts receives the same bytes.",
 ["inputs", "fault_sequences"], "all values of all six fields, points, proofs and keys; every truncation, extension, corruption and concatenation of messages; every writer fault",
 "The borsh tests encode one value over a perfect in-memory buffer; canonicity, truncation and stream faults are not sampled at all.",
 [G+"near.rs", "src/native/num.rs", "src/core/sizedvec.rs"], [("Borsh impls", G+"near.rs"), ("Borsh impls of Num", "src/native/num.rs")],
 ["bytes written", "value, rest of buffer or error returned"])
prop("C04", "The JSON wire format is exact and refuses malformed messages",
 "Every field element, curve point, signature, proof structure, verifying key, fixed-size vector, Merkle proof and circuit witness decodes from its JSON text to itself, field elements being decimal strings. A message that is truncated, has a missing or surplus element, a fixed-size vector of another length, or a number that is negative, not a number or not below the field modulus is refused, and a stream failure while reading or writing is reported. A fixed-size vector put together element by element holds exactly those elements and is refused when their number is another. No accepted message decodes to anything but the value it spells.",
 ["inputs", "fault_sequences"], "all values of the serialisable types; every structural mutation, byte corruption, truncation and stream fault",
 "The serde tests round-trip one value over a perfect string.",
 ["src/native/num.rs", "src/core/sizedvec.rs", G+"mod.rs", G+"prover.rs", G+"verifier.rs", "src/native/ecc.rs", "src/native/poseidon.rs", "src/native/eddsaposeidon.rs"],
 [("Serialize/Deserialize of Num", "src/native/num.rs"), ("Deserialize of SizedVec", "src/core/sizedvec.rs")],
 ["JSON text written", "value or error returned"])
prop("C05", "Imported curve points are on the curve and in the prime-order subgroup",
 "No point received from another party, whether in a proof or a verifying key and whether in byte, binary or JSON form, is handed to the verifier unless it lies on the right curve and in its prime-order subgroup; a message with any other point is refused. Every honest point, the identity included where the form can express it, is accepted and comes out as the same group element, and exporting it again gives the same message.",
 ["inputs", "fault_sequences"], "all Byzantine points (off-curve, wrong twist or cofactor, small order, mixed order, swapped or negated coordinates, infinity spellings) at every position of a proof or key on both curves",
 "No test imports a point that is not an honestly generated one.",
 [G+"mod.rs", G+"prover.rs", G+"verifier.rs"], [("point conversions with curve and subgroup assertions", G+"mod.rs"), ("subgroup checks in read", G+"prover.rs")],
 ["result (value, error or refusal) of from_data and read", "the points in the returned structure"])
prop("C06", "A command that reports success leaves complete, correct files",
 "When a setup, prove, generate-test-data or generate-verifier command finishes normally, every file it names is complete and correct: the parameters and key belong together, the proof and inputs verify under the key, the test data and verifier contract are whole, whatever longer file was there before. When a file operation fails, the command fails visibly instead of finishing normally. Short transfers and interruptions by the system do not matter, and once the disk works again the same command succeeds.",
 ["fault_sequences", "inputs", "crash_points"], "every command of every bindings flavour, every sequence of open/read/write failures, short transfers, interruptions, full disks and crashes, every earlier content of the files",
 "The command-line code is not run by any test, let alone over a failing disk.",
 ["src/macros.rs", G+"ethereum.rs"], [("cli_setup, cli_prove, cli_generate_verifier, cli_generate_test_data", "src/macros.rs"), ("generate_sol_data", G+"ethereum.rs")],
 ["exit of the command", "contents of the files"])
prop("C07", "Command-line verification tells the truth over any history of files",
 "The verify command reports a proof as correct exactly when the files it was given hold a well-formed key, proof and inputs for which the proof verifies; otherwise it reports it incorrect or fails. This holds over every history of setups, proofs, file swaps, corruptions, failed commands, crashes and power losses, and prove never turns unusable parameter or witness files into a proof that verifies for a false statement. After faults stop, rerunning setup, prove and verify succeeds.",
 ["histories", "crash_points", "fault_sequences"], "every history of commands over a directory shared by several keys and proofs, with crashes at any system call, torn and lost writes and damaged files",
 "The command-line code is not run by any test.",
 ["src/macros.rs", G+"verifier.rs", G+"prover.rs"], [("cli_verify, cli_prove", "src/macros.rs")],
 ["what the verify command prints and how it ends", "files"])
prop("C08", "Secret randomness comes from the operating system or not at all",
 "Every random value the library returns (raw words, bytes, field elements, keys' toxic waste, proof blinding) is drawn fresh from the operating system's entropy source: no bit is constant or reused between calls, and no value carries more bits than were drawn for it. If the source fails, no value, key or proof is returned; if it is merely interrupted or slow, the result is what the delivered entropy determines.",
 ["fault_sequences", "schedules", "inputs"], "every sequence of entropy requests with short reads, interruptions and failures from any request on, every consumer",
 "Tests cannot make the entropy source fail or observe what was drawn.",
 ["src/core/osrng.rs", G+"prover.rs"], [("OsRng", "src/core/osrng.rs"), ("generate_keys, prove", G+"prover.rs")],
 ["values returned", "bytes drawn from the simulated source"])
prop("C09", "Honest parties agree over any network: an honest proof is accepted",
 "For every circuit and every witness that satisfies it, the proof made with generated keys is accepted by the verifier for the public inputs that the circuit declares, in order, after any supported encoding and any number of lost, delayed, duplicated or reordered messages and restarts. Setup without a witness and proving with one lay out the same constraint system. Once messages get through, every session ends accepted.",
 ["programs", "inputs", "schedules", "fault_sequences", "crash_points"], "all circuits built from the public gadgets and signal types, all satisfying witnesses, all delivery orders and crash points of setup, prover and verifier",
 "One test proves one Poseidon preimage without any transport in between.",
 [G+"mod.rs", G+"prover.rs", G+"verifier.rs", "src/core/cs.rs", "src/core/signal.rs", "fawkes-crypto_derive/src/signal.rs"],
 [("Groth16CS", G+"mod.rs"), ("generate_keys/prove", G+"prover.rs"), ("verify", G+"verifier.rs"), ("derive(Signal)", "fawkes-crypto_derive/src/signal.rs")],
 ["verdict of verify at the verifier node"])
prop("C10", "No Byzantine message makes the verifier accept a false statement",
 "A verifier accepts (key, proof, inputs) only if the proof satisfies the pairing equation for exactly those inputs under exactly that key; the number of inputs must be the key's. So no relay that mixes, alters, replays or reorders keys, proofs and inputs, and no prover that commits to a witness violating the circuit, is ever accepted for a statement that is not true.",
 ["inputs", "fault_sequences", "histories"], "all mixes of keys, proofs and inputs in flight, all corruptions of their parts, all witnesses that break the circuit",
 "The only negative test is a single altered input.",
 [G+"verifier.rs", G+"mod.rs", G+"prover.rs"], [("verify", G+"verifier.rs"), ("Groth16CS::enforce", G+"mod.rs")],
 ["verdict of verify at the verifier node"])
prop("C11", "Arithmetic, boolean and bit gadgets bind a Byzantine prover",
 "For every number, boolean, selection, comparison, decomposition, multiplexer and composite-signal gadget: an honest witness satisfies its constraints and yields the value of the native operation, in every operator form and for constants and signals alike; and no assignment that a cheating prover can substitute satisfies the constraints with another output. Asserting gadgets are satisfiable exactly when what they assert is true.",
 ["inputs", "fault_sequences", "programs"], "all inputs (edges of the field included), constants or signals in each operand position, all witness substitutions",
 "Each test runs one honest random witness; cheating witnesses are never tried, although soundness is a statement about all of them.",
 ["src/circuit/num.rs", "src/circuit/bool.rs", "src/circuit/bitify.rs", "src/circuit/mux.rs", "src/core/signal.rs", "src/core/sizedvec.rs", "fawkes-crypto_derive/src/signal.rs"],
 [("CNum/CBool operators", "src/circuit/num.rs"), ("c_into_bits_le_strict, c_comp", "src/circuit/bitify.rs"), ("c_mux3", "src/circuit/mux.rs")],
 ["satisfaction of the recorded constraints", "values of the output signals"])
prop("C12", "Curve gadgets bind a Byzantine prover",
 "For every curve gadget (addition, doubling, conversion between models, scalar multiplication, hash to curve, decompression, subgroup and curve assertions) an honest witness satisfies the constraints and yields the native group element, for every point of the subgroup and every scalar that the gadget accepts; and no substituted witness satisfies them with another output. Assertions of curve and subgroup membership are satisfiable exactly for members.",
 ["inputs", "fault_sequences"], "all points (identity, small order, off-curve included), all scalars and their bit patterns, all witness substitutions, both curves",
 "Each test runs one honest random witness.",
 ["src/circuit/ecc.rs", "src/native/ecc.rs", "src/native/bn256.rs", "src/native/bls12_381.rs"], [("CEdwardsPoint, CMontgomeryPoint", "src/circuit/ecc.rs")],
 ["satisfaction of the recorded constraints", "values of the output signals"])
prop("C13", "Hash, Merkle and signature gadgets bind a Byzantine prover",
 "For the Poseidon hash, the Merkle proof and the signature check gadgets an honest witness satisfies the constraints and yields the native result, and no substituted witness satisfies them with another result: another hash, another root for the same leaf and path, or acceptance of a signature that native verification refuses.",
 ["inputs", "fault_sequences"], "all inputs, parameter sizes, depths and paths, all valid and tampered signatures, all witness substitutions",
 "Each test runs one honest random witness.",
 ["src/circuit/poseidon.rs", "src/circuit/eddsaposeidon.rs", "src/native/poseidon.rs"], [("c_poseidon, c_poseidon_merkle_proof_root", "src/circuit/poseidon.rs"), ("c_eddsaposeidon_verify", "src/circuit/eddsaposeidon.rs")],
 ["satisfaction of the recorded constraints", "values of the output signals"])
prop("C14", "Signatures and Merkle proofs hold between parties over a hostile network",
 "A signature made by a key holder is accepted by every verifier that receives it with its message and public key, and a membership proof issued for a leaf leads every verifier to the tree's root, after any loss, delay, duplication, reordering or re-encoding. A message, signature, key, leaf, sibling, position or root that was altered, replayed in another context or forged from a point outside the group is refused. Signing is deterministic per key and message and never reuses a nonce.",
 ["histories", "inputs", "fault_sequences"], "all keys, messages, trees and interleavings of several signers and verifiers with an active network",
 "The tests sign one message and verify it in place; tampering, small-subgroup keys and cross-key replay are not tried.",
 ["src/native/eddsaposeidon.rs", "src/native/poseidon.rs", "src/native/ecc.rs", "src/native/num.rs", "src/core/seedbox.rs"],
 [("eddsaposeidon_sign/verify", "src/native/eddsaposeidon.rs"), ("poseidon_merkle_*", "src/native/poseidon.rs"), ("subgroup_decompress", "src/native/ecc.rs")],
 ["verdicts at the verifier nodes", "signatures and roots produced"])
prop("C15", "Concurrent and aborted calls do not interfere",
 "Any number of callers may set up, prove, verify, sign, hash, encode and decode at the same time in one process, in any interleaving, and each gets what it would have got alone. A call that panics or whose stream or entropy source fails half-way leaves every other call, running or later, unaffected.",
 ["schedules", "fault_sequences", "crash_points"], "all interleavings of calls at the points where they touch entropy, streams, caller code and lazily initialised tables; aborts at any of those points",
 "Tests run each call alone and to completion.",
 [G+"mod.rs", G+"prover.rs", "src/core/osrng.rs", "src/core/cs.rs", "src/native/bn256.rs", "src/native/bls12_381.rs"], [("lazily initialised constants", G+"mod.rs"), ("per-call constraint systems and RNGs", G+"prover.rs")],
 ["results of all calls"])
prop("C16", "The generated Solidity verifier agrees with the library",
 "The verifier contract generated for a key accepts a proof and inputs exactly when the library's verifier accepts them under that key, for every number of public inputs; it refuses inputs not below the scalar field modulus and malformed points instead of wrapping them, and refuses rather than accepts when a call to a precompiled contract fails or runs out of gas.",
 ["inputs", "fault_sequences", "programs"], "all keys and input counts, all honest and tampered calldata, failing precompiles",
 "No test executes the generated contract.",
 [G+"ethereum.rs", "src/macros.rs"], [("generate_sol_data template", G+"ethereum.rs")],
 ["result of executing the generated contract"])
prop("C17", "Every party derives the same public parameters from the same label",
 "The deterministic generator's stream for a salt (or none), the field element for a seed, the Poseidon constants for sizes (t, f, p), the hashes and tree roots computed with them, and the constants, generator and hash-to-curve of the embedded curves are functions of their public label alone and are exactly those of the published derivation (Blake2s personalised \"__fawkes\"). They come out the same for every party whatever it derived before, in whatever order and pieces it draws from several generators, after failed requests and restarts, and however far into a stream. Zero inputs, or more inputs than a hash has room for, are refused.",
 ["histories", "inputs", "fault_sequences"], "all labels, sizes and request histories of several parties in one process",
 "Tests derive parameters once and compare them with nothing.",
 ["src/core/seedbox.rs", "src/native/poseidon.rs", "src/native/num.rs", "src/native/bn256.rs", "src/native/bls12_381.rs", "src/native/ecc.rs"],
 [("SeedboxBlake2", "src/core/seedbox.rs"), ("PoseidonParams::new, poseidon", "src/native/poseidon.rs"), ("Num::from_seed", "src/native/num.rs"), ("JubJubBN256::new, JubJubBLS12_381::new", "src/native/bn256.rs"), ("from_scalar_raw", "src/native/ecc.rs")],
 ["derived words, numbers, constants and hashes"])
prop("C18", "Parties that compute with numbers agree, in any order of arrival",
 "A number is an integer modulo the field's prime however it was written (machine integer, big integer of either sign, decimal text, bytes, bits, element of another field), and sums, differences, products, quotients, negatives, inverses, squares, doubles, square roots and comparisons, in every operator form, are those of integers modulo the prime. So replicas that apply the same transactions, or combine enough of the same shares, in any order and after any loss, duplication and restart, hold the same balances and recover the same secret, and nothing is lost or created. Every way to read a number gives the same integer. A quotient by zero, the root of a non-square, text that is no number, and a number that does not fit the machine integer or boolean asked for are refused.",
 ["inputs", "schedules", "fault_sequences", "histories"], "all operands of all six fields in all written forms, all operator forms, all delivery orders, losses, duplications and restarts of replicas",
 "Tests sample a few operands in one order and check one form of most operators.",
 ["src/native/num.rs", "src/core/field.rs", "src/macros.rs", "src/native/bn256.rs", "src/native/bls12_381.rs"],
 [("conversions and operators of Num", "src/native/num.rs"), ("operator forwarding", "src/macros.rs"), ("scalar fields of the embedded curves", "src/native/bn256.rs")],
 ["balances, amounts and secrets at the replicas", "readings of numbers", "refusals"])
prop("C19", "Parties that combine curve points agree, in any order of arrival, and refuse foreign points",
 "Points of both embedded curves form a group: sums, differences, doubles, multiples by any scalar and by the cofactor are the same in affine, extended (any scaling) and Montgomery form, for every point of the curve, the identity and points of small order included. So collectors that take the same contributions in any order, after any loss, duplication and restart, hold the same sum, two parties derive the same shared key, and verifiable shares check and combine. A point is judged on the curve, or in the prime-order subgroup, exactly when it is; decompressing gives the one point with that coordinate (and sign) or nothing; a message from which no point can be made is refused.",
 ["inputs", "schedules", "fault_sequences", "histories"], "all points on and off both curves in all message forms, all scalars, all projective representations, all delivery orders, losses, duplications and restarts of collectors",
 "Tests sample three random points on one curve; identity, small-order, off-curve and rescaled points are never tried.",
 ["src/native/ecc.rs", "src/native/bn256.rs", "src/native/bls12_381.rs", "src/native/num.rs"],
 [("EdwardsPoint, EdwardsPointEx, MontgomeryPoint", "src/native/ecc.rs"), ("subgroup_decompress, get_for_y, is_in_curve, is_in_subgroup", "src/native/ecc.rs")],
 ["sums and keys at the collectors", "admissions and refusals"])
prop("N03", "Proofs reveal nothing but the truth of the statement",
 "The distribution of an honest proof depends only on the public inputs, not on the witness.",
 ["inputs"], "all pairs of witnesses of one statement", "A statement about distributions and a cryptographic assumption.",
 [G+"prover.rs"], [("prove", G+"prover.rs")], ["distribution of proofs"])
prop("N04", "Secret-dependent operations take constant time",
 "The time and memory access pattern of signing and key derivation do not depend on the secret key.",
 ["inputs"], "all secret keys", "Timing is not observable in unit tests.",
 ["src/native/ecc.rs", "src/native/eddsaposeidon.rs"], [("scalar multiplication", "src/native/ecc.rs")], ["execution time"])
P.sort(key=lambda p: (p["id"][0] != "C", p["id"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
