S = "Seeded sampling: a clean batch is evidence over the runs, faults and states counted in the evidence file, not proof. "
world("C01", "deterministic simulation: stream fault injection against a reference codec",
 S + "Real code: key read/write. Simulated: the byte streams. Trusts pairing_ce's point codec and group law.")
world("C02", "deterministic simulation: stream fault injection against a reference codec",
 S + "Real code: proof read/write. Simulated: the byte streams. Trusts pairing_ce's point codec and group law.")
world("C03", "deterministic simulation: stream fault injection and message corruption against a reference codec",
 S + "Real code: the Borsh impls. Simulated: the writers and the messages. The little-endian layout is restated in the harness.")
world("C04", "deterministic simulation: stream fault injection and message corruption against a reference parser",
 S + "Real code: the serde impls. Simulated: the byte streams and the messages. Trusts serde_json.")
world("C05", "deterministic simulation: Byzantine messages against an independent membership oracle",
 S + "Real code: the importers. Simulated: the sender and the stream. Trusts pairing_ce's group law for the subgroup test.")
world("C08", "deterministic simulation: entropy-source fault injection through interposed system calls",
 S + "Real code: osrng, key generation, proving, key derivation and the rand/getrandom crates. Simulated: the getrandom system call and /dev/urandom. Statistical quality of the kernel's entropy is assumed.")
world("C11", "deterministic simulation: Byzantine prover sessions over recorded constraint systems",
 S + "Real code: the number, boolean, bit and composite gadgets. Simulated: the prover's witness (a seeded cheating prover with root solving and alias decompositions), the proving backend (recorder). Not a decision procedure for under-constraint.")
world("C12", "deterministic simulation: Byzantine prover sessions over recorded constraint systems",
 S + "Real code: the curve gadgets on both curves. Simulated: the prover's witness (directed preimage and root attacks plus seeded search), the proving backend (recorder). Not a decision procedure for under-constraint.")
world("C13", "deterministic simulation: Byzantine prover sessions over recorded constraint systems",
 S + "Real code: hash, Merkle and signature gadgets. Simulated: the prover's witness (directed preimage and alias attacks plus seeded search), the proving backend (recorder). Not a decision procedure for under-constraint.")
world("C06", "deterministic simulation: command histories on a simulated disk with I/O faults, crashes and power loss",
 S + "Real code: the four command line programs end to end. Simulated: file, stdout and entropy system calls, argument parser. Trusts bellman_ce's verifier and parameter codec.")
world("C07", "deterministic simulation: command histories on a simulated disk with tampering, crashes and power loss",
 S + "Real code: the four command line programs end to end. Simulated: file, stdout and entropy system calls, argument parser. The oracle reads the files with independent decoders and bellman_ce's verifier.")
world("C09", "deterministic simulation: setup, provers and verifiers on a simulated network with message faults, crashes and clock skew",
 S + "Real code: the whole proving pipeline and all codecs. Simulated: network, clocks, crashes, entropy. Circuits are random programs of the repository's gadgets and one composite statement.")
world("C10", "deterministic simulation: Byzantine provers and relays against an exponent-level oracle",
 S + "Real code: the verifier, codecs, key generation and proving. Simulated: provers and relay. With known trapdoors the oracle is the equation between exponents; with generated keys it is the recorded constraint system and the backend's verifier.")
world("C14", "deterministic simulation: signers, tree keeper and verifiers on a simulated hostile network with crashes",
 S + "Real code: native signatures, curve, hash and Merkle functions with their codecs. Simulated: network, crashes, relay, malicious signer. The oracle is an independent model of hash, curve and signature equation.")
world("C15", "deterministic simulation: real threads under a seeded scheduler, down to single instructions, with aborts",
 S + "Real code: every entry point, on real threads, with the standard library's locks. Simulated: the scheduler, futex, entropy, streams, panicking circuits. Each result is compared with that of the same call alone in a fresh process. Weak memory orders are not simulated.")
world("C16", "deterministic simulation: the generated contract executed on a simulated chain with hostile callers, failing precompiles and limited gas",
 S + "Real code: the contract's text as generated, into_data, the library's verifier as the reference. Simulated: compiler and virtual machine (an interpreter of the text), precompiled contracts, gas, callers.")
world("C17", "deterministic simulation: parties with interleaved request histories, failures and restarts refined against an executable model of the derivation",
 S + "Real code: generator, hash and curve parameter derivation, hash, hash to curve. Simulated: the parties and their histories. Each run is a fresh process, so what the library keeps between calls is part of the history. The published derivation is restated in the harness.")
world("C18", "deterministic simulation: replicated ledger and shared secrets on a simulated network with message faults and crashes, refined against integers modulo the prime",
 S + "Real code: numbers of six fields with their conversions and operators. Simulated: network, clocks, crashes, logs. The reference is num-bigint.")
world("C19", "deterministic simulation: collectors of points on a simulated network with message faults, crashes and Byzantine contributors, refined against a model of the group",
 S + "Real code: the native curve code on both curves. Simulated: network, clocks, crashes, contributors. The reference is a separate affine implementation over pairing_ce's base fields.")
