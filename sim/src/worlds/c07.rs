//! Verification at the command line tells the truth about the files.
use crate::cli::*;
use crate::core::*;
use crate::runner::World;

pub const WORLD: World = World {
    id: "C07",
    run,
    quick: 3000,
    thorough: 100_000,
    rule: "a run is a history of 2-13 commands of one of the four command line programs on one simulated machine, with file system faults inside commands and copies, damages, removals and power losses between them; non-trivial: at least one injected fault and one oracle comparison; distinct by hash of the event history",
    state_measure: "(program, truth of the files, answer, faults) tuples seen at verify, and event histories",
    real: &["the four cli_main programs (setup, prove, verify, generate-test-data, generate-verifier), key generation, proving, verification, all encodings", "bellman_ce, serde_json, base64, std::fs"],
    stub: &["the C library's file, standard output and entropy calls (in-memory disk with page cache and power loss)", "clap's argument parser"],
    assumptions: &["bellman_ce's own verify_proof and parameter codec, pairing_ce, serde_json and base64 are right", "spellings that the format leaves open (whitespace around base64, bytes after a waves proof, alternative number spellings in JSON) may be accepted or refused"],
};

fn run(ctx: &Ctx) -> Outcome {
    history(ctx, Focus::C07)
}
