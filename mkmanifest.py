"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection"
checks = {
 "C01": ("simulated token streams over a lossy link, against a reference LALR parser, action by action",
         "Seeded search: generated grammars of many shapes, each compiled with the tree's macro; every call compared with a reference model written from the documentation (own LALR construction, packed by nothing). Trusts the model and that the grammars generated are representative; a clean run is evidence, not proof."),
 "C02": ("fault injection at every hook of simulated sessions; ledger of live values after every call",
         "Every value carries an identity and is counted on creation, hand-over, drop; faults (Err, panic, stack-type panic, abandonment, crash) placed by chance and by sweep over every hook. Sampled."),
 "C03": ("seeded schedules of many sessions on several threads, nested and moved; compared with each session alone",
         "OS threads run one at a time as the seed decides, preempted inside actions; every session's digest must equal that of the same calls run alone. Only instances the harness can schedule; no weak-memory effects (the generated code shares no mutable state by construction, which this check watches for)."),
 "C04": ("fault sweep over every action and callback, then further calls; error identity and silence compared with the model",
         "Every Err value is unique so the one returned is attributable. Sampled, plus a complete sweep of single faults over a share of the runs."),
 "C05": ("simulated token loss and corruption in grammars with error rules, against a reference recovery model",
         "The model follows the documented recovery, stack content included. Sampled."),
 "C06": ("simulated token loss and corruption in grammars without error rules, against a reference model",
         "Outcome and callback history compared call by call. Sampled."),
 "C07": ("simulated deep inputs against declared stack limits, with an instrumented user stack",
         "Height counted by the model and, where the grammar declares a stack type, by the stack itself. Sampled."),
 "C08": ("expected-token lists collected at every simulated syntax error, against the reference automaton",
         "List contents, order stability, payload rule, cloning and partial iteration are compared at each error. Sampled."),
 "C09": ("simulated streams over grammars with fallback chains and wildcards, against the reference lookup",
         "Which role each token is taken in and what its value becomes is compared step by step. Sampled."),
 "C10": ("unique values traced through simulated sessions, against a reference evaluation of the actions",
         "Every argument of every action compared by identity with what the model holds on its stack. Sampled."),
 "C11": ("expansion inside rustc with simulated hash seeds, heap layout, clock and order of expansion; outputs compared",
         "rustc runs under an LD_PRELOAD seam; good and spoiled grammars expanded in several worlds must give the same tokens or diagnostics and end. Sampled; nondeterminism other than hash seeds, addresses, clock and order is not simulated."),
 "C12": ("hostile and very long simulated sessions on a small native stack under a watchdog, work bounded by the model",
         "Every call must return, panics only where documented, hooks and pushes per call bounded by the model; native stack 1 MiB. Sampled."),
 "C14": ("authors' mistakes injected into generated grammars, expanded by rustc in simulated environments; verdicts against the reference tables",
         "The fault injected is the author's: rules and precedences edited at random (the reference tables say which results are still free of conflicts) and statements that contradict others. A grammar with such a fault must be refused with a diagnostic, any other must become a parser; the macro must not panic. There is no schedule: seed, edits and environment decide everything. Sampled."),
 "C16": ("state listings of generated and spoilt grammars against the reference automaton, and simulated sessions that must follow the automaton listed",
         "The listing is read back from the compiler's output; its states, items, actions and marks are compared with the reference construction, and the model of the session runs takes its tables from the listing instead of the reference. Grammars in which two symbols print alike are left out. Sampled."),
 "C13": ("extra argument carrying a history digest, compared with the model after every call and inside every hook",
         "The argument records each change with its order; faults and abandonment included. Sampled."),
}
na = {
 "C15": "A static fact about the generated items; there is no execution to simulate. Every corpus of the other checks does compile against the documented shape.",
}
m = {
 "version": 1,
 "setup_cmd": "cargo build --release --offline --quiet --manifest-path sim/Cargo.toml --target-dir target",
 "checks": [
  {"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"./check {k}", "evidence_file": f"evidence/{k}.json",
   "technique": f"{T}: {t}", "level": "exploration", "level_note": n} for k, (t, n) in checks.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in na.items()],
 "notes": "No hooks in /repo: the macro's public surface is the seam (user actions, callbacks, extra argument, user stack type, error types), and rustc's environment for C11. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
