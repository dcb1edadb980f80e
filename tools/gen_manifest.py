#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. C(id, technique, level, note) per claimed property."""
import json, subprocess
checks = []
def C(id, technique, note, level="exploration"):
    checks.append({"property": id, "quick_cmd": f"./run.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {id}",
        "technique": technique, "level": level, "level_note": note})
HIST = "property-based testing: generated operation histories against a map-based reference model"
SIM = " TiKV is an in-memory stand-in for the raw client API."
C("C01", HIST, "Random search over histories, label universes and ranges for all four backend pairs, every answer compared exactly." + SIM)
C("C04", HIST + " (adversarial label values)", "As C01, over label sets that textual encodings could confuse." + SIM)
C("C05", HIST + " with rollovers", "Rollovers are triggered at generated times through a guarded hook that calls the function the timer calls." + SIM)
C("C06", HIST + " with reopening", "Directories are flushed, copied and opened again within one process; all answers compared exactly." + SIM)
C("C11", "property-based testing: generated histories with generated request failures against a reference model", "Failures placed at generated requests of writes, rollovers and openings, with and without effect." + SIM)
C("C12", "property-based testing: generated histories with generated request failures against a reference model", "Failures placed at generated requests of queries; an answer has to be exact or an error." + SIM)
C("C15", "property-based testing: round trip over structured sample sequences", "Random search aimed at the widths of the encoding; whole, batched and single compaction.")
C("C16", "property-based testing and mutation of compacted data; no panic, bounded output, prefix kept", "Random search over damage to valid encodings and random bytes.")
C("C18", "property-based testing: round trips of names and options", "Random search over boundary-heavy 64-bit pairs, foreign names and damaged files.")
C("C19", "property-based testing: differential against set intersection", "Random search over up to 40 lists, each intersected twice.")
C("C20", "property-based testing: stateful, byte-exact differential against an independent encoder", "Random search over entries, policies, writers that take bytes piecemeal; the time-based policy is left out.")
C("C21", "property-based testing: algebraic laws and use as map keys", "Random search over related label sets and samples.")
C("C23", HIST + " with repeated and late samples", "First write wins in the model; every answer compared exactly." + SIM)
C("C25", HIST + " with failing rollovers", "The builders handed to the database fail at generated rollovers, before or after having built." + SIM)
HTTP = "property-based testing: generated request sequences over TCP against a reference model and an independent codec"
C("C02", "property-based testing: generated series and ranges against a map, on the storages directly", "Every sample boundary and its neighbours are asked for; both storages." + SIM)
C("C03", "property-based testing: generated series sets and selections against a set model, on the indexers directly", "Random label universes with shared, nested and similar sets; both indexers." + SIM)
C("C13", HTTP, "Random series, queries, field orders, chunked and plain transfer; the sign of zero is not compared." + SIM)
C("C14", HTTP + ", with damaged requests in between", "Random damage to messages, compression, transfer and connections; after each the server has to answer and hold what it held." + SIM)
C("C17", HIST + " over several storages, indexers and databases in one store", "Random orders of opening, writing and reopening, adversarial values." + SIM)
C("C22", HIST + " around both ends of the window", "Chunks of random windows directly and through the database." + SIM)
C("C24", HTTP + ", matchers of all four operators", "A refusal passes, an answer has to be exact; a dozen patterns with hand-written matching." + SIM)
C("C07", "property-based testing with generated crash points: processes ended at a chosen file operation, an oracle over what the next ones return", "File operations are counted by functions that replace those of libc; a crash is the end of the process, page cache kept." + SIM)
C("C08", HIST + " with attempts of other backend pairs", "All pairs of the four, and made-up backends with related type names." + SIM)
SCHED = "property-based testing with generated schedules: threads that write, query and roll over, switched at generated points of the store and of the hooks, and running freely; shrunk on failure; oracle over the history"
C("C09", SCHED, "Random schedules with few switches plus free-running threads; not all interleavings, and switches only at store requests, locks and file operations." + SIM)
C("C10", SCHED, "As C09, with bounds on what a query may return from what was acknowledged before it began and begun before it ended." + SIM)
C("C26", "property-based testing: generated turns of the timer on virtual time against a reference model, and free-running databases on real time", "Sleeps of the timer thread are moved by hand through its long sleep call; real-time runs cover short windows." + SIM)
C("C27", "property-based testing: generated command lines against an independent reading of them, on the library and on the started program", "Random lines with numbers around and beyond all limits; the program is talked to over HTTP." + SIM)
checks.sort(key=lambda c: c["property"])
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
have = {c["property"] for c in checks}
NA = {}
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in have]
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^Verification hooks"], text=True).split()
json.dump({"version": 1, "setup_cmd": "./run.sh build",
  "hooks": {"guard": "--cfg monolith_verif", "enable": "harness/.cargo/config.toml passes --cfg monolith_verif to rustc; run.sh builds /repo's crate as a path dependency of the harness", "source_commits": hook},
  "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
