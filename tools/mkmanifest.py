#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
T = "TLA+ specification checked with TLC; "
REPLAY = "histories enumerated from the specification replayed on the real code; recorded executions validated by TLC"
NOTE = {}
def n(p, tech, note): NOTE[p] = (T + tech, note)
n("P01", "byte-level wire format evaluated by TLC over recorded round trips on every reader", "TLC recomputes the encoding (including CRC-32) of every recorded packet and decides each reader's result and stopping position. Bounded: seeded values plus all boundary values per field type; schemas are those of the harness.")
n("P02", "byte-level wire format evaluated by TLC over the bytes of every writer", "Every byte is derived from the specification alone, so changes made consistently in writer and reader are seen. Bounded as P01.")
n("P03", "abstract damage model plus recorded damaged decodes judged by TLC", "Every byte position (single-bit and byte changes) of chosen packets, every reader; multi-byte damage sampled. CRC collisions are excluded by construction (single-burst damage within 32 bits or judged by recomputation).")
n("P04", "recorded partial decodes of every prefix judged by TLC", "Every prefix of chosen items and every partial-aware reader; rejections as in P03.")
n("P05", "mechanism model of the stream reader refines the abstract stream; " + REPLAY, "Exhaustive for the abstract mechanism up to 8/9 symbols with every chunking; the real reader is bound by replaying scenarios of up to 3 segments exhaustively enumerated/sampled and longer random walks.")
n("P06", "as P05 with damaged packets of every kind; " + REPLAY, "As P05; damage kinds are those listed in StreamGen. Progress is checked on the model as a liveness property and on the code by bounded calls.")
n("P07", REPLAY, "All add/remove histories of up to 4 operations on the stream reader, single packets and storage; longer ones sampled.")
n("P08", REPLAY, "All outputs with up to three different answers, cyclic or not, for every writer.")
n("P15", "mechanism model of the adapter checked against the transparent reader for histories of any length; " + REPLAY, "Mechanism: exhaustive for a 6-byte source, three inner capacities, six source behaviours. Code: all histories of 4 calls sampled, longer random walks.")
n("P16", "mechanism model with failures refines the abstract stream; " + REPLAY, "As P05 with up to two failures in the model and failures at every read in the replay.")
n("P18", "recorded packets around the limit on every reader judged by TLC", "Counts 0..600 around the limit, for all readers, in streams and storages.")
from_extra = os.path.join(ROOT, "tools", "manifest_extra.py")
if os.path.exists(from_extra):
    exec(open(from_extra).read())
ALL = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = globals().get("NA", {})
m = {"version": 1,
     "setup_cmd": "./check --setup",
     "hooks": {"guard": "brec_verif", "enable": "RUSTFLAGS='--cfg brec_verif' (only for the harness build that drives the file sensor, P14)", "source_commits": HOOK},
     "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": NOTE[p][0], "level": "model_checking", "level_note": NOTE[p][1]}
                for p in ALL if p in NOTE],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ALL if p not in NOTE],
     "notes": "TLA+ modules in spec/, bound to the code through harness/ (records executions) and run/ (drives TLC). See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
