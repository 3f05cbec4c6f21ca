"""P01, P02, P03, P04, P18: the wire format and everything that reads or writes single items."""
import json
from run.core import *


def sessions(c, maxb):
    r = c.model("WireModel", what=f"format model: all packet shapes with up to {maxb} blocks, all prefixes, altered bytes", MAXB=maxb, EMIT=1)
    p = c.path("sessions.jsonl")
    with open(p, "w") as f:
        for s in sorted(r["emitted"], key=lambda s: json.dumps(s, sort_keys=True)):
            f.write(json.dumps(s) + "\n")
    return p


def p01(c):
    s = sessions(c, 3 if THOROUGH else 2)
    c.harness("rt", s, c.path("rt"), 3 if THOROUGH else 1)
    c.validate(c.path("rt"), "WireTrace", what="items written back to back, read by every pair of readers")


def p02(c):
    s = sessions(c, 3 if THOROUGH else 2)
    c.harness("enc", s, c.path("enc"), 2 if THOROUGH else 1)
    c.validate(c.path("enc"), "WireTrace", what="bytes of every writer compared with the specified encoding; storage layout")


def p03(c):
    sessions(c, 1)
    c.harness("dmg", c.path("dmg"))
    c.validate(c.path("dmg"), "WireTrace", what="every byte altered (and bursts up to 32 bits), every reader")


def p04(c):
    sessions(c, 1)
    c.harness("pre", c.path("pre"))
    c.validate(c.path("pre"), "WireTrace", what="every prefix of every item, and growing inputs, every partial-aware reader")
    c.harness("rej", c.path("rej"))
    c.validate(c.path("rej"), "WireTrace", what="position after rejection of altered items")


def p18(c):
    sessions(c, 1)
    c.harness("lim", c.path("lim"))
    c.validate(c.path("lim"), "WireTrace", what="block counts around the limit, every reader, neighbours in streams and storages")
