"""P15: the buffering reader adapter."""
import json, random
from run.core import *


def p15(c):
    c.model("BufferImpl", "BufferImplAll", what="mechanism of the adapter stays within Buffer.tla: histories of any length", MAXOPS=100000)
    r = c.model("BufferImpl", what="the same, all histories of 4 calls", MAXOPS=4)
    l = sorted(r["emitted"], key=lambda s: json.dumps(s))
    rnd = random.Random(SEED)
    l = rnd.sample(l, 60000 if THOROUGH else 12000)
    for s in rnd.sample(l, 1500):
        l.append({**s, "how": rnd.choice(["slice", "nested"])})
    ops = ["look", "look", "len", "blen", "empty", "refill", "refill", "read", "read", "eat", "eat", "eat"]
    for _ in range(8000 if THOROUGH else 1500):      # longer histories: random walks
        l.append({"plan": rnd.choice([["1"], ["3"], ["9"], ["f", "2"], ["5", "1", "f"], ["40"], ["2", "f", "f", "7"]]),
                  "cap": rnd.choice([1, 2, 4, 7, 16, 64]), "len": rnd.choice([0, 1, 5, 30, 64, 90]),
                  "how": rnd.choice(["plain", "plain", "plain", "slice", "nested"]),
                  "o": [{"op": rnd.choice(ops), "n": rnd.choice([0, 1, 2, 3, 5, 8, 20])} for _ in range(rnd.randint(5, 30))]})
    with open(c.path("script"), "w") as f:
        for s in l:
            f.write(json.dumps(s) + "\n")
    c.harness("buffer", c.path("script"), c.path("trace"))
    c.validate(c.path("trace"), "BufferTrace", what="histories replayed on the real adapter over sources of every behaviour")
