"""P07: rules."""
import json, random
from run.core import *


def p07(c):
    r = c.model("RulesModel", what="all histories of adding and removing rules, packets of every character", MAXOPS=4)
    l = sorted(r["emitted"], key=lambda s: json.dumps(s))
    n = 4681 if THOROUGH else 700
    if len(l) > n:
        l = [h for h in l if len(h) <= 2] + random.Random(SEED).sample([h for h in l if len(h) > 2], n)
    rnd = random.Random(SEED + 5)
    for _ in range(300 if THOROUGH else 60):    # longer histories: random walks of the same graph
        l.append([{"op": rnd.choice(["add", "add", "rem"]), "kind": rnd.choice(["ignored", "blocks", "payload", "packet"])}
                  for _ in range(rnd.randint(5, 12))])
    with open(c.path("script"), "w") as f:
        for h in l:
            f.write(json.dumps(h) + "\n")
    c.harness("rules", c.path("script"), c.path("trace"))
    c.validate(c.path("trace"), "RulesTrace", what="histories replayed on the stream reader, on single packets and on storages")
