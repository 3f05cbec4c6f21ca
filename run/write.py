"""P08: outputs that accept bytes as they like."""
import json
from run.core import *


def p08(c):
    r = c.model("ShortWrite", what="complete writes to outputs of every behaviour with up to 3 different answers", MAXPLAN=3)
    with open(c.path("script"), "w") as f:
        for s in sorted(r["emitted"], key=lambda s: json.dumps(s)):
            f.write(json.dumps(s) + "\n")
    c.harness("write", c.path("script"), c.path("trace"), 8 if THOROUGH else 2)
    c.validate(c.path("trace"), "WriteTrace", what="the same outputs given to every writer")
