"""P05, P06, P16: the stream reader."""
import json, random
from run.core import *


def scenarios(c, segs, plans, keep, n):
    """Scenarios enumerated by StreamGen; `n` of those that satisfy `keep` (all if there are fewer)."""
    r = c.model("StreamGen", what=f"all scenarios of up to {segs} segments, chunkings: {plans}", MAXSEGS=segs, PLANS=plans)
    l = sorted((s for s in r["emitted"] if keep(s)), key=lambda s: json.dumps(s, sort_keys=True))
    big = [s for s in l if s["large"]]
    l = [s for s in l if not s["large"]]
    rnd = random.Random(SEED)
    if len(l) > n:
        l = rnd.sample(l, n)
    k = max(20, n // 20)
    return l + (rnd.sample(big, k) if len(big) > k else big)


def longer(keep_kinds, n, lo, hi):
    """Random walks of the same scenario graph, beyond the exhaustive bound."""
    rnd = random.Random(SEED * 7 + 3)
    small = [k for k in keep_kinds if k not in ("big", "biglit", "full", "over", "cut")]
    out = []
    for _ in range(n):
        segs = [rnd.choice(small) for _ in range(rnd.randint(lo, hi))]
        out.append({"segs": segs, "plan": "any", "large": False})
    return out


GOOD = ["hdr", "small", "mid", "full", "big", "nested"]
FOREIGN = ["lit1", "lit7", "lit", "biglit", "half", "sig7", "sigjunk", "sigshort", "sigsig"]
BROKEN = ["badhdr", "badblk", "unkblk", "badpl", "unkpl", "blover", "over", "plover", "plhdr", "plcap", "rnddmg"]


def replay(c, l, mode, what):
    with open(c.path("script"), "w") as f:
        for s in l:
            f.write(json.dumps(s) + "\n")
    c.harness("stream", c.path("script"), c.path("trace"), mode)
    c.validate(c.path("trace"), "StreamTrace", what=what)


def mechanism(c, fails):
    n = 9 if THOROUGH else 8
    c.model("StreamImpl", what=f"mechanism of the stream reader refines Stream: all inputs of up to {n} symbols, all chunkings, {fails} failures",
            MAXLEN=n, MAXCHUNK=n, MAXFAIL=fails)
    c.model("StreamImpl", "StreamImplLive", what="reading always ends", MAXLEN=n - 2, MAXCHUNK=n - 2, MAXFAIL=fails)


def p05(c):
    mechanism(c, 0)
    ok = lambda s: not s["broken"]
    l = scenarios(c, 2, "all", ok, 6000 if THOROUGH else 1200)
    l += scenarios(c, 3, "any", ok, 6000 if THOROUGH else 900)
    l += longer(GOOD + FOREIGN, 1500 if THOROUGH else 150, 4, 14)
    replay(c, l, "plain", "packets and foreign bytes, every chunking")


def p06(c):
    mechanism(c, 0)
    bad = lambda s: s["broken"]
    l = scenarios(c, 2, "all", bad, 6000 if THOROUGH else 900)
    l += scenarios(c, 3, "any", bad, 9000 if THOROUGH else 1200)
    l += longer(GOOD + FOREIGN + BROKEN * 2, 1500 if THOROUGH else 150, 4, 14)
    replay(c, l, "plain", "damaged packets among intact ones and foreign bytes")


def p16(c):
    mechanism(c, 2)
    any_ = lambda s: not s["large"] or SEED % 2 == 0 or "over" not in s["segs"]
    l = scenarios(c, 2, "all", any_, 1500 if THOROUGH else 250)
    l += scenarios(c, 3, "any", any_, 2000 if THOROUGH else 250)
    l += longer(GOOD + FOREIGN + BROKEN, 500 if THOROUGH else 50, 4, 10)
    replay(c, l, "fail", "the source fails at every point and continues")
