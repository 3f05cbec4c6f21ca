"""Common machinery of the checks: building the harness, running TLC, judging results, evidence.

Outcomes: exit 0 (held), exit 1 with a VIOLATION line (broken), exit 2 (the check itself failed).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "brecv")
BIN_HOOKED = os.path.join(HARNESS, "target", "hooked", "debug", "brecv")
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
LEVEL = "model_checking"


class Broken(Exception):
    """The property does not hold; `info` goes into the replay file."""
    def __init__(self, what, info):
        super().__init__(what)
        self.what, self.info = what, info


class ToolError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update({"HOME": e.get("HOME", "/root"),
              "PATH": "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
              "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
              "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "VERIF_TIER": TIER, "VERIF_SEED": str(SEED)})
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build():
    """Builds the harness against /repo's working tree."""
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if p.returncode != 0 or not os.path.exists(BIN):
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def build_hooked():
    """The same with the hooks of /repo switched on. Returns False if /repo does not build with them."""
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", "target/hooked"], cwd=HARNESS,
                       env=env(RUSTFLAGS="--cfg brec_verif"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    return p.returncode == 0 and os.path.exists(BIN_HOOKED)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        base = os.path.join(ROOT, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = []
        self.exhaustive = []
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def harness(self, *args, timeout=600, binary=BIN, **kw):
        """Runs the harness. It catches panics of the code under test and reports them as data; if the code under
        test hangs (watchdog, 3), aborts or crashes the process, no episode can be completed: a violation."""
        p = subprocess.run([binary, *map(str, args)], cwd=self.dir, env=env(**kw), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        if p.returncode in (3, 101, -6, -11, -7, -4, 134, 139):
            why = {3: "hangs", 101: "fails unexpectedly"}.get(p.returncode, "crashes")
            raise Broken(f"the code under test {why} (harness {args[0]}, exit {p.returncode})",
                         {"command": list(map(str, args)), "stdout": p.stdout[-1000:], "stderr": p.stderr[-2000:]})
        if p.returncode != 0:
            raise ToolError(f"harness {args} exited {p.returncode}: {p.stdout[-500:]} {p.stderr[-1500:]}")
        return p.stdout

    def tlc(self, module, cfg=None, simulate=None, depth=None, workers=8, timeout=800, heap=None, extra=(), **kw):
        """Runs TLC. Returns a dict; a violated property is reported in it, other failures raise."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        java = ["java", "-XX:+UseParallelGC"] + ([f"-Xmx{heap}"] if heap else []) + ["-Xss64m"]
        cmd = java + ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                      "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(SEED)]
        cmd += list(extra)
        cmd += ["-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=self.dir, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {module} took longer than {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        r = {"rc": p.returncode, "out": out, "secs": round(time.time() - t, 1)}
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        if m:
            r["generated"], r["distinct"] = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m:
            r["generated"] = r["distinct"] = int(m[1].replace(",", ""))
        v = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|"
                      r"(Deadlock) reached|Property (\S+) is violated|Temporal property (\S+) was violated|Postcondition (\S+) is violated", out)
        r["violated"] = v.group(0) if v else None
        m = re.search(r"Finished computing initial states: ([\d,]+)", out)
        r["initial"] = int(m[1].replace(",", "")) if m else 0
        r["emitted"] = [json.loads(json.loads(l))for l in self._emits(out)]
        if not v and (p.returncode != 0 or "generated" not in r):
            raise ToolError(f"TLC {module} failed (rc {p.returncode}):\n" + "\n".join(
                x for x in out.splitlines() if "@@" not in x)[-3000:])
        return r

    @staticmethod
    def _emits(out):
        for l in out.splitlines():
            if l.startswith('"@@'):
                yield '"' + l[3:]

    def model(self, module, cfg=None, what="", exhaustive=True, keep_emits=False, **kw):
        """Model checking of the specification itself: a violation here is an error of the specification."""
        r = self.tlc(module, cfg, **kw)
        if r["violated"]:
            raise ToolError(f"the specification {module}/{cfg} violates its own property: {r['violated']}\n" + r["out"][-3000:])
        self.states += r.get("distinct", 0)
        self.transitions += r.get("generated", 0) - r["initial"]
        self.parts.append({"model": module, "config": cfg or module, "what": what, "distinct_states": r.get("distinct"),
                           "transitions": r.get("generated", 0) - r["initial"], "seconds": r["secs"]})
        self.exhaustive.append(exhaustive and "simulate" not in kw)
        return r

    def validate(self, trace, module, cfg=None, what="", var="l", count=None, group=None, **kw):
        """Trace validation: each line of the trace has to be allowed by the specification."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError(f"empty trace {trace}")
        r = self.tlc(module, cfg, TRACE=trace, PROP=self.prop, **kw)
        if r["violated"]:
            ls = re.findall(rf"^(?:/\\ )?{var} = (\d+)", r["out"], re.M)
            line = int(ls[-1]) if ls else 1
            ev = None
            with open(trace) as f:
                for i, text in enumerate(f, 1):
                    if i == line:
                        ev = json.loads(text)
            raise Broken(f"{module}: recorded execution is not allowed ({r['violated']}, line {line})",
                         {"module": module, "line": line, "event": ev, "what": what,
                          "tlc": [x for x in r["out"].splitlines() if "@@" not in x][-25:]})
        if r["distinct"] < n and not kw.get("simulate") and count is None:
            raise ToolError(f"{module}: only {r['distinct']} of {n} trace lines were examined")
        self.states += r["distinct"]
        self.transitions += r["generated"] - r["initial"]
        self.traces += count if count is not None else n
        with open(trace) as f:
            self.samples.append({"trace": what, "first_line": f.readline()[:600]})
        self.parts.append({"trace_spec": module, "what": what, "episodes": n, "distinct_states": r["distinct"], "seconds": r["secs"]})
        return r

    def evidence(self, violations):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": LEVEL,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:6] or ["none"],
                           "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def known(prop):
    """Known findings of this property (fixed ones suppress nothing and are not listed here)."""
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def main(prop, fn):
    c = Check(prop)
    try:
        build()
        fn(c)
        c.evidence(0)
        for k in known(prop):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        print(f"OK property={prop} states={c.states} traces={c.traces} wall={time.time()-c.t0:.1f}s")
        rc = 0
    except Broken as b:
        c.evidence(1)
        rdir = os.path.join(ROOT, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{SEED}-{TIER}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "what": b.what, **b.info}, f, indent=1)
        print(b.what)
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    except (ToolError, subprocess.TimeoutExpired) as e:
        print(f"ERROR of the check for {prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    return rc
