"""Machinery shared by every check: TLC runs, trace validation, graph replay,
known findings, evidence and verdicts."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself is broken (exit 2); never a verdict about the code."""


def _java():
    return shutil.which("java") or "/usr/bin/java"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.samples = []
        self.failures = []  # (clause, case, detail)
        self.designs = []
        self.assumptions = []
        self.per_op = {}

    # ---------------------------------------------------------------- random
    def np_rng(self, salt=0):
        import numpy as np

        return np.random.default_rng(self.seed * 7919 + salt)

    def torch_gen(self, salt=0):
        import torch

        g = torch.Generator()
        g.manual_seed(self.seed * 104729 + salt)
        return g

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers="auto", extra=(), timeout=800, heap="6g"):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        cmd = [_java(), "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def design(self, module, cfg=None, workers="auto", constants=None):
        """Exhaustively check a design specification: its invariants must hold."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module + ".tla", cfg, workers=workers, extra=("-deadlock",))
        gen, dist = self._counts(out)
        if rc != 0:
            raise Machinery(f"design {module}/{cfg} rc={rc}\n{out[-3000:]}")
        self.states += dist
        self.transitions += gen
        self.designs.append({"module": module, "cfg": cfg, "distinct_states": dist, "states_generated": gen})
        return dist

    def graph(self, module, cfg=None):
        """All transitions of a specification, emitted by its ACTION_CONSTRAINT Emit as
        @@EDGE@@ json lines, for replay into the implementation."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module + ".tla", cfg, workers=1, extra=("-deadlock",))
        gen, dist = self._counts(out)
        if rc != 0:
            raise Machinery(f"graph {module}/{cfg} rc={rc}\n{out[-3000:]}")
        edges = []
        for line in out.splitlines():
            i = line.find("@@EDGE@@")
            if i >= 0:
                s = line[i + 8:].rstrip().rstrip('"')
                edges.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
        self.states += dist
        self.transitions += gen
        self.designs.append({"module": module, "cfg": cfg, "distinct_states": dist,
                             "states_generated": gen, "edges": len(edges)})
        if not edges:
            raise Machinery(f"graph {module}: no edges emitted\n{out[-2000:]}")
        return edges

    def validate(self, module, events, cfg=None, name=None):
        """Validate recorded events against a trace specification. Returns failing
        (clause, case, event) triples, which are also registered as failures."""
        if not events:
            raise Machinery(f"{module}: empty trace")
        name = name or module
        path = os.path.join(self.out, f"{name}.ndjson")
        with open(path, "w") as f:
            for e in events:
                e.setdefault("case", "?")
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        for e in events:
            k = f"{module}.{e.get('op', '?')}"
            self.per_op[k] = self.per_op.get(k, 0) + 1
        rc, out = self._tlc(module + ".tla", cfg or module + ".cfg", env={"VTRACE": path}, workers=1,
                            extra=("-deadlock",))
        gen, dist = self._counts(out)
        bad, seen = [], set()
        for line in out.splitlines():
            i = line.find("@@BAD@@")
            if i >= 0:
                s = line[i + 7:].rstrip().rstrip('"')
                b = json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))
                for c in b["clauses"]:
                    if (c, b["l"]) not in seen:
                        seen.add((c, b["l"]))
                        bad.append((c, b["case"], events[b["l"] - 1]))
        if rc not in (0, 12) and 1 <= dist <= len(events) and "evaluating the nested" in out and "TLC was evaluating" in out:
            # the specification has no reading of this event (a value of the wrong kind or
            # far outside its number range): the recorded behaviour is not one of its own
            bad.append(("event-outside-specification", events[dist - 1]["case"], events[dist - 1]))
        elif rc not in (0, 12) or (rc == 12) != bool(bad) or dist < len(events) + 1:
            raise Machinery(f"trace {module} rc={rc} bad={len(bad)} dist={dist}/{len(events)+1}\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        self.traces += len(events)
        if len(self.samples) < 6:
            self.samples.append({"trace": name, "event": _short(events[len(events) // 2])})
        for c, case, ev in bad:
            self.failures.append((c, case, ev))
        return bad

    def fail(self, clause, case, detail):
        self.failures.append((clause, case, detail))

    # --------------------------------------------------------------- verdict
    def finish(self):
        known, fixed = load_findings()
        viol, seen = [], {}
        for clause, case, detail in self.failures:
            k = next((x for x in known if x["property"] == self.pid and x["clause"] == clause
                      and re.fullmatch(x["case"], case)), None)
            if k is not None:
                seen.setdefault((k["clause"], k["case"]), k)
            else:
                viol.append((clause, case, detail))
        for k in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} clause={k['clause']} case={k['case']} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none)"],
                "design_models": self.designs, "events_per_action": self.per_op,
                "edges_replayed_into_impl": self.replayed,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            rp = os.path.join(self.out, "replay.json")
            with open(rp, "w") as f:
                json.dump([{"clause": c, "case": s, "detail": d} for c, s, d in viol[:50]], f, indent=1, default=str)
            for c, s, d in viol[:10]:
                print(f"  failing clause={c} case={s} {json.dumps(_short(d), default=str)[:300]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"events={self.traces} replayed={self.replayed} wall={ev['wall_s']}s")
        return 0


def _short(o, n=24):
    if isinstance(o, dict):
        return {k: _short(v, n) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_short(v, n) for v in o[:n]] + ([f"...{len(o)}"] if len(o) > n else [])
    return o


def load_findings():
    known, fixed = [], []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) clause=(\S+) case=(\S+) (.*)", line)
                if not m:
                    raise Machinery("bad known-findings line: " + line)
                known.append(dict(property=m[1], clause=m[2], case=m[3], what=m[4]))
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


# ----------------------------------------------------------------- recorders
def digest(*tensors):
    """Bit-exact fingerprint of tensors/arrays/bytes (shape, dtype and data)."""
    h = hashlib.sha1()
    for t in tensors:
        if hasattr(t, "detach"):
            t = t.detach().cpu().contiguous()
            h.update(str((tuple(t.shape), str(t.dtype))).encode())
            h.update(t.numpy().tobytes())
        elif hasattr(t, "tobytes"):
            h.update(str((t.shape, str(t.dtype))).encode())
            h.update(t.tobytes())
        elif isinstance(t, bytes):
            h.update(t)
        else:
            h.update(repr(t).encode())
    return h.hexdigest()[:16]


def covering_walks(edges, init, limit=None, rng=None):
    """Action sequences from the initial state that together take every edge
    [src, act, dst] of a specification's transition graph (greedy: nearest
    uncovered edge next)."""
    from collections import deque

    adj, key = {}, lambda s: json.dumps(s, sort_keys=True)
    todo = set()
    for i, e in enumerate(edges):
        adj.setdefault(key(e["src"]), []).append((i, e["act"], key(e["dst"]), e))
        todo.add(i)
    walks, k0 = [], key(init)
    while todo and (limit is None or sum(map(len, walks)) < limit):
        cur, walk = k0, []
        while True:
            nxt = [t for t in adj.get(cur, []) if t[0] in todo]
            if nxt:
                t = rng.choice(nxt) if rng else nxt[0]
                walk.append(t[3])
                todo.discard(t[0])
                cur = t[2]
                if limit is not None and sum(map(len, walks)) + len(walk) >= limit:
                    break
                continue
            prev, dq, hit = {cur: None}, deque([cur]), None
            while dq and hit is None:
                n = dq.popleft()
                for t in adj.get(n, []):
                    if t[2] not in prev:
                        prev[t[2]] = (n, t)
                        if any(u[0] in todo for u in adj.get(t[2], [])):
                            hit = t[2]
                            break
                        dq.append(t[2])
            if hit is None:
                break
            path, n = [], hit
            while prev[n] is not None:
                path.append(prev[n][1])
                n = prev[n][0]
            for t in reversed(path):
                walk.append(t[3])
                todo.discard(t[0])
            cur = hit
        if not walk:
            break
        walks.append(walk)
    return walks


BIG = 2_000_000_000


def fx(x, scale):
    """float -> fixed point integer at `scale`, saturating; nan -> +BIG+1, inf -> +-BIG."""
    x = float(x)
    if x != x:
        return BIG + 1
    v = x * scale
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(round(v))


def rel(value, ref, floor=0.0):
    """<<value, reference>> as integers at the reference's decimal exponent (nine
    digits), or at the floor's if the reference is smaller."""
    import math

    value, ref = float(value), float(ref)
    if math.isinf(ref) or math.isnan(ref):
        same = (math.isnan(ref) and math.isnan(value)) or value == ref
        return [0, 0] if same else [0, 1_000_000_000]
    mag = max(abs(ref), abs(floor))
    if mag == 0.0:
        return [max(-1_000_000_000, min(1_000_000_000, fx(value, 1e12))), 0]
    scale = 10.0 ** (8 - math.floor(math.log10(mag)))
    lim = 1_050_000_000
    return [max(-lim, min(lim, fx(value, scale))), fx(ref, scale)]


def ranks(values):
    """Dense ranks (nan ranks above everything)."""
    key = [(1, 0.0) if v != v else (0, v) for v in values]
    order = {k: i for i, k in enumerate(sorted(set(key)))}
    return [order[k] for k in key]


def exc_name(e):
    return type(e).__name__


def guarded(fn, *a, **k):
    """-> (ok, value, exception name)"""
    try:
        return True, fn(*a, **k), ""
    except Exception as e:  # noqa: BLE001 - the code under test may raise anything
        return False, None, exc_name(e)


def main(run, pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        run(ctx)
        return ctx.finish()
    except Machinery as e:
        print("MACHINERY:", e)
        if ctx.failures:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        # an exception that escaped the recorder: if the innermost frame that is
        # not ours belongs to the code under test, the code raised where the
        # property promises a result.
        tb = sys.exc_info()[2]
        frames = traceback.extract_tb(tb)
        if any(f.filename.startswith(REPO + "/") for f in frames):
            ctx.fail("unexpected-exception", "uncaught", {"trace": [f"{f.filename}:{f.lineno} {f.name}" for f in frames][-6:],
                                                            "error": repr(sys.exc_info()[1])})
            return ctx.finish()
        # the recorder could not digest what the code under test returned: a
        # result of another type or shape than every caller relies on
        err = sys.exc_info()[1]
        digest = isinstance(err, RuntimeError) and "memory" not in str(err) and "thread" not in str(err)
        if digest or isinstance(err, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError)):
            ctx.fail("malformed-result", "uncaught", {"trace": [f"{f.filename}:{f.lineno} {f.name}" for f in frames][-6:],
                                                          "error": repr(sys.exc_info()[1])[:300]})
            return ctx.finish()
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
