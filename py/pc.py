"""Exhaustive exploration of enumerated spaces of Python-level behaviours (runner, oracle access, evidence)."""
import ctypes
import json
import math
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.environ.get("VERIF_DIR", "/verif")
MC = os.path.join(VERIF, "mc/target/release/mc")
NPROC = 8


class Bad(Exception):
    """The property does not hold on this case."""


def need(ok, msg):
    if not ok:
        raise Bad(msg() if callable(msg) else msg)


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.checks = self.nontrivial = 0


class Space:
    def __init__(self, name, what, size, fn):
        self.name, self.what, self.size, self.fn = name, what, int(size), fn


def digits(i, radix):
    out = []
    for r in radix:
        out.append(i % r)
        i //= r
    return out


def prod(r):
    p = 1
    for x in r:
        p *= x
    return p


# ---------------------------------------------------------------- the crate, as an oracle
class Oracle:
    def __init__(self):
        self.p = None
        self.cache = {}

    def ask(self, job, key=None):
        if key is not None and key in self.cache:
            return self.cache[key]
        if self.p is None:
            self.p = subprocess.Popen([MC, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if key is not None:
            self.cache[key] = r
        return r


ORACLE = Oracle()


def num(v):
    """float -> JSON"""
    v = float(v)
    if math.isnan(v):
        return None
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return v


def unnum(v):
    return float("nan") if v is None else float(v)


# ---------------------------------------------------------------- running a space
def _call(fn, i):
    st = Stats()
    try:
        fn(i, st)
        return st, None
    except Bad as e:
        return st, str(e)
    except MemoryError:
        raise
    except BaseException as e:  # a Rust panic arrives as BaseException
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc().strip().splitlines()
        return st, "unexpected %s: %s\n  %s" % (type(e).__name__, e, "\n  ".join(tb[-6:]))


def _worker(space, nxt, cur, stamp, k, q, chunk, deadline):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    import warnings

    warnings.simplefilter("ignore")
    ORACLE.p = None
    tot = Stats()
    done = 0
    found = []
    while len(found) < 3 and time.time() < deadline:
        with nxt.get_lock():
            a = nxt.value
            nxt.value = a + chunk
        if a >= space.size:
            break
        for i in range(a, min(a + chunk, space.size)):
            cur[k] = i
            stamp[k] = time.time()
            st, err = _call(space.fn, i)
            if err is not None:
                # believe it only if it happens again
                _, err2 = _call(space.fn, i)
                if err2 is not None:
                    found.append((i, err))
            for f in vars(tot):
                setattr(tot, f, getattr(tot, f) + getattr(st, f))
            done += 1
    cur[k] = -1
    q.put((k, vars(tot), done, found))


def run_space(space, deadline, nproc=NPROC):
    t0 = time.time()
    n = max(1, min(nproc, space.size))
    chunk = max(1, min(32, space.size // (n * 8) or 1))
    nxt = mp.Value(ctypes.c_long, 0)
    cur = mp.Array(ctypes.c_long, [-1] * n, lock=False)
    stamp = mp.Array(ctypes.c_double, [time.time()] * n, lock=False)
    q = mp.Queue()
    ps = [mp.Process(target=_worker, args=(space, nxt, cur, stamp, k, q, chunk, deadline)) for k in range(n)]
    for p in ps:
        p.start()
    tot = Stats()
    done = 0
    found = []
    left = set(range(n))
    while left:
        try:
            k, st, d, f = q.get(timeout=1)
            left.discard(k)
            done += d
            found += f
            for x, v in st.items():
                setattr(tot, x, getattr(tot, x) + v)
            continue
        except Exception:
            pass
        for k in list(left):
            if not ps[k].is_alive() and q.empty():
                time.sleep(0.5)
                if not q.empty():
                    continue
                i = cur[k]
                # the interpreter died inside case i; confirm in a fresh process
                p = mp.Process(target=_call, args=(space.fn, i))
                p.start()
                p.join(120)
                if p.exitcode is None:
                    p.kill()
                if p.exitcode != 0:
                    found.append((i, "the process is taken down (exit code %s)" % p.exitcode))
                left.discard(k)
            elif cur[k] >= 0 and time.time() - stamp[k] > 120:
                found.append((cur[k], "does not finish within 120 s"))
                ps[k].kill()
                left.discard(k)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return {"space": space, "stats": tot, "done": done, "found": sorted(found)[:3], "secs": time.time() - t0}


def main(prop, tier, spaces, only=None):
    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", "1500" if tier == "thorough" else "400"))
    reps = []
    for s in spaces:
        if only and s.name != only:
            continue
        r = run_space(s, t0 + budget)
        sys.stderr.write("%s %s: %d/%d cases, %.1fs, %d violation(s)\n" % (prop, s.name, r["done"], s.size, r["secs"], len(r["found"])))
        reps.append(r)
    viol = [(r["space"].name, i, m) for r in reps for i, m in r["found"]]
    tot = {f: sum(getattr(r["stats"], f) for r in reps) for f in vars(Stats())}
    cases = sum(r["done"] for r in reps)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "cases": cases,
            "nontrivial": tot["nontrivial"],
            "oracle_comparisons": tot["checks"],
            "exhaustive": all(r["done"] >= r["space"].size for r in reps) and not only,
            "rule": "stateless exhaustive enumeration: every index of every space below is executed on the Python package built from /repo's working tree and judged by an independent oracle; no index is sampled",
            "spaces": [{"name": r["space"].name, "what": r["space"].what, "size": r["space"].size, "explored": r["done"], "seconds": round(r["secs"], 2)} for r in reps],
            "samples": ["space %s case %d (of %d): %s" % (r["space"].name, r["done"] - 1, r["space"].size, "violated" if r["found"] else "held") for r in reps],
        },
        "wall_s": time.time() - t0,
        "violations": len(viol),
        "assumptions": ["behaviour outside the bounds listed per space is not decided", "numpy, pandas and scikit-learn as installed behave as documented"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=2)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for name, i, m in viol:
            path = os.path.join(VERIF, "replays", "%s-%s-%d.txt" % (prop, name, i))
            with open(path, "w") as f:
                f.write("replay with: %s/run.sh replay %s %s %s %d\n\n%s\n" % (VERIF, prop, tier, name, i, m))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + m.splitlines()[0][:300])
        return 1
    print("OK property=%s cases=%d states=%d transitions=%d" % (prop, cases, tot["states"], tot["transitions"]))
    return 0


def replay(spaces, name, idx):
    [s] = [s for s in spaces if s.name == name]
    _, err = _call(s.fn, idx)
    print("violated: " + err if err else "holds on %s %d" % (name, idx))
    return 1 if err else 0
