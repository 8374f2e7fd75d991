"""Concrete runtime checks of the real code: laws over generated cases.

A law is (case generator, check).  A case is plain JSON data, so a failing case can be
written down and replayed.  check(case) runs the real code and raises Broken when the
property's postcondition does not hold; it returns False for a trivial case.
"""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback
import types


class Broken(Exception):
    """the postcondition does not hold on this case; finding = key of a specific known way of failing"""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Missing(Exception):
    """an entry point is not there (renamed, moved): the law says nothing"""


class Hang(Exception):
    pass


LAWS = []


class Law:
    def __init__(self, pid, name, gen, check, n, corners, thorough, timeout):
        self.pid, self.name, self.gen, self.check, self.n = pid, name, gen, check, n
        self.corners, self.thorough, self.timeout = list(corners), thorough, timeout


def law(pid, gen, n=200, corners=(), thorough=20, timeout=60, name=None):
    def deco(f):
        LAWS.append(Law(pid, name or f.__name__, gen, f, n, corners, thorough, timeout))
        return f
    return deco


def api(path):
    mod, _, qn = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for p in qn.split(".") if qn else []: o = getattr(o, p)
        return o
    except (ImportError, AttributeError) as e:
        raise Missing(f"{path}: {e}")


def need(c, msg, finding=None):
    if not c: raise Broken(msg, finding)


def close(a, b, tol=1e-9):
    if a is None or b is None: return a is b
    if a == b: return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def raises(exc, f, *a, **k):
    """(raised?, value): runs f; True when an exception of that type came out; other exceptions pass through"""
    try: return False, f(*a, **k)
    except exc as e: return True, e


def _innermost(tb, ):
    fr = None
    while tb is not None:
        fr = tb.tb_frame
        tb = tb.tb_next
    return fr


def run_case(law, case):
    """-> (status, message, finding): ok | trivial | broken | missing"""
    def onalarm(s, f): raise Hang(f"no result within {law.timeout} s")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(law.timeout)
    try:
        r = law.check(case)
        return ("trivial" if r is False else "ok"), "", None
    except Broken as e: return "broken", str(e), e.finding
    except Missing as e: return "missing", str(e), None
    except Hang as e: return "broken", f"does not finish: {e}", None
    except MemoryError: return "missing", "out of memory", None
    except Exception as e:
        fr = _innermost(e.__traceback__)
        here = fr.f_code.co_filename
        msg = f"{type(e).__name__}: {e}"
        loc = "".join(traceback.format_tb(e.__traceback__)[-3:])
        if os.sep + "harness" + os.sep in here:
            if isinstance(e, ImportError): return "missing", msg, None
            if isinstance(e, AttributeError) and isinstance(getattr(e, "obj", None), (types.ModuleType, type)): return "missing", msg, None
            if isinstance(e, TypeError) and ("argument" in str(e)) and "()" in str(e): return "missing", msg, None
        return "broken", f"unexpected {msg}\n{loc}", None
    finally:
        signal.alarm(0)


def cases(law, seed, tier, mult=1):
    n = law.n * mult * (law.thorough if tier == "thorough" else 1)
    return len(law.corners) + n


def case_at(law, seed, i):
    if i < len(law.corners): return law.corners[i]
    return law.gen(random.Random(f"{seed}:{law.name}:{i}"))


def worker(law, seed, idx, fd, deadline):
    res = {"evaluations": 0, "trivial": 0, "hashes": [], "fails": [], "missing": [], "samples": [], "gen_errors": [], "cut": False}
    hs = set()
    per_finding = {}
    for i in idx:
        if time.time() > deadline:
            res["cut"] = True
            break
        try: case = case_at(law, seed, i)
        except Exception as e:
            res["gen_errors"].append(f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
            break
        st, msg, finding = run_case(law, case)
        if st == "missing":
            res["missing"].append(msg)
            break
        res["evaluations"] += 1
        if st == "trivial": res["trivial"] += 1
        else:
            txt = json.dumps(case, sort_keys=True, default=str)
            hs.add(hashlib.md5(txt.encode()).hexdigest()[:12])
            if len(res["samples"]) < 1 and len(txt) < 1500: res["samples"].append({"law": law.name, "case": case})
        if st == "broken":
            per_finding[finding] = per_finding.get(finding, 0) + 1
            if per_finding[finding] <= 2: res["fails"].append({"law": law.name, "index": i, "case": case, "message": msg[:3000], "finding": finding})
            if sum(v for k, v in per_finding.items() if k is None) >= 3: break
    res["hashes"] = sorted(hs)
    data = json.dumps(res, default=str).encode()
    while data: data = data[os.write(fd, data):]


def run_laws(laws, seed, tier, workers=8, budget=300, mult=1):
    """all laws, each split over the workers; returns merged results"""
    out = {"evaluations": 0, "trivial": 0, "distinct": 0, "fails": [], "missing": [], "samples": [], "errors": [], "per_law": {}, "cut": []}
    t_end = time.time() + budget
    jobs = []
    for l in laws:
        n = cases(l, seed, tier, mult)
        k = min(workers, max(1, n // 5))
        for w in range(k): jobs.append((l, list(range(w, n, k))))
    running = {}
    hashes = {}
    while jobs or running:
        while jobs and len(running) < workers:
            l, idx = jobs.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1); os.dup2(dn, 2)
                    worker(l, seed, idx, w, t_end)
                except BaseException as e:
                    try: os.write(w, json.dumps({"crash": f"{type(e).__name__}: {e}"}).encode())
                    except Exception: pass
                finally: os._exit(0)
            os.close(w)
            running[r] = (l, pid, [])
        rd, _, _ = select.select(list(running), [], [], 1)
        for r in rd:
            l, pid, buf = running[r]
            d = os.read(r, 1 << 16)
            if d:
                buf.append(d)
                continue
            os.close(r)
            _, status = os.waitpid(pid, 0)
            del running[r]
            try: x = json.loads(b"".join(buf))
            except ValueError: x = {"crash": f"worker ended with status {status}"}
            if "crash" in x:
                out["errors"].append(f"{l.name}: {x['crash']}")
                continue
            pl = out["per_law"].setdefault(l.name, {"evaluations": 0, "trivial": 0})
            pl["evaluations"] += x["evaluations"]; pl["trivial"] += x["trivial"]
            out["evaluations"] += x["evaluations"]; out["trivial"] += x["trivial"]
            hashes.setdefault(l.name, set()).update(x["hashes"])
            out["fails"] += x["fails"]
            out["missing"] += [f"{l.name}: {m}" for m in x["missing"][:1]]
            out["errors"] += [f"{l.name}: {m}" for m in x["gen_errors"][:1]]
            if x["cut"]: out["cut"].append(l.name)
            if l.name not in [s["law"] for s in out["samples"]]: out["samples"] += x["samples"][:1]
        if time.time() > t_end + 90:
            for r, (l, pid, _) in list(running.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out["cut"].append(l.name)
            break
    out["distinct"] = sum(len(h) for h in hashes.values())
    for k, h in hashes.items(): out["per_law"][k]["distinct_nontrivial"] = len(h)
    out["cut"] = sorted(set(out["cut"]))
    return out
