"""Runner, monitor and evidence writer shared by all checks.

A property module (vf/pXX.py) defines

    ID, LEVEL, RULE           - strings
    SCENARIOS                 - list of Scenario(name, fn, quick, thorough, ...)
    MIN_EVENTS                - {event name: minimum count}; below it the run is inconclusive

Every scenario function gets (rng, mon, tier) for one case.  `mon` is the runtime monitor: the
oracles of the module report what they observed (mon.event), compare (mon.check/mon.close) and
record violations keyed by mechanism (mon.fail).  Cases are executed in forked worker
processes; the verdict is three-valued:
   exit 0  held on everything observed (and every deciding monitor was reached)
   exit 1  VIOLATION line, replay file
   exit 2  inconclusive (harness error, watchdog, monitor not reached)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib
from collections import Counter, namedtuple

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SCRATCH = os.environ.get("VF_SCRATCH", "/tmp")

Scenario = namedtuple("Scenario", "name fn quick thorough timeout serial")


def S(name, fn, quick, thorough, timeout=240, serial=False):
    """timeout: generous watchdog per case (s); serial: run alone (uses many processes)."""
    return Scenario(name, fn, quick, thorough, timeout, serial)


class Skip(Exception):
    """the generated case is outside the domain (counted, not evaluated)"""


class Violation(Exception):
    pass


class Monitor:
    """observes one case"""

    def __init__(self, prop, scenario, index):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.events = Counter()
        self.violations = []
        self.notes = {}
        self.sig = []
        self.maxdev = 0.0

    def note(self, **kw):
        self.notes.update(kw)

    def event(self, name, n=1):
        self.events[name] += n

    def distinct(self, *items):
        """what makes this case distinct"""
        self.sig.append(repr(items))

    def fail(self, key, msg, **data):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, msg=str(msg)[:4500], data={k: short(v) for k, v in data.items()}))

    def check(self, cond, key, msg="", **data):
        self.event("checks")
        if not bool(cond):
            self.fail(key, msg or key, **data)
            return False
        return True

    def equal(self, got, want, key, msg="", **data):
        return self.check(got == want, key, f"{msg} got {short(got)} expected {short(want)}", **data)

    def close(self, got, want, key, rtol=1e-8, atol=1e-12, msg="", shape=True, scale=None, **data):
        """numeric agreement; NaN only where NaN is expected; same shape"""
        self.event("checks")
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:  # not numeric at all
            self.fail(key, f"{msg} not numeric: {short(got)} ({e})", **data)
            return False
        if shape and g.shape != w.shape:
            self.fail(key, f"{msg} shape {g.shape} expected {w.shape}", **data)
            return False
        try:
            g, w = np.broadcast_arrays(g, w)
        except ValueError:
            self.fail(key, f"{msg} shape {g.shape} vs {w.shape}", **data)
            return False
        tol = atol + rtol * (np.abs(w) if scale is None else np.asarray(scale))
        with np.errstate(all="ignore"):
            dev = np.abs(g - w)
            bad = ~((dev <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = np.argmax(bad.ravel())
            self.fail(
                key,
                f"{msg} {bad.sum()}/{bad.size} values differ, first at {i}: got {g.ravel()[i]!r} "
                f"expected {w.ravel()[i]!r} (tol {np.broadcast_to(tol, g.shape).ravel()[i]:.3g})",
                **data,
            )
            return False
        fin = np.isfinite(dev)
        if fin.any():
            self.maxdev = max(self.maxdev, float((dev[fin] / np.broadcast_to(tol, g.shape)[fin]).max()))
        return True


def short(v, n=400):
    try:
        s = repr(v)
    except Exception as e:
        s = f"<unprintable {e!r}>"
    return s if len(s) <= n else s[: n - 3] + "..."


def case_rng(seed, prop, scenario, index):
    return np.random.default_rng([int(seed), zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), int(index)])


def from_repo(tb):
    """was the exception raised while code of the repository was running?"""
    root = os.path.realpath(os.path.join(REPO, "rt1")) + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(prop, sc, index, seed, tier):
    mon = Monitor(prop, sc.name, index)
    rng = case_rng(seed, prop, sc.name, index)
    t0 = time.time()
    status = "ok"
    err = None
    try:
        sc.fn(rng, mon, tier, index) if getattr(sc.fn, "wants_index", False) else sc.fn(rng, mon, tier)
    except Skip as e:
        status = "skip"
        err = str(e)
    except Exception as e:
        tbs = traceback.format_exc()
        if from_repo(e.__traceback__):
            # the property promises a result for this input: an exception of the code is a violation
            mon.fail(
                "exception:" + type(e).__name__ + ":" + _where(e.__traceback__),
                f"{type(e).__name__}: {e}",
                traceback=tbs[-1500:],
            )
        elif isinstance(e, (TypeError, ValueError, KeyError, IndexError, AttributeError)):
            # the oracle could not read the observed result (wrong type / missing entries / bad shape)
            mon.fail("unreadable-result:" + type(e).__name__, f"{type(e).__name__}: {e}", traceback=tbs[-1500:])
        else:
            status = "error"
            err = tbs
    return dict(
        scenario=sc.name,
        index=index,
        status=status,
        err=err,
        events=dict(mon.events),
        violations=mon.violations,
        notes={k: short(v, 300) for k, v in mon.notes.items()},
        sig=hashlib.md5("|".join(mon.sig).encode()).hexdigest() if mon.sig else None,
        maxdev=mon.maxdev,
        wall=time.time() - t0,
    )


def _where(tb):
    root = os.path.realpath(os.path.join(REPO, "rt1")) + os.sep
    w = "?"
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            w = os.path.basename(f)[:-3] + "." + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return w


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from . import hooks

    hooks.install()
    import rt1

    root = os.path.realpath(rt1.__file__)
    assert root.startswith(os.path.realpath(REPO) + os.sep), root
    logging.getLogger("rt1").setLevel(100)
    logging.disable(logging.CRITICAL)


def _worker(conn, prop, modname, seed, tier):
    try:
        if not os.environ.get("VF_DEBUG"):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        mod = importlib.import_module(modname)
        scs = {s.name: s for s in mod.SCENARIOS}
        while True:
            job = conn.recv()
            if job is None:
                break
            conn.send(run_case(prop, scs[job[0]], job[1], seed, tier))
    except EOFError:
        pass
    os._exit(0)


class Pool:
    """forked workers with a per-case watchdog; a stuck or dead worker is replaced"""

    def __init__(self, prop, modname, seed, tier, n):
        self.args = (prop, modname, seed, tier)
        self.n = n
        self.ctx = mp.get_context("fork")

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b,) + self.args)
        p.start()
        b.close()
        return [p, a, None, None]

    def run(self, jobs, scs, deadline):
        from multiprocessing.connection import wait

        jobs = list(jobs)[::-1]
        workers = [self._spawn() for _ in range(min(self.n, max(1, len(jobs))))]
        results = []
        for w in workers:
            self._next(w, jobs)
        while any(w[2] for w in workers):
            ready = wait([w[1] for w in workers if w[2]], timeout=1.0)
            now = time.time()
            for i, w in enumerate(workers):
                if not w[2]:
                    continue
                if w[1] in ready:
                    try:
                        results.append(w[1].recv())
                        self._next(w, jobs)
                        continue
                    except EOFError:
                        results.append(self._dead(w, "worker died"))
                        self._kill(w)
                        workers[i] = self._spawn()
                        self._next(workers[i], jobs)
                        continue
                if now - w[3] > scs[w[2][0]].timeout or now > deadline:
                    results.append(self._dead(w, "watchdog"))
                    self._kill(w)
                    if now > deadline:
                        w[2] = None
                        jobs.clear()
                    else:
                        workers[i] = self._spawn()
                        self._next(workers[i], jobs)
        for w in workers:
            try:
                w[1].send(None)
            except Exception:
                pass
        for w in workers:
            w[0].join(5)
            if w[0].is_alive():
                self._kill(w)
        return results

    def _dead(self, w, why):
        return dict(scenario=w[2][0], index=w[2][1], status="error", err=why, events={}, violations=[], notes={}, sig=None, maxdev=0.0, wall=time.time() - w[3])

    @staticmethod
    def _kill(w):
        try:
            w[0].kill()
            w[0].join(5)
        except Exception:
            pass

    @staticmethod
    def _next(w, jobs):
        if jobs:
            w[2] = jobs.pop()
            w[3] = time.time()
            w[1].send(w[2])
        else:
            w[2] = None


def known_findings(prop):
    """lines `finding: property=P07 key=<mechanism key> <what fails>` of known_findings.txt"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                assert key.startswith("key=")
                out[key[4:]] = what
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop.upper()
    modname = "vf." + prop.lower()
    quiet()
    mod = importlib.import_module(modname)
    scs = {s.name: s for s in mod.SCENARIOS}

    if a.replay:
        r = json.load(open(a.replay))
        res = run_case(prop, scs[r["scenario"]], r["index"], r["seed"], r["tier"])
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["violations"] else (0 if res["status"] == "ok" else 2)

    tier = a.tier
    scale = float(os.environ.get("VF_SCALE", "1"))
    only = os.environ.get("VF_ONLY")
    njobs = int(os.environ.get("VF_JOBS", "8"))
    par, ser = [], []
    for s in mod.SCENARIOS:
        if only and s.name not in only.split(","):
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(round(n * scale))) if n else 0
        (ser if s.serial else par).extend((s.name, i) for i in range(n))
    # interleave the scenarios
    par.sort(key=lambda j: (zlib.crc32(repr(j).encode())))
    budget = 820 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    results = []
    if par:
        results += Pool(prop, modname, a.seed, tier, njobs).run(par, scs, deadline)
    if ser:
        results += Pool(prop, modname, a.seed, tier, 1).run(ser, scs, deadline)
    return report(mod, prop, a, tier, results, t0, only)


def report(mod, prop, a, tier, results, t0, only):
    known = known_findings(prop)
    events = Counter()
    for r in results:
        events.update(r["events"])
    viol = [(r, v) for r in results for v in r["violations"]]
    new = [(r, v) for r, v in viol if v["key"] not in known]
    seen_known = Counter(v["key"] for r, v in viol if v["key"] in known)
    errors = [r for r in results if r["status"] == "error"]
    skips = [r for r in results if r["status"] == "skip"]
    done = [r for r in results if r["status"] == "ok"]
    sigs = {r["sig"] for r in done if r["sig"]}
    per = {}
    for r in results:
        d = per.setdefault(r["scenario"], dict(cases=0, skipped=0, errors=0, checks=0, seconds=0.0))
        d["cases"] += 1
        d["skipped"] += r["status"] == "skip"
        d["errors"] += r["status"] == "error"
        d["checks"] += r["events"].get("checks", 0)
        d["seconds"] = round(d["seconds"] + r["wall"], 2)
    samples = []
    seen = set()
    for r in sorted(done, key=lambda r: r["index"]):
        if r["scenario"] not in seen and r["notes"]:
            seen.add(r["scenario"])
            samples.append(dict(scenario=r["scenario"], index=r["index"], **r["notes"]))
    minev = getattr(mod, "MIN_EVENTS", {})
    # (the counts vary with the seed; half of them still shows that the monitors observed what they are made for)
    starved = {} if only else {k: (events.get(k, 0), n) for k, n in minev.items() if events.get(k, 0) < (n + 1) // 2}
    ev = dict(
        property=prop,
        tier=tier,
        seed=a.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples[:12] or [dict(none=True)],
            observed_events=dict(sorted(events.items())),
            per_scenario=per,
            skipped=len(skips),
            worst_tolerance_fraction=round(max([r["maxdev"] for r in done] or [0.0]), 6),
        ),
        wall_s=round(time.time() - t0, 2),
        violations=[dict(key=v["key"], scenario=r["scenario"], index=r["index"], msg=v["msg"]) for r, v in new[:50]],
        known_findings=dict(seen_known),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))

    print(f"{prop} tier={tier} seed={a.seed}: {len(results)} cases ({len(skips)} outside the domain), "
          f"{events.get('checks', 0)} oracle decisions, {len(sigs)} distinct, {time.time() - t0:.1f}s")
    for k, d in sorted(per.items()):
        print(f"   {k:<28} {d}")
    print("   observed:", dict(sorted(events.items())))
    if new:
        keys = {}
        for r, v in new:
            keys.setdefault(v["key"], []).append((r, v))
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for key, lst in list(keys.items())[:10]:
            r, v = min(lst, key=lambda x: (x[0]["scenario"], x[0]["index"]))
            h = hashlib.md5(f"{prop}{key}{r['scenario']}{r['index']}{a.seed}{tier}".encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, scenario=r["scenario"], index=r["index"], seed=a.seed, tier=tier,
                               key=key, msg=v["msg"], data=v["data"], case=r["notes"], occurrences=len(lst)), f, indent=1, default=str)
            print(f"  [{key}] x{len(lst)} {r['scenario']}#{r['index']}: {v['msg'][:600]}")
            print(f"      case: {str(r['notes'])[:800]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
        return 1
    for key, what in known.items():
        if seen_known.get(key) or only is None:
            print(f"KNOWN-FINDING: property={prop} {what} [{key}; seen {seen_known.get(key, 0)}x]")
    if errors:
        for r in errors[:5]:
            print(f"HARNESS-ERROR {r['scenario']}#{r['index']}: {r['err']}")
        print(f"INCONCLUSIVE property={prop}: {len(errors)} cases without a verdict")
        return 2
    if starved:
        print(f"INCONCLUSIVE property={prop}: monitors not reached often enough: {starved}")
        return 2
    print(f"HELD property={prop}")
    return 0


if __name__ == "__main__":
    from vf.core import main as _main

    sys.exit(_main(sys.argv[1:]))
