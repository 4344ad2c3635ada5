"""P18: parallel processing delivers every site exactly once, independent of scheduling."""
import glob
import os

import numpy as np
import pandas as pd

from . import proc
from .core import S
from .storecheck import check_store, numbers, part, same_frame

ID = "P18"
LEVEL = "exploration"
RULE = (
    "run: real RTprocess.run_processing calls in an own process group (random configurations, 2-14 sites, 1-5 workers, random reader delays that permute the completion order, site lists "
    "passed directly or by preprocess(), dumps, indexes, log levels); the resulting store, dumps and event log are compared with fits made one after the other. pipeline: the worker/combiner/writer "
    "pipeline with 1-5 workers, 1-4 combiners, 1-3 writers, chunk sizes 1-1000 and output caches 1-10 on up to 250 items with delays. slow: the same pipeline with storage that stalls for longer than any timeout (full output caches) or with a slow combination of the results.  Distinct by configuration, site list and schedule."
)
MIN_EVENTS = {"runs": 8, "sites-compared": 40, "pipelines": 8, "items": 300, "workers-seen": 12, "stalls": 1, "slow-combinations": 1}


def run_case(rng, mon, tier):
    ncfg = int(rng.choice([0, 0, 1, 2, 3]))
    cfg = proc.gen_config(rng, ncfg=ncfg)
    n = int(rng.integers(2, 15))
    kind = rng.integers(3)
    ids = [int(x) for x in rng.permutation(40)[:n]]
    if kind == 1:
        ids = [f"site_{x}" for x in ids]
    elif kind == 2:
        ids = [f"S-{x} a_{x}" for x in ids]
    ncpu = int(rng.integers(1, 6))
    plan = {i: dict(delay=round(float(rng.uniform(0, 1.2)), 3)) for i in ids if rng.random() < 0.5}
    if rng.random() < 0.3:  # a straggler that is later than a flush of the others
        plan[ids[int(rng.integers(n))]] = dict(delay=float(rng.uniform(5.2, 8)))
    kw = dict(dump_fit=bool(rng.random() < 0.4), create_index=[False, True, dict(idx_levels="all")][rng.integers(3)], logfile_level=[None, 21, 10][rng.integers(3)])
    extra = ""
    pre = bool(rng.random() < 0.4)
    args = [proc.Box.arg(i) for i in ids]
    if pre:
        extra = f"""
    def preprocess(self, **kw):
        event("preprocess", sorted(kw))
        return dict(reader_args={args!r}, pool_kwargs=dict(maxtasksperchild={[None, 1, 3][rng.integers(3)]!r}))
"""
    mon.note(ids=ids, ncpu=ncpu, plan=plan, names=cfg["names"], pre=pre, kw=kw)
    mon.distinct(cfg["text"], ids, ncpu, plan)
    with proc.Box(cfg, plan, extra=extra) as b:
        if pre:
            res, msg = b.run(op="process", kwargs=dict(ncpu=ncpu, preprocess_kwargs=dict(a=1), **kw))
        else:
            res, msg = b.process(ids, ncpu=ncpu, **kw)
        mon.event("runs")
        mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        ev = b.events()
        reads = [e[3] for e in ev if e[2] == "read"]
        mon.equal(sorted(reads), sorted(map(str, ids)), "read-once", "sites read")
        mon.event("workers-seen", len({e[1] for e in ev if e[2] == "read"}))
        if pre:
            mon.equal([e[3] for e in ev if e[2] == "preprocess"], [["a"]], "preprocess", "calls of preprocess()")
        else:
            mon.check(len({e[1] for e in ev}) <= ncpu, "ncpu", "more workers than requested")
        ref, mod = b.reference(ids)
        check_store(mon, b.tables(), ids, ref, mod)
        dumps = sorted(os.path.basename(x) for x in glob.glob(os.path.join(b.dir, "out", "dump01", "dumps", "*")))
        mon.equal(dumps, sorted(f"{i}.dump" for i in ids) if kw["dump_fit"] else [], "dumps", "dump files")
        logs = glob.glob(os.path.join(b.dir, "out", "dump01", "cfg", "*.log"))
        mon.equal(len(logs), int(kw["logfile_level"] is not None), "logfile", "log files")
        mon.check(os.path.exists(os.path.join(b.dir, "out", "dump01", "cfg", "cfg.ini")), "cfg-copy", "copy of the configuration")


FUNC = '''
def inject(spec):
    """slow storage (the store is opened by the writers) and slow combination of the results"""
    r = np.random.default_rng([spec["seed"], os.getpid()])
    openstore, concat = pd.HDFStore.__init__, pd.concat
    n = [0]

    def slow_open(*a, **k):
        n[0] += 1
        time.sleep(spec["stall"] if n[0] in spec["at"] else float(r.uniform(0, spec["open"])))
        return openstore(*a, **k)

    def slow_concat(*a, **k):
        time.sleep(float(r.uniform(0.3, 1)) * spec["concat"])
        return concat(*a, **k)

    pd.HDFStore.__init__ = slow_open
    pd.concat = slow_concat


def item(arg):
    """tables of one item"""
    n, k = arg["_RT1_ID_num"], arg["k"]
    rng = np.random.default_rng([arg["seed"], k])
    if arg.get("delay"):
        time.sleep(arg["delay"])
    if arg.get("fail") == "raise":
        raise ValueError(k)
    if arg.get("fail") == "none":
        return None
    m = int(rng.integers(1, 5))
    idx = pd.MultiIndex.from_product([[n], pd.date_range("2020-01-01", periods=m)], names=["ID", "date"])
    d = pd.DataFrame(dict(x=rng.normal(size=m), k=k), idx)
    s = pd.DataFrame(dict(s=[rng.normal()], k=[k]), pd.Index([n], name="ID"))
    out = {"const__reader_arg": pd.DataFrame({a: v for a, v in arg.items() if a in ("ID", "k", "_RT1_ID_num")}, index=pd.Index([n], name="ID"))}
    if arg["kind"] == 0:
        out["default"] = dict(dynamic=d, static=s)
    elif arg["kind"] == 1:
        out["const__static_data"] = s
        out["cfg_b"] = dict(dynamic=d)
        if k % 3:
            out["cfg_a"] = dict(dynamic=d * 2, const=s)
    else:
        out["dataset"] = d
        out["const__only"] = s
    return out
'''


def expect(kind, k, seed):
    rng = np.random.default_rng([seed, k])
    m = int(rng.integers(1, 5))
    d = pd.DataFrame(dict(x=rng.normal(size=m), k=k), pd.date_range("2020-01-01", periods=m))
    s = pd.DataFrame(dict(s=[rng.normal()], k=[k]))
    if kind == 0:
        return {"default/dynamic": d, "default/static": s}
    if kind == 1:
        o = {"static_data": s, "cfg_b/dynamic": d}
        if k % 3:
            o.update({"cfg_a/dynamic": d * 2, "cfg_a/const": s})
        return o
    return {"dataset": d, "only": s}


def slow_case(rng, mon, tier):
    """storage that stalls for longer than any timeout of the pipeline, full output caches, results that need time to be combined"""
    init = dict(seed=int(rng.integers(1 << 30)), stall=0, at=[], open=0.05, concat=0.0)
    small = bool(rng.random() < 0.4)
    if small:
        # (the cache is filled while the writer stalls once, the workers wait while it stalls again)
        init.update(stall=round(float(rng.uniform(10, 13)), 1), at=[1, 2], open=0.4)
        mon.event("stalls")
    else:
        init.update(concat=round(float(rng.uniform(1, 4)), 1))
        mon.event("slow-combinations")
    pipe_case(rng, mon, tier, init=init, small=small)


def pipe_case(rng, mon, tier, init=None, small=False):
    n = int(rng.choice([1, 2, 5, 17, 60, 120, 250])) if init is None else 16 if small else int(rng.choice([9, 17, 24]))
    kind = int(rng.integers(3))
    seed = int(rng.integers(1 << 30))
    fail = rng.random() < 0.5
    slow = rng.random() < 0.5
    args = []
    for k in range(n):
        a = dict(ID=f"it_{k}" if kind else k, k=k, seed=seed, kind=kind)
        if slow and rng.random() < 0.3:
            a["delay"] = round(float(rng.uniform(0, 0.3 if n > 20 else 2)), 3)
        if fail and rng.random() < 0.2:
            a["fail"] = ["raise", "none"][rng.integers(2)]
        args.append(a)
    chunk = int(rng.choice([1, 2, 3, 7, n, n + 1, 1000]))
    if n > 60:
        chunk = max(chunk, 7)
    pool = dict(n_worker=int(rng.integers(1, 6)), n_combiner=int(rng.integers(1, 5)), n_writer=int(rng.integers(1, 4)), write_chunk_size=chunk, out_cache_size=int(rng.choice([1, 2, 10])))
    if init is not None:
        pool["init_args"] = init
        if small:
            pool.update(n_worker=int(rng.integers(1, 3)), n_writer=1, n_combiner=int(rng.integers(1, 3)), write_chunk_size=int(rng.integers(1, 3)), out_cache_size=int(rng.integers(1, 3)))
        for a in args:
            a["delay"] = round(float(rng.uniform(1, 2) if small else rng.uniform(0.1, 0.6)), 2)
    mon.note(n=n, kind=kind, pool=pool, failing=sum("fail" in a for a in args))
    mon.distinct(args, pool)
    with proc.Box(proc.gen_config(rng), funcs=FUNC) as b:
        dst = os.path.join(b.dir, "x.h5")
        res, msg = b.run(op="pipeline", dst=dst, pool=pool, func="item", kwargs=dict(arg_list=args))
        mon.event("pipelines")
        mon.event("items", n)
        mon.check(res == "ok", f"pipeline:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        T = b.tables(dst)
        good = [a for a in args if "fail" not in a]
        nums = numbers(mon, T, [a["ID"] for a in good], "pipeline")
        if not good:
            mon.equal(sorted(T), [], "pipeline:tables", "tables")
            return
        exp = {}
        for a in good:
            for key, df in expect(kind, a["k"], seed).items():
                exp.setdefault(key, {})[str(a["ID"])] = df
        mon.equal(sorted(T), sorted([*exp, "reader_arg"]), "pipeline:tables", "tables")
        for key, want in exp.items():
            if key not in T:
                continue
            df = T[key]
            back = {v: k for k, v in nums.items()}
            groups = {back.get(x): g for x, g in df.groupby(level=0)}
            if not mon.equal(sorted(map(str, groups)), sorted(want), "pipeline:items", f"items in {key}"):
                continue
            for i, w in want.items():
                g = groups[i]
                same_frame(mon, g.droplevel(0) if g.index.nlevels > 1 else g.reset_index(drop=True), w, "pipeline:rows", f"{key} of {i}")


SCENARIOS = [S("run", run_case, 12, 160, timeout=280), S("pipeline", pipe_case, 14, 200, timeout=280), S("slow", slow_case, 8, 80, timeout=280)]
