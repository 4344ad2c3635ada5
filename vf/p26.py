"""P26: a failing site costs only that site."""
import glob
import os

import numpy as np
import pandas as pd

from . import proc
from .core import S
from .storecheck import check_store, numbers, part, same_frame

ID = "P26"
LEVEL = "fault_enumeration"
RULE = (
    "Processing and post-processing runs in which random subsets of the sites (up to all of them) fail: every kind of fault at the reader (nothing, empty or malformed data, wrong types, "
    "NaN/inf, missing columns, exceptions of all kinds including unpicklable ones), at the naming, in the exception handler itself, in postprocess() and export functions; sites whose data differ in columns, types and lengths; 1-5 workers. "
    "The store of the run is compared with fits made one after the other without the failing sites; the process group must end.  Distinct by configuration, fault plan and workers."
)
MIN_EVENTS = {"runs": 10, "failing-sites": 20, "sites-compared": 40, "postprocess-runs": 4, "postprocess-failures": 4, "fault-kinds": 20, "shapes": 6, "unsaved-runs": 3}
READER = ["none", "empty", "norows", "nosig", "noinc", "nan", "inf", "strings", "tuple", "list", "number", "skip", "data", "exists", "custom", "key", "memory", "unpicklable", "assert", "zero", "os", "other"]
NAMES = ["key", "custom", "zero"]
EXCEPT = ["custom", "assert", "unpicklable", "skip"]
BADRET = ["True", "'text'", "[1]", "dict()", "ex", "5"]
NO = 0


def plan_faults(rng, mon, ids, frac):
    plan = {}
    bad = [i for i in ids if rng.random() < frac]
    for i in bad:
        p = dict(delay=round(float(rng.uniform(0, 0.5)), 3)) if rng.random() < 0.3 else {}
        m = rng.random()
        if m < 0.75:
            p["reader"] = str(rng.choice(READER))
        elif m < 0.87:
            p["names"] = str(rng.choice(NAMES))
        else:
            p["reader"] = str(rng.choice(READER))
            p["exceptfunc"] = str(rng.choice(EXCEPT))
        plan[i] = p
        mon.event("fault-kinds")
    mon.event("failing-sites", len(bad))
    for i in ids:
        if i not in plan and rng.random() < 0.3:
            plan[i] = dict(delay=round(float(rng.uniform(0, 0.8)), 3))
    return plan, bad


def run_case(rng, mon, tier):
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])))
    n = int(rng.integers(3, 15))
    ids = [int(x) for x in rng.permutation(50)[:n]]
    if rng.random() < 0.5:
        ids = [f"s_{x}" for x in ids]
    plan, bad = plan_faults(rng, mon, ids, rng.choice([0.2, 0.4, 0.7, 1.0]))
    ncpu = int(rng.integers(1, 6))
    extra = proc.NAMES_FAIL
    ret = None
    if any("exceptfunc" in p for p in plan.values()):
        extra += proc.POST_FAIL
    elif rng.random() < 0.4:
        ret = str(rng.choice(BADRET))
        extra += f'''
    def exceptfunc(self, ex, reader_arg):
        return {ret}
'''
    dump = bool(rng.random() < 0.4)
    mon.note(ids=ids, bad={i: plan[i] for i in bad}, ncpu=ncpu, names=cfg["names"], ret=ret)
    mon.distinct(cfg["text"], plan, ncpu, ret)
    good = [i for i in ids if i not in bad]
    with proc.Box(cfg, plan, extra=extra) as b:
        res, msg = b.process(ids, ncpu=ncpu, dump_fit=dump)
        mon.event("runs")
        mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        reads = [e[3] for e in b.events() if e[2] == "read"]
        mon.equal(sorted(reads), sorted(map(str, ids)), "read-once", "sites read")
        ref, mod = b.reference(good)
        T = b.tables()
        if good:
            check_store(mon, T, good, ref, mod)
        else:
            mon.equal(sorted(T), [], "all-failed", "tables of a run without results")
        if dump:
            dumps = sorted(os.path.basename(x) for x in glob.glob(os.path.join(b.dir, "out", "dump01", "dumps", "*")))
            mon.equal(dumps, sorted(f"{i}.dump" for i in good), "dumps", "dump files")


POST = '''
    def postprocess(self, fit):
        i = str(fit.ID)
        event("post", i)
        p = plan(i)
        if p.get("delay"):
            time.sleep(p["delay"])
        if p.get("post") == "return-none":
            return None
        if p.get("post"):
            boom(p["post"])
        n = fit._RT1_ID_num
        df = pd.concat([fit.res_df], keys=[n], names=["ID"])
        return dict(res=df, stat=pd.DataFrame(dict(n=[len(fit.dataset)]), pd.Index([n], name="ID")))
'''


def post_case(rng, mon, tier):
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])))
    n = int(rng.integers(3, 11))
    ids = [f"s_{x}" for x in rng.permutation(50)[:n]]
    with proc.Box(cfg, {}, extra=POST + proc.POST_FAIL) as b:
        res, msg = b.process(ids, ncpu=2)
        if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
            return
        base = b.tables()
        before = [e for e in b.events()]
        kinds = ["skip", "data", "custom", "key", "memory", "unpicklable", "assert", "zero", "os", "return-none"]
        plan = {}
        frac = rng.choice([0.2, 0.5, 0.8, 1.0])
        bad = [i for i in ids if rng.random() < frac]
        for i in ids:
            p = dict(delay=round(float(rng.uniform(0, 0.5)), 3)) if rng.random() < 0.3 else {}
            if i in bad:
                p["post"] = str(rng.choice(kinds))
                if rng.random() < 0.2:
                    p["exceptfunc"] = str(rng.choice(EXCEPT))
                mon.event("fault-kinds")
            plan[i] = p
        mon.event("postprocess-failures", len(bad))
        mon.event("failing-sites", len(bad))
        b.plan(plan)
        ncpu = int(rng.integers(1, 5))
        export = bool(rng.random() < 0.35)
        mon.note(ids=ids, bad={i: plan[i] for i in bad}, ncpu=ncpu, names=cfg["names"], export=export)
        mon.distinct(cfg["text"], plan, ncpu, export)
        ci = [True, False][rng.integers(2)]
        if export:
            b.write("vf_funcs.py", proc.FUNCS % dict(base=b.dir) + EXPORT)
            res, msg = b.run(op="export", kwargs=dict(parameters=["omega", "sig"], export_functions=dict(omega="omega"), finalout_name="post.h5", ncpu=ncpu, create_index=ci))
        else:
            res, msg = b.run(op="finalout", kwargs=dict(finalout_name="post.h5", ncpu=ncpu, create_index=ci))
        mon.event("postprocess-runs")
        good = [i for i in ids if i not in bad]
        if not good and res == "failed" and "post.h5" in msg:
            res = "ok"  # nothing to write an index for
        mon.check(res == "ok", f"postprocess:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        # the processed fits are not touched
        after = b.tables()
        for k in base:
            mon.check(base[k].equals(after.get(k)), "store-changed", f"table {k} of the processed fits has changed")
        T = b.tables(os.path.join(b.dir, "out", "dump01", "results", "post.h5"))
        # (the exported store has its own site numbers)
        nums = {str(r): int(x) for x, r in zip(T["reader_arg"].index, T["reader_arg"]["ID"])} if "reader_arg" in T else {}
        if not mon.check(set(good) <= set(nums), "postprocess:lost", f"sites without results: {sorted(set(good) - set(nums))}"):
            return
        want = {nums[i]: i for i in good}
        none = {nums[i] for i in bad if plan[i].get("post") == "return-none" and not export and i in nums}
        for k, df in T.items():
            if k.endswith("meta"):
                continue
            got = set(map(int, df.index.get_level_values(0)))
            if k.endswith("reader_arg"):
                got -= none
            mon.equal(sorted(got), sorted(want), "postprocess:sites", f"sites in {k}")
        names = cfg["names"] or ["default"]
        keys = [f"{c}/{k}" for c in names for k in (("dynamic", "static") if export else ("res", "stat"))]
        if good:
            present = [k for k in keys if k in T]
            if not export:
                mon.equal(sorted(present), sorted(keys), "postprocess:tables", "tables")
            mon.check(len(present) > 0, "postprocess:tables", f"no results in {sorted(T)}")
            fits, mod = b.reference(good)
            for c in names:
                for i in good:
                    f = fits[i][c]
                    if not export and f"{c}/res" in T:
                        mon.event("sites-compared")
                        same_frame(mon, part(T, f"{c}/res", nums[i]).dropna(how="all", axis=1), f.res_df, "postprocess:res", f"{c} {i}", rtol=1e-5)
                        x = T[f"{c}/stat"].loc[nums[i], "n"]
                        mon.equal(int(x), len(f.dataset), "postprocess:stat", f"{c} {i}")


def schema_case(rng, mon, tier):
    """sites whose data have different columns, types and lengths"""
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])))
    cfg["data"]["meta"] = True
    n = int(rng.integers(4, 12))
    ids = [f"s_{x}" for x in rng.permutation(50)[:n]]
    unst = bool(rng.random() < 0.2)
    plan, args = {}, []
    for j, i in enumerate(ids):
        p = {}
        if rng.random() < 0.5:
            p["shape"] = str(rng.choice(["float", "long", "add", "less"]))
            mon.event("shapes")
        if rng.random() < 0.35:  # later than the first portion of results
            p["delay"] = float(np.round(rng.uniform(5.2, 9), 2))
        plan[i] = p
        a = proc.Box.arg(i)
        a["lat"] = j if rng.random() < 0.5 else j + 0.5
        if rng.random() < 0.3:
            a["files"] = [f"f{k}" for k in range(int(rng.integers(0, 3)))]
        if rng.random() < 0.2:
            a["note"] = "text " * int(rng.integers(1, 40))
        args.append(a)
    if unst:
        plan[ids[0]]["shape"] = "objects"
    ncpu = int(rng.integers(1, 5))
    mon.note(ids=ids, plan=plan, args=args, ncpu=ncpu, names=cfg["names"])
    mon.distinct(cfg["text"], plan, args, ncpu)
    with proc.Box(cfg, plan) as b:
        res, msg = b.run(op="process", kwargs=dict(reader_args=args, ncpu=ncpu))
        mon.event("runs")
        mon.check(res == "ok" or (unst and res == "failed"), f"run:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        good = ids[1:] if unst else ids
        try:
            T = b.tables()
        except TypeError as e:
            if not unst:
                raise
            mon.fail("unstorable", f"site {ids[0]} returned a dataset that cannot be stored; the store is not readable: {e}")
            return
        if unst:
            mon.event("unstorable")
            lost = [i for i in good if "reader_arg" not in T or i not in set(T["reader_arg"]["ID"]) or "dataset" not in T]
            mon.check(not lost, "unstorable", f"site {ids[0]} returned a dataset that cannot be stored; other sites without results: {lost}")
            return
        ref, mod = b.reference(good)
        nums = check_store(mon, T, good, ref, mod)
        for a in args:
            if a["ID"] not in nums:
                continue
            row = T["reader_arg"].loc[nums[a["ID"]]]
            got = {k: row.get(k) for k in a if k != "files"}
            mon.equal(got, {k: v for k, v in a.items() if k != "files"}, "reader_arg", f"reader_arg of {a['ID']}")


EXPORT = '''
from pcfg import plan, boom
def omega(fit):
    p = plan(fit.ID)
    if p.get("post") == "return-none":
        raise ValueError("none")
    if p.get("post"):
        boom(p["post"])
    return fit.res_df[["N"]].rename(columns={"N": "omega"})
'''


def setup_case(rng, mon, tier):
    """failures before the processing starts end the run, are reported and leave no processes"""
    cfg = proc.gen_config(rng)
    kind = ["preprocess-raises", "preprocess-type", "no-args", "both-args", "bad-config", "no-reader"][rng.integers(6)]
    extra = ""
    kw = {}
    if kind == "preprocess-raises":
        extra = "\n    def preprocess(self, **kw):\n        1/0\n"
    elif kind == "preprocess-type":
        extra = "\n    def preprocess(self, **kw):\n        return [1]\n"
    elif kind == "both-args":
        extra = "\n    def preprocess(self, **kw):\n        return dict(reader_args=[dict(ID=1)])\n"
    elif kind == "bad-config":
        cfg["text"] = cfg["text"].replace("[RT1_V]", "[RT1_X]")
    elif kind == "no-reader":
        extra = "\n    reader = None\n"
    if kind != "no-args":
        kw["reader_args"] = [proc.Box.arg(i) for i in range(3)]
    kw["logfile_level"] = [None, 21][rng.integers(2)]
    mon.note(kind=kind, kw=kw)
    mon.distinct(kind, cfg["text"], kw)
    with proc.Box(cfg, extra=extra) as b:
        res, msg = b.run(op="process", kwargs=dict(ncpu=2, **kw))
        mon.event("setup-failures")
        if kind == "no-reader":
            mon.check(res == "ok", f"setup:{res}", f"{kind} {res} {msg}\n{b.log()}")
        else:
            mon.check(res == "failed", f"setup:{res}", f"{kind}: {res} {msg}\n{b.log()}")
            mon.check("UnboundLocal" not in msg and "NameError" not in msg, "setup-error-masked", f"{kind}: {msg}")
        mon.equal(sorted(b.tables()), [], "setup-store", f"{kind} tables")


def nosave_case(rng, mon, tier):
    """results that can not be saved: the run ends and reports it, earlier results stay, a later run completes"""
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])))
    n = int(rng.integers(2, 7))
    ids = [f"s_{x}" for x in rng.permutation(50)[:n]]
    k = int(rng.integers(1, n))
    kind = ["locked", "locked", "directory", "garbage", "full"][rng.integers(5)]
    kw = dict(ncpu=int(rng.integers(1, 4)), logfile_level=[None, 21][rng.integers(2)])
    mon.note(kind=kind, ids=ids, k=k, kw=kw)
    mon.distinct(kind, cfg["text"], ids, k, kw)
    plan = {i: dict(delay=float(np.round(rng.uniform(0, 4), 2))) for i in ids if rng.random() < 0.3}
    with proc.Box(cfg, plan) as b:
        job = {}
        base = {}
        if kind == "directory":
            os.makedirs(b.store)
            k = 0
        elif kind == "garbage":
            os.makedirs(os.path.dirname(b.store))
            with open(b.store, "wb") as f:
                f.write(rng.bytes(3000))
            k = 0
        elif kind == "full":
            k = 0
            job = dict(fsize=int(rng.integers(20, 200)) * 1024)
        else:
            res, msg = b.process(ids[:k], **kw)
            if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
                return
            base = b.tables()
        hold = pd.HDFStore(b.store, "r") if kind == "locked" else None
        try:
            res, msg = b.run(op="process", kwargs=dict(reader_args=[b.arg(i) for i in ids[k:]], **kw), timeout=200, **job)
        finally:
            if hold is not None:
                hold.close()
        mon.event("unsaved-runs")
        mon.event("unsaved:" + kind)
        if res == "ok":  # then everything must be there
            ref, mod = b.reference(ids)
            check_store(mon, b.tables(), ids, ref, mod)
        else:
            mon.check(res == "failed", f"unsaved:{res}", f"{kind}: {res} {msg}\n{b.log()}")
        if kind != "locked":
            return
        T = b.tables()
        for t, df in base.items():
            if res != "ok":
                mon.check(t in T and df.equals(T[t]), "unsaved:changed", f"table {t} of the earlier results has changed")
        res, msg = b.process(ids, **kw)
        if mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
            ref, mod = b.reference(ids)
            check_store(mon, b.tables(), ids, ref, mod)


SCENARIOS = [S("run", run_case, 12, 240, timeout=280), S("post", post_case, 7, 90, timeout=400), S("schema", schema_case, 6, 60, timeout=280), S("setup", setup_case, 4, 24, timeout=280), S("nosave", nosave_case, 4, 40, timeout=400)]
