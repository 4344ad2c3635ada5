"""P19: interrupted or repeated processing continues without loss or duplicates."""
import os
import shutil
import signal
import time

import numpy as np
import pandas as pd

from . import proc
from .core import S
from .storecheck import check_site, check_store, numbers

ID = "P19"
LEVEL = "fault_enumeration"
RULE = (
    "repeat: 2-4 consecutive runs over one store with subsets, permutations and extensions of the site list, sites that fail first and work later, list-valued reader arguments, custom feature IDs, "
    "indexes, lists masked by preprocess() and by mask_existing_HDF_IDs() after every run; crash: runs ended by SIGKILL/SIGTERM while readers are held before the first write or after a flush, then repeated; export: repeated exports into one store; dumps: a new store from the dump-files of an earlier run. "
    "After every run the store is compared with fits made one after the other, earlier rows with their copy before the run, and the reads of the run with the missing sites.  Distinct by history."
)
MIN_EVENTS = {"runs": 16, "rows-unchanged": 6, "crashes": 4, "crash-after-flush": 1, "resumed-sites": 20, "exports": 4, "sites-from-dumps": 5, "masked-lists": 3}


def gen_ids(rng, n):
    k = rng.integers(5)
    num = [int(x) for x in rng.permutation(60)[:n]]
    if k == 0:
        return num
    if k == 1:
        return [f"site_{x}" for x in num]
    if k == 2:
        return [f"S-{x}" for x in num]
    if k == 3:
        return [f"p {x}.{x % 4} q_{x}" for x in num]
    return [f"a.b_{x}" for x in num]


NAMES = [
    "",
    '''
    def get_names_ids(self, reader_arg):
        i = str(reader_arg["ID"])
        return dict(feature_id="feat_" + re.findall("[0-9]+", i)[-1], filename="F" + re.findall("[0-9]+", i)[-1] + ".dump")
''',
    '''
    def get_names_ids(self, reader_arg):
        return dict(feature_id=reader_arg["tag"][::-1], filename=reader_arg["tag"] + ".dump")
''',
]
MASK = '''
    def preprocess(self, ids=None, extra=None, **kw):
        args = [dict(ID=i, tag="t" + str(i), **(extra or {})) for i in ids]
        return dict(reader_args=self.mask_existing_HDF_IDs(args))
'''


def frames_of(T, nums):
    """{table: rows of the given sites}"""
    return {k: df[df.index.get_level_values(0).isin(list(nums))] for k, df in T.items()}


def unchanged(mon, before, T, key):
    for k, df in before.items():
        mon.event("rows-unchanged")
        now = T.get(k)
        if now is None:
            mon.fail(f"{key}:changed", f"table {k} has vanished")
            continue
        old = frames_of(T, set(df.index.get_level_values(0)))[k]
        ok = list(old.columns) == list(df.columns) and len(old) == len(df)
        if ok:
            a, b = old.sort_index(kind="stable"), df.sort_index(kind="stable")
            ok = list(a.index) == list(b.index) and all((a[c].astype(object).fillna("-").to_numpy() == b[c].astype(object).fillna("-").to_numpy()).all() for c in a)
        mon.check(ok, f"{key}:changed", f"rows of finished sites in {k} have changed")


def gen_setup(rng, n, ncfg):
    cfg = proc.gen_config(rng, ncfg=ncfg)
    ids = gen_ids(rng, n)
    extra_args = [{}, {}, dict(box=[1.5, 2, 3]), dict(flag=True, lat=12.25)][rng.integers(4)]
    names = NAMES[rng.choice([0, 0, 0, 1, 2])]
    return cfg, ids, extra_args, names


def masked(rng, mon, b, ids, xa, done, nums):
    """the list of sites that are still to be processed, as returned by mask_existing_HDF_IDs"""
    from rt1.processing_config import rt1_processing_config

    folder = os.path.dirname(os.path.dirname(b.store))
    c = rt1_processing_config(save_path=os.path.dirname(folder), dumpfolder=os.path.basename(folder))
    use = [ids[j] for j in rng.permutation(len(ids))] + [f"another_{k}" for k in range(int(rng.integers(0, 4)))]
    got = c.mask_existing_HDF_IDs([{**proc.Box.arg(i), **xa} for i in use])
    want = [{**proc.Box.arg(i), **xa} for i in use if i not in done]
    mon.equal([{k: v for k, v in g.items() if k != "_RT1_ID_num"} for g in got], want, "mask:sites", "sites that are not yet in the store")
    n = [g.get("_RT1_ID_num") for g in got]
    mon.check(len(set(n)) == len(n) and not set(n) & set(nums.values()), "mask:numbers", f"numbers {n} for new sites, existing {sorted(nums.values())}")
    mon.event("masked-lists")


def repeat_case(rng, mon, tier):
    n = int(rng.integers(4, 13))
    cfg, ids, xa, names = gen_setup(rng, n, int(rng.choice([0, 0, 2])))
    mask = names == "" and rng.random() < 0.25 and not any("." in str(i) for i in ids)
    nrun = int(rng.integers(2, 5))
    hist = []
    done, nums, before = [], {}, {}
    mon.note(ids=ids, extra=xa, names=names.strip()[-60:], mask=mask, config=cfg["names"])
    with proc.Box(cfg, {}, extra=names + (MASK if mask else "")) as b:
        allref = {}
        for r in range(nrun):
            m = rng.random()
            if r == nrun - 1:
                use = list(ids)
            elif m < 0.4:
                use = list(ids[: int(rng.integers(1, n + 1))])
            else:
                use = [i for i in ids if rng.random() < 0.6] or [ids[0]]
            use = [use[j] for j in rng.permutation(len(use))]
            fail = [i for i in use if rng.random() < (0.3 if r < nrun - 1 else 0.1)]
            b.plan({i: (dict(reader=str(rng.choice(["nan", "skip", "custom", "nosig"]))) if i in fail else dict(delay=round(float(rng.uniform(0, 0.5)), 2))) for i in use})
            ncpu = int(rng.integers(1, 4))
            nev = len(b.events())
            kw = dict(ncpu=ncpu, create_index=bool(rng.random() < 0.4), dump_fit=bool(rng.random() < 0.3))
            if mask:
                res, msg = b.run(op="process", kwargs=dict(preprocess_kwargs=dict(ids=use, extra=xa), **kw))
            else:
                res, msg = b.run(op="process", kwargs=dict(reader_args=[{**proc.Box.arg(i), **xa} for i in use], **kw))
            hist.append((use, fail, ncpu))
            mon.event("runs")
            if not len([i for i in use if i not in fail or i in done]) and not done and kw["create_index"] and res == "failed":
                res = "ok"  # no store to make an index for
            mon.check(res == "ok", f"run:{res}", f"run {r}: {res} {msg}\n{b.log()}")
            if res in ("hang", "died", "left"):
                break
            todo = [i for i in use if i not in done]
            reads = [e[3] for e in b.events()[nev:] if e[2] == "read"]
            mon.equal(sorted(reads), sorted(map(str, todo)), "reads", f"run {r}: sites read")
            new = [i for i in todo if i not in fail]
            mon.event("resumed-sites", len(new) if done else 0)
            done += new
            ref, mod = b.reference(new)
            allref.update(ref)
            T = b.tables()
            got = check_store(mon, T, done, allref, mod)
            for i, k in nums.items():
                mon.check(got.get(i) == k, "numbers-changed", f"run {r}: site {i} had number {k}, now {got.get(i)}")
            unchanged(mon, before, T, f"run")
            nums, before = got, T
            if mon.violations:
                break
            if names == "":
                masked(rng, mon, b, ids, xa, done, nums)
        if done and not mon.violations:
            # queries still find every site (appended after an index was made)
            from rt1.rtresults import HDFaccessor

            with HDFaccessor(b.store) as h:
                for i in done:
                    d = h.datasets.dataset.get_id(nums[str(i)])
                    mon.check(len(d) > 0 and set(d.index.get_level_values(0)) == {nums[str(i)]}, "query", f"rows of {i}")
    mon.note(history=hist)
    mon.distinct(cfg["text"], ids, hist)


def snapshot(b):
    """tables of a copy of the store (never opens the file that is being written)"""
    p = os.path.join(b.dir, "snap.h5")
    try:
        shutil.copyfile(b.store, p)
        return b.tables(p)
    except Exception:
        return {}


def crash_case(rng, mon, tier):
    n = int(rng.integers(4, 11))
    cfg, ids, xa, names = gen_setup(rng, n, int(rng.choice([0, 0, 2])))
    mode = ["kill-early", "kill-late", "term-late", "kill-late"][rng.integers(4)]
    nh = int(rng.integers(1, n))
    held = ids[:nh] if mode == "kill-early" and rng.random() < 0.5 else ids[n - nh :]
    if mode == "kill-early":
        held = ids
    ncpu = int(rng.integers(1, 4))
    if mode != "kill-early":
        ncpu = max(ncpu, 2)
    mon.note(ids=ids, mode=mode, held=held, ncpu=ncpu, config=cfg["names"], extra=xa)
    mon.distinct(cfg["text"], ids, mode, held, ncpu)
    args = [{**proc.Box.arg(i), **xa} for i in ids]
    with proc.Box(cfg, {i: dict(hold="go") for i in held}, extra=names) as b:
        p = b.start(op="process", kwargs=dict(ncpu=ncpu, reader_args=args))
        free = [i for i in ids if i not in held]
        t0 = time.time()
        T = {}
        while time.time() - t0 < 90 and p.poll() is None:
            ev = b.events()
            nhold = sum(e[2] == "hold" for e in ev)
            if mode == "kill-early":
                if nhold:
                    time.sleep(float(rng.uniform(0, 1.5)))
                    break
            elif nhold and os.path.exists(b.store):
                # everything that was read before the workers were held is written
                time.sleep(0.5)
                loaded = {e[3] for e in ev if e[2] == "loaded"}
                T = snapshot(b)
                if "reader_arg" in T and len(T["reader_arg"]) >= len(loaded) > 0 and len(T.get("res_df", [])):
                    T1 = snapshot(b)
                    if set(T1) == set(T) and "res_dict" in T:
                        time.sleep(0.5)
                        break
            time.sleep(0.2)
        mon.event("crashes")
        if mode.startswith("kill"):
            b.kill(p)
        else:
            try:
                os.kill(p.pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
            time.sleep(1)
            b.write("go", "")
            res, msg = b.finish(p, timeout=60)
            mon.event(f"term-{res}")
            b.kill(p)
        b.write("go", "")
        T = b.tables()
        ref, mod = b.reference(ids)
        part = []
        if "reader_arg" in T:
            mon.event("crash-after-flush")
            part = [i for i in ids if str(i) in set(map(str, T["reader_arg"]["ID"]))]
            mon.event("sites-before-crash", len(part))
            before_nums = check_store(mon, T, part, ref, mod, key="crashed")
        else:
            before_nums = {}
        if mon.violations:
            return
        b.plan({})
        nev = len(b.events())
        order = [args[j] for j in rng.permutation(n)]
        res, msg = b.run(op="process", kwargs=dict(ncpu=int(rng.integers(1, 4)), reader_args=order))
        mon.event("runs")
        mon.check(res == "ok", f"resume:{res}", f"{res} {msg}\n{b.log()}")
        if res in ("hang", "died"):
            return
        reads = [e[3] for e in b.events()[nev:] if e[2] == "read"]
        mon.event("resumed-sites", len(reads))
        mon.equal(sorted(reads), sorted(str(i) for i in ids if i not in part), "resume:reads", "sites read after the crash")
        T2 = b.tables()
        got = check_store(mon, T2, ids, ref, mod, key="resumed")
        for i, k in before_nums.items():
            mon.check(got.get(i) == k, "numbers-changed", f"site {i} had number {k}, now {got.get(i)}")
        unchanged(mon, T, T2, "resume")


POST = '''
    def postprocess(self, fit):
        event("post", str(fit.ID))
        df = pd.concat([fit.res_df], keys=[fit._RT1_ID_num], names=["ID"])
        return dict(res=df)
'''


def export_case(rng, mon, tier):
    """repeated exports into one store add exactly the new sites"""
    n = int(rng.integers(3, 9))
    cfg, ids, xa, names = gen_setup(rng, n, int(rng.choice([0, 0, 2])))
    dumps = bool(rng.random() < 0.3)
    k = int(rng.integers(1, n))
    mon.note(ids=ids, first=ids[:k], dumps=dumps, config=cfg["names"])
    mon.distinct(cfg["text"], ids, k, dumps)
    nm = cfg["names"] or ["default"]
    with proc.Box(cfg, {}, extra=names + POST) as b:
        out = os.path.join(b.dir, "out", "dump01", "results", "post.h5")
        before, nums = {}, {}
        for r, use in enumerate([ids[:k], ids]):
            res, msg = b.run(op="process", kwargs=dict(ncpu=2, reader_args=[{**proc.Box.arg(i), **xa} for i in use], dump_fit=dumps))
            if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
                return
            nev = len(b.events())
            kw = dict(ncpu=int(rng.integers(1, 3)), finalout_name="post.h5", use_dumps=dumps)
            if r == 0 and k > 1 and rng.random() < 0.3:
                kw["use_N_files"] = k - 1
            res, msg = b.run(op="finalout", kwargs=kw)
            mon.event("exports")
            mon.event("runs")
            if not mon.check(res == "ok", f"export:{res}", f"{res} {msg}\n{b.log()}"):
                return
            T = b.tables(out)
            if not mon.check("reader_arg" in T, "export:lost", f"nothing exported: {list(T)}"):
                return
            got = [str(x) for x in T["reader_arg"]["ID"]]
            if "use_N_files" in kw:
                mon.check(len(got) == kw["use_N_files"] and len(set(got)) == len(got) and set(got) <= set(map(str, use)), "export:count", f"sites {got} instead of {kw['use_N_files']}")
            else:
                mon.equal(sorted(got), sorted(map(str, use)), "export:sites", f"export {r}: exported sites")
            now = {str(i): int(x) for x, i in zip(T["reader_arg"].index, T["reader_arg"]["ID"])}
            mon.check(T["reader_arg"].index.is_unique, "export:numbers", f"{list(T['reader_arg'].index)}")
            for i, x in nums.items():
                mon.check(now.get(i) == x, "export:numbers", f"site {i} had number {x}, now {now.get(i)}")
            posts = [e[3] for e in b.events()[nev:] if e[2] == "post"]
            mon.equal(len(posts), len(nm) * (len(now) - len(nums)), "export:calls", "calls of postprocess()")
            unchanged(mon, before, T, "export")
            # rows belong to the site
            ref, mod = b.reference(use)
            for c in nm:
                df = T.get(f"{c}/res")
                if not mon.check(df is not None, "export:tables", f"no table {c}/res in {list(T)}"):
                    continue
                for i, x in now.items():
                    f = next(ref[u] for u in use if str(u) == i)[c]
                    rr = df[df.index.get_level_values(0) == x]
                    mon.close(rr[sorted(f.res_df)].to_numpy(), f.res_df[sorted(f.res_df)].to_numpy(), "export:rows", rtol=1e-5, msg=f"rows of {i}")
            nums, before = now, T


def dumps_case(rng, mon, tier):
    """a new store from the dump-files of an earlier run (the reader reports `rt1_file_already_exists`)"""
    n = int(rng.integers(3, 10))
    cfg, ids, xa, names = gen_setup(rng, n, int(rng.choice([0, 0, 2])))
    first = [i for i in ids if rng.random() < 0.75] or ids[:1]
    first = [first[j] for j in rng.permutation(len(first))]
    lost = [i for i in first if rng.random() < 0.2]
    have = [i for i in first if i not in lost]
    ncpu = int(rng.integers(1, 4))
    keep = bool(rng.random() < 0.3)
    use = [ids[j] for j in rng.permutation(n)]
    claim = [i for i in ids if i in lost and rng.random() < 0.5]  # reported as existing but there is no file
    mon.note(ids=ids, first=first, lost=lost, use=use, claim=claim, ncpu=ncpu, keep=keep, names=names.strip()[-60:], config=cfg["names"])
    mon.distinct(cfg["text"], ids, first, lost, use, ncpu)
    arg = lambda i: {**proc.Box.arg(i), **xa}
    with proc.Box(cfg, {i: dict(reader="custom") for i in lost}, extra=names) as b:
        res, msg = b.run(op="process", kwargs=dict(reader_args=[arg(i) for i in first], ncpu=ncpu, dump_fit=True))
        mon.event("runs")
        if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
            return
        if os.path.exists(b.store) and not keep:
            os.remove(b.store)
        nums, before = {}, {}
        if keep and have:
            before = b.tables()
            nums = numbers(mon, before, have, "first")
        b.plan({i: dict(reader="exists") for i in have + claim})
        res, msg = b.run(op="process", kwargs=dict(reader_args=[arg(i) for i in use], ncpu=int(rng.integers(1, 4)), dump_fit=bool(rng.random() < 0.3)))
        mon.event("runs")
        if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
            return
        good = [i for i in ids if i not in claim]
        mon.event("resumed-sites", len(good))
        mon.event("sites-from-dumps", 0 if keep else len(have))
        ref, mod = b.reference(good)
        T = b.tables()
        got = check_store(mon, T, good, ref, mod)
        for i, k in nums.items():
            mon.check(got.get(i) == k, "numbers-changed", f"site {i} had number {k}, now {got.get(i)}")
        if nums:
            unchanged(mon, before, T, "dumps")


SCENARIOS = [S("repeat", repeat_case, 7, 90, timeout=500), S("crash", crash_case, 6, 80, timeout=400), S("export", export_case, 4, 40, timeout=400), S("dumps", dumps_case, 6, 60, timeout=400)]
