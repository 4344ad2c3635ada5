"""P21: queries of a result store return exactly the requested rows."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from . import core
from .core import S

ID = "P21"
LEVEL = "exploration"
RULE = (
    "Random stores in the layout of the processing (sites numbered in any order and with gaps, several rows per site, tables with one and two index levels, per-configuration "
    "tables, sites without rows in some tables, written in random portions, with and without stored index) are queried through HDFaccessor, RTresults and RT1_processor.get_data; every answer is "
    "compared with the rows of the written tables that belong to the requested sites (each once).  Distinct by store layout and query."
)
MIN_EVENTS = {"stores": 30, "single": 200, "counts": 80, "iterations": 150, "lists": 100, "columns": 40, "named": 60, "indexed": 8, "missing-rows": 30, "get_data": 30, "positions": 30}


def make_store(rng, path):
    """{key: DataFrame}, IDs (Series number -> name)"""
    n = int(rng.integers(1, 27)) if rng.random() < 0.8 else int(rng.integers(27, 80))
    nums = np.arange(n)
    m = rng.random()
    if m < 0.4:
        nums = rng.permutation(nums)
    elif m < 0.7:
        nums = rng.permutation(n + int(rng.integers(1, 10)))[:n]
    nums = [int(x) for x in nums]
    kind = rng.integers(3)
    raw = [f"site_{x}" if kind == 0 else (x * 3 + 1 if kind == 1 else f"{x}-a b") for x in nums]
    names = [str(r) if str(r).isidentifier() else f"RT1_{r}" for r in raw]
    t = {}
    ra = pd.DataFrame(dict(ID=raw, val=rng.normal(size=n)), index=pd.Index(nums, name="ID"))
    t["reader_arg"] = ra
    t["init_dict"] = pd.DataFrame(dict(a=[f"v{rng.integers(3)}" for _ in nums], b=rng.integers(0, 9, n)), index=pd.Index(nums, name="ID"))

    def rows(lo, hi, extra=None, skip=0.0, allow=nums):
        parts = []
        for x in allow:
            if rng.random() < skip:
                continue
            k = int(rng.integers(lo, hi))
            d = pd.date_range("2019-01-01", periods=k, freq="13h") + pd.Timedelta(hours=int(rng.integers(0, 1000)))
            idx = pd.MultiIndex.from_arrays([[x] * k, d], names=["ID", "date"])
            if extra:
                idx = pd.MultiIndex.from_product([[x], extra, range(k)], names=["ID", "cfg", "n"])
            parts.append(pd.DataFrame(dict(p=rng.normal(size=len(idx)), q=rng.integers(0, 100, len(idx))), index=idx))
        return pd.concat(parts) if parts else None

    t["dataset"] = rows(1, 6)
    t["aux_data"] = rows(1, 4, skip=0.5)
    t["res_dict"] = rows(1, 4, extra=["c1", "c2"])
    if rng.random() < 0.6:
        t["cfg_a/dynamic"] = rows(1, 5)
        t["cfg_a/static"] = pd.DataFrame(dict(s=rng.normal(size=n)), index=pd.Index(nums, name="ID"))
        t["cfg_b/dynamic"] = rows(1, 3, skip=0.3)
    t = {k: v for k, v in t.items() if v is not None}
    with pd.HDFStore(path, "w", complevel=1, complib="blosc") as st:
        for key, df in t.items():
            ids = list(dict.fromkeys(df.index.get_level_values(0)))
            cut = sorted({0, len(ids), *rng.integers(0, len(ids) + 1, int(rng.integers(0, 4))).tolist()})
            for a, b in zip(cut, cut[1:]):
                st.append(key, df[df.index.get_level_values(0).isin(ids[a:b])], format="t", data_columns=["ID"] if key == "reader_arg" else [], index=False, min_itemsize={"index": 99, "values": 99})
    return t, pd.Series(names, index=nums)


def same(mon, got, want, key, msg="", level0=True):
    """the same rows (values, index, columns), each as often; order within a site kept"""
    if not mon.check(isinstance(got, pd.DataFrame), key, f"{msg}: {type(got)}"):
        return False
    if not mon.check(list(got.columns) == list(want.columns) and len(got) == len(want), key,
                     f"{msg}: {got.shape} {list(got.columns)} instead of {want.shape} {list(want.columns)}"):
        return False

    def rows(df):
        d = {}
        for i, v in zip(df.index, df.itertuples(index=False, name=None)):
            k = i if not isinstance(i, tuple) else i[0]
            d.setdefault(k, []).append((i, v))
        return d

    g, w = rows(got), rows(want)
    return mon.check(g == w, key, f"{msg}: rows differ; sites {sorted(map(str, g))[:10]} instead of {sorted(map(str, w))[:10]}")


def store_case(rng, mon, tier):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor, RTresults

    d = tempfile.mkdtemp(prefix="vfp21_", dir=core.SCRATCH)
    try:
        os.makedirs(os.path.join(d, "res", "results"))
        os.makedirs(os.path.join(d, "res", "dumps"))
        os.makedirs(os.path.join(d, "res", "cfg"))
        path = os.path.join(d, "res", "results", "fit_db.h5")
        t, ids = make_store(rng, path)
        mon.event("stores")
        if rng.random() < 0.35:
            mon.event("indexed")
            kw = [{}, dict(idx_levels="all"), dict(idx_levels=["ID"]), dict(idx_levels=["ID", "date"], kind="medium"), dict(keys=["dataset"])][rng.integers(5)]
            RT1_processor.create_index(path, **kw)
        set_ID = bool(rng.random() < 0.3)
        mon.distinct({k: v.to_dict("list") for k, v in t.items()}, set_ID)
        mon.note(n=len(ids), numbers=list(ids.index)[:8], keys=list(t), set_ID=set_ID)

        def sub(key, nums):
            df = t[key]
            df = df[df.index.get_level_values(0).isin(nums)]
            return rename(df)

        def rename(df):
            if not set_ID:
                return df
            df = df.copy()
            if isinstance(df.index, pd.MultiIndex):
                df.index = pd.MultiIndex.from_arrays([[ids[x] for x in df.index.get_level_values(0)]] + [df.index.get_level_values(i) for i in range(1, df.index.nlevels)], names=df.index.names)
            else:
                df.index = pd.Index([ids[x] for x in df.index], name="ID")
            return df

        with HDFaccessor(path, set_ID=set_ID) as a:
            mon.equal(a.IDs["ID"].to_dict(), ids.to_dict(), "IDs", "IDs of the store")
            mon.check(len(a.IDs) == len(ids), "IDs", "number of IDs")
            order = list(a.IDs.index)
            mon.equal(order, list(ids.index), "IDs-order", "order of the sites")
            repr(a)
            for key in t:
                s = a.datasets
                for part in key.split("/"):
                    s = getattr(s, part)
                has = set(t[key].index.get_level_values(0))
                queries(rng, mon, s, key, t, ids, order, sub, has)
                same(mon, s.select(), rename(t[key]), "select", key)
                c = ["p"] if "p" in t[key] else list(t[key].columns[:1])
                mon.event("columns")
                if key != "reader_arg":
                    same(mon, s.select(columns=c), rename(t[key][c]), "select-columns", key)
                x = int(rng.choice(order))
                lev = "ID" if t[key].index.nlevels > 1 else "index"
                if x in has:
                    same(mon, s.select(where=f"{lev} == {x}"), sub(key, [x]), "select-where", key)
        # reading of tables by path
        for key in t:
            mon.event("get_data")
            cfg, _, k = key.rpartition("/")
            same(mon, RT1_processor.get_data(path, k, config=cfg or None), t[key], "get_data", key)
        res = RTresults(os.path.join(d, "res") if rng.random() < 0.5 else d)
        r = res.res if hasattr(res, "res") else res["res"]
        mon.equal(sorted(x.name for x in res), ["res"], "results-folders")
        mon.equal(list(r.dump_files), list(ids), "dump_files", "IDs offered by RTresults")
        same(mon, r.fit_db.datasets.dataset.select(), t["dataset"], "results-select")
        r.fit_db.close()
        with r.load_hdf("fit_db") as h:
            same(mon, h.datasets.dataset.select(), t["dataset"], "load_hdf")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def queries(rng, mon, s, key, t, ids, order, sub, has):
    n = len(order)
    miss = len(has) < n
    # single sites
    for x in rng.permutation(order)[: int(rng.integers(1, 4))]:
        x = int(x)
        mon.event("single")
        mon.event("missing-rows", int(x not in has))
        if x not in has:
            continue
        same(mon, s.get_id(x), sub(key, [x]), "get_id", f"{key} {x}")
        mon.event("named")
        same(mon, s.get_id(ids[x]), sub(key, [x]), "get_id-name", f"{key} {ids[x]}")
        if key != "reader_arg":
            c = [t[key].columns[-1]]
            mon.event("columns")
            same(mon, s.get_id(x, columns=c), sub(key, [x])[c], "get_id-columns", f"{key} {x}")
    # counts
    for _ in range(2):
        k = int(rng.integers(1, n + 3))
        start = [None, 0, int(rng.integers(0, n))][rng.integers(3)]
        rc = [None, None, 1, int(rng.integers(1, k + 2)), 10][rng.integers(5)]
        mon.event("counts")
        same(mon, s.get_nids(k, start=start, read_chunksize=rc), sub(key, order[start or 0 :][:k]), "get_nids", f"{key} n={k} start={start} chunk={rc} of {n}")
        mon.event("iterations")
        parts = list(s.get_nids_iter(k, start=start, read_chunksize=rc))
        todo = order[start or 0 :]
        want = [todo[i : i + k] for i in range(0, len(todo), k)]
        mon.equal(len(parts), len(want), "iter-count", f"{key} number of portions n={k} start={start} chunk={rc} of {n}")
        for p, w in zip(parts, want):
            if not same(mon, p, sub(key, w), "get_nids_iter", f"{key} n={k} start={start} chunk={rc} of {n}"):
                break
    # lists of sites
    for _ in range(2):
        pick = [int(x) for x in rng.permutation(order)[: int(rng.integers(1, n + 1))]]
        rc = [None, 1, int(rng.integers(1, len(pick) + 2))][rng.integers(3)]
        use = pick
        if rng.random() < 0.5:
            use = [ids[x] for x in pick]
            mon.event("named")
        if rng.random() < 0.3:
            use = tuple(use)
        mon.event("lists")
        same(mon, s.get_nids(use, read_chunksize=rc), sub(key, pick), "list", f"{key} {use} chunk={rc}")
        parts = list(s.get_nids_iter(use, read_chunksize=rc))
        same(mon, pd.concat(parts), sub(key, pick), "list-iter", f"{key} {use} chunk={rc}")
    x = ids[int(rng.choice(order))]
    y = int(ids.index[list(ids).index(x)])
    if y in has:
        same(mon, s.get_nids(x), sub(key, [y]), "name", f"{key} {x}")


def iloc_case(rng, mon, tier):
    """selection of rows by the positions of the index values"""
    from rt1.rtresults import iloc_level

    nl = int(rng.integers(2, 4))
    n = int(rng.integers(1, 30))
    lev = [rng.integers(0, 12, n), np.array([f"c{i}" for i in rng.integers(0, 5, n)]), pd.Timestamp("2018-01-01") + pd.to_timedelta(rng.integers(0, 9, n), unit="D")]
    df = pd.DataFrame(dict(x=np.arange(n), y=rng.uniform(size=n)), index=pd.MultiIndex.from_arrays(lev[:nl], names=["ID", "cfg", "t"][:nl])).sort_index(kind="stable")
    if rng.random() < 0.5:  # a part of a larger table
        df = df.iloc[: int(rng.integers(1, n + 1))] if rng.random() < 0.5 else df[df.x % 2 == 0]
    if not len(df):
        return
    vals = [sorted(set(df.index.get_level_values(k))) for k in range(nl)]
    idx, want = [], np.ones(len(df), bool)
    for k in range(int(rng.integers(1, nl + 1))):
        m, u = rng.integers(4), len(vals[k])
        if m == 0:
            i, v = None, vals[k]
        elif m == 1:
            i = int(rng.integers(-u, u))
            v = [vals[k][i]]
        elif m == 2:
            i = [int(j) for j in rng.permutation(u)[: int(rng.integers(1, u + 1))]]
            v = [vals[k][j] for j in i]
        else:
            i = slice(*sorted(int(j) for j in rng.integers(-u, u + 1, 2)))
            v = vals[k][i]
        idx.append(i)
        want &= np.isin(np.array(df.index.get_level_values(k), dtype=object), np.array(v, dtype=object))
    if not want.any():
        return
    mon.event("positions")
    mon.distinct(df.to_dict("list"), str(idx))
    mon.note(idx=str(idx), entries=str(list(df.index)))
    keep = df.copy()
    arg = idx[0] if len(idx) == 1 and isinstance(idx[0], int) and rng.random() < 0.5 else idx
    got = iloc_level(df, arg)
    mon.equal(sorted(got.x), sorted(df.x[want]), "iloc_level", "rows selected by position")
    mon.check(got.equals(df.loc[got.index].iloc[:0]) or all((got[got.x == x].to_numpy() == df[df.x == x].to_numpy()).all() for x in got.x), "iloc_level", "values of the rows")
    mon.check(df.equals(keep), "iloc_level-input", "the table has been changed")


SCENARIOS = [S("store", store_case, 48, 2500), S("iloc", iloc_case, 60, 3000)]
