"""Offline oracle: a result store against the sites that were to be processed and sequentially made reference fits."""
from collections import Counter

import numpy as np
import pandas as pd

RTOL = 1e-5


def fits_of(res):
    return res if isinstance(res, dict) else {"default": res}


def rowset(df):
    """multiset of (index entry, values)"""
    cols = sorted(df.columns)
    return Counter((i, *v) for i, v in zip(df.index, df[cols].itertuples(index=False, name=None)))


def numbers(mon, T, ids, key="store"):
    """{site: number}; every expected site exactly once"""
    ra = T.get("reader_arg")
    if ra is None:
        mon.check(not ids, f"{key}:lost", f"no sites in the store instead of {len(ids)}; tables {list(T)}")
        return {}
    got = Counter(str(x) for x in ra["ID"])
    want = [str(i) for i in ids]
    lost = [i for i in want if not got[i]]
    mon.check(not lost, f"{key}:lost", f"sites without a result: {lost[:10]} ({len(lost)} of {len(want)})")
    dup = [i for i, n in got.items() if n > 1]
    mon.check(not dup, f"{key}:duplicated", f"sites stored more than once: {dup[:10]}")
    alien = [i for i in got if i not in want]
    mon.check(not alien, f"{key}:foreign", f"unexpected sites in the store: {alien[:10]}")
    mon.check(ra.index.is_unique, f"{key}:numbers", f"site numbers not unique: {list(ra.index)}")
    if "_RT1_ID_num" in ra:
        mon.check(list(ra["_RT1_ID_num"]) == list(ra.index), f"{key}:numbers", f"numbers {list(ra['_RT1_ID_num'])} stored under {list(ra.index)}")
    return {str(r): int(n) for n, r in zip(ra.index, ra["ID"])}


def part(T, key, num):
    """rows of one site without the number"""
    df = T[key]
    df = df[df.index.get_level_values(0) == num]
    if df.index.nlevels > 1:
        df = df.droplevel(0)
    return df


def same_frame(mon, got, want, key, msg, rtol=0.0):
    """same index entries with the same values (order of equal dates irrelevant)"""
    want = want.copy()
    ok = mon.check(sorted(map(str, got.columns)) == sorted(map(str, want.columns)) and len(got) == len(want), key,
                   f"{msg}: shape {got.shape} {sorted(map(str, got.columns))} instead of {want.shape} {sorted(map(str, want.columns))}")
    if not ok:
        return False
    want = want[list(got.columns)]
    if rtol == 0:
        g, w = rowset(got.astype(object).where(got.notna(), None)), rowset(want.astype(object).where(want.notna(), None))
        return mon.check(g == w, key, f"{msg}: rows differ, e.g. {list((g - w).items())[:2]} instead of {list((w - g).items())[:2]}")
    g, w = got.sort_index(kind="stable"), want.sort_index(kind="stable")
    if not mon.check(list(g.index) == list(w.index), key, f"{msg}: index {list(g.index)[:4]} instead of {list(w.index)[:4]}"):
        return False
    return mon.close(g.to_numpy(dtype=float), w.to_numpy(dtype=float), key, rtol=rtol, atol=1e-8, msg=msg)


def check_site(mon, T, i, num, fits, mod, key="site", opts=None):
    """all rows of one site; fits: {config: Fits} (sequential reference)"""
    opts = opts or {}
    multi = "default" not in fits
    mon.event("sites-compared")
    # the dataset
    if opts.get("save_data", True):
        if mon.check("dataset" in T, f"{key}:dataset", "no dataset table"):
            want = mod.dataset(i)
            got = part(T, "dataset", num)
            # columns that only other sites have
            got = got[[c for c in got if c in want or got[c].notna().any()]]
            same_frame(mon, got, want, f"{key}:dataset", f"dataset of {i}")
            got = got.index
            mon.check(got.is_monotonic_increasing, f"{key}:dataset-order", f"dates of {i} not ascending")
    # auxiliary data
    aux = mod.auxdata(i)
    if opts.get("save_auxdata", True):
        if aux is None:
            got = part(T, "aux_data", num) if "aux_data" in T else []
            mon.check(len(got) == 0, f"{key}:aux-foreign", f"site {i} has no auxiliary data but {len(got)} rows are stored")
        elif mon.check("aux_data" in T, f"{key}:aux", "no aux_data table"):
            same_frame(mon, part(T, "aux_data", num), aux, f"{key}:aux", f"auxiliary data of {i}")
    # the definition
    init = part(T, "init_dict", num)
    if multi:
        mon.equal(sorted(init.index), sorted(fits), f"{key}:init", f"configurations of site {i}")
    else:
        mon.equal(len(init), 1, f"{key}:init", f"definitions of site {i}")
    # results
    if opts.get("save_results", True):
        r = part(T, "res_dict", num)
        for name, f in fits.items():
            rr = r[[k == name for k in r.index.get_level_values(0)]] if multi else r
            got = {k: v.dropna().tolist() for k, v in rr.items() if v.notna().any()}
            want = {k: list(np.ravel(v)) for k, v in f.res_dict.items()}
            if mon.equal(sorted(got), sorted(want), f"{key}:res_dict", f"parameters of {i} {name}"):
                for k in want:
                    mon.close(got[k], want[k], f"{key}:res_dict", rtol=RTOL, atol=1e-8, msg=f"{k} of {i} {name}")
    if opts.get("save_res_df", True):
        r = part(T, "res_df", num)
        for name, f in fits.items():
            rr = r.loc[[name]].droplevel(0) if multi and name in r.index.get_level_values(0) else r
            rr = rr.dropna(how="all", axis=1)
            same_frame(mon, rr, f.res_df, f"{key}:res_df", f"res_df of {i} {name}", rtol=RTOL)


def check_store(mon, T, ids, ref, mod, key="store", opts=None):
    """the whole store; ids: the sites that must be present; ref: {id: {config: Fits}}"""
    nums = numbers(mon, T, ids, key)
    known = set(nums.values())
    for k, df in T.items():
        found = set(int(x) for x in df.index.get_level_values(0))
        mon.check(found <= known, f"{key}:orphans", f"rows of unknown sites {sorted(found - known)[:8]} in {k}")
    for i in ids:
        if str(i) in nums:
            check_site(mon, T, i, nums[str(i)], ref[i], mod, opts=opts)
    return nums
