"""P10: the grouping the fit really uses (assignments, number of values, joint groups) vs the declared variability."""
import copy

import numpy as np

from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P10"
LEVEL = "exploration"
RULE = (
    "Random datasets (3-40 irregular dates over days to years, ragged observations, shuffled rows) and variability declarations (constant, per date, "
    "integer N, calendar and fixed offsets, manual labels of any type and order, combinations).  Oracle: an independent calendar/array_split "
    "computation of the groups on the actual dataset of the fit; the vector handed to the optimiser is observed and re-distributed values are "
    "read back from the result.  Distinct by declarations and group structure."
)
MIN_EVENTS = {"gap_datasets": 100, "freq_none": 40, "freq_index": 40, "freq_int": 60, "freq_offset": 60, "freq_manual": 60, "freq_mixed": 60, "joint_groups": 100, "values_read_back": 200}


def kind_of(fr):
    if fr is None:
        return "none"
    if fr in ("index", "manual"):
        return fr
    if "manual" in str(fr):
        return "mixed"
    try:
        int(fr)
        return "int"
    except ValueError:
        return "offset"


def check_groups(mon, fit, p, key=""):
    """param_dyn_dict / param_dyn_df / joint groups of a fit object against the declaration"""
    df = fit.dataset
    ok = mon.check(df.index.is_monotonic_increasing, key + "dataset-not-sorted")
    a, b = df.sort_values("inc"), p["df"].sort_values("inc")
    ok &= mon.check(len(df) == len(p["df"]) and all(a[c].tolist() == b[c].tolist() for c in b) and a.index.equals(b.index),
                    key + "dataset-changed", "the dataset of the fit is not a permutation of the rows of the input")
    if not ok:
        return None
    ref = F.Ref(p, df)
    for k in ref.fitted:
        mon.event("freq_" + kind_of(p["defdict"][k][2] if len(p["defdict"][k]) > 2 else None))
        got = list(fit.param_dyn_dict[k])
        mon.equal(len(got), len(df), key + "dyn-length", k)
        mon.equal(F.codes(got), ref.codes[k], key + "partition", f"groups of {k} ({p['defdict'][k][2:3]})")
        mon.equal(int(fit.param_dyn_df[k].nunique()), ref.ngroups[k], key + "number-of-groups", k)
        mon.equal(len(fit.meandatetimes[k]), ref.ngroups[k], key + "number-of-meandates", k)
    nj = max(ref.joint) + 1
    mon.event("joint_groups", nj)
    mon.equal(len(fit.param_dyn_df), nj, key + "joint-groups", "rows of param_dyn_df")
    mon.equal(np.shape(fit.inc)[0], nj, key + "joint-groups-array", "rows of the rectangular arrays")
    # every observation is in exactly one joint group and the groups are those of the declaration
    inc, mask = np.asarray(fit.inc), np.asarray(fit.mask)
    got = {}
    for g in range(inc.shape[0]):
        for x in inc[g][~mask[g]]:
            mon.check(float(x) not in got, key + "observation-twice", "an observation is assigned to two joint groups")
            got[float(x)] = g
    mon.equal(sorted(got), sorted(ref.rows), key + "observations", "observations in the joint groups")
    if sorted(got) == sorted(ref.rows):
        lab = [got[float(x)] for x in df["inc"]]
        mon.equal(F.codes(lab), F.codes(ref.joint), key + "joint-partition", "joint groups")
    return ref


def gen(rng, big=False):
    names = None
    p = F.gen_problem(rng, n_dates=int(rng.integers(12, 45)) if big else None, interp=0.0, comb=0.1, int_Q=False, nmax=2, names=names)
    if p is None or len(p["df"]) < 2:
        raise Skip("nothing to fit")
    for k, d in p["defdict"].items():
        # a label column that is not used by the declaration has no effect
        if p["kinds"][k] == "fit" and kind_of(d[2]) in ("index", "int", "offset", "none") and rng.random() < 0.1:
            p["df"][k + "_dyn"] = rng.integers(0, 4, len(p["df"]))
    return p


def groups(rng, mon, tier, big=False):
    p = gen(rng, big)
    mon.note(**F.note(p))
    fit = F.make(p)
    ref = check_groups(mon, fit, p)
    if ref is None:
        return
    mon.distinct([d[2:3] for d in p["defdict"].values()], [ref.codes[k] for k in ref.fitted])
    with hooks.capture(choose=lambda c: F.draw(rng, c)) as cap:
        fit.performfit()
    c = cap.calls[0]
    total = sum(ref.ngroups.values())
    mon.equal(len(cap.calls), 1, "one-optimisation")
    mon.equal(len(c.x0), total, "number-of-estimated-values")
    lo, hi = c.lohi()
    order = list(fit.res_dict)
    mon.equal(sorted(order), sorted(ref.fitted), "estimated-parameters")
    if len(c.x0) != total or sorted(order) != sorted(ref.fitted):
        return
    mon.close(np.concatenate([fit.res_dict[k] for k in order]), c.result.x, "values-lost", rtol=0, atol=0)
    res = ref.split(c.result.x, order)
    for k, x0, l, h in zip(order, *(ref.split(z, order).values() for z in (c.x0, lo, hi))):
        d = p["defdict"][k]
        mon.close(x0, np.full(ref.ngroups[k], d[1]), "start-values", rtol=0, atol=0)
        mon.close(l, np.full(ref.ngroups[k], d[3][0][0]), "lower-bounds", rtol=0, atol=0)
        mon.close(h, np.full(ref.ngroups[k], d[3][1][0]), "upper-bounds", rtol=0, atol=0)
    # values read back per date
    rd = fit.res_df
    u = list(dict.fromkeys(fit.dataset.index))
    mon.equal(list(rd.index), u, "res_df-index", "dates of the parameter table")
    for k in ref.fitted:
        per_row = res[k][ref.codes[k]]
        for d in u:
            want = {per_row[i] for i in np.where(fit.dataset.index == d)[0]}
            mon.event("values_read_back")
            mon.check(rd[k].loc[d] in want, "value-of-foreign-group", f"{k} at {d}: {rd[k].loc[d]} not in {want}")
    # the table of the joint groups
    rg = fit.res_df_group
    mon.equal(len(rg), max(ref.joint) + 1, "res_df_group-length")
    first = [ref.joint.index(g) for g in range(max(ref.joint) + 1)]
    for k in ref.fitted:
        mon.close(np.sort(rg[k].values), np.sort(res[k][np.array(ref.codes[k])[first]]), "res_df_group-values", rtol=0, atol=0)


def big(rng, mon, tier):
    groups(rng, mon, tier, True)


def many(rng, mon, tier):
    """many parameters with many groups each (long joint labels)"""
    import pandas as pd

    npar, n = int(rng.integers(5, 10)), int(rng.integers(30, 400))
    names = [f"p{i}" for i in range(npar)]
    idx = F.gen_dates(rng, n, 0.9)
    obs = rng.integers(1, 3, n)
    idx = idx.repeat(obs)
    n = len(idx)
    df = pd.DataFrame(dict(inc=np.linspace(0.2, 1.2, n), sig=rng.uniform(0.1, 0.3, n)), index=idx)
    defdict = {}
    for k in names:
        m = rng.random()
        fr = None
        if m < 0.6:
            fr = "manual"
            hi = int(rng.choice([3, 20, n, 2000]))
            df[k + "_dyn"] = rng.integers(0, hi, n) if rng.random() < 0.5 else np.sort(rng.integers(0, hi, n))
        elif m < 0.8:
            fr = int(rng.integers(1, 6))
        elif m < 0.9:
            fr = "index"
        defdict[k] = [True, 0.3, fr, ([0.1], [0.6])]
    p = dict(df=df, defdict=defdict, kinds={k: "fit" for k in names}, sig0=False, dB=False, int_Q=False, func=False,
             tau="(" + " + ".join(names) + f")/{npar}", omega=names[0], norm=names[1], V=dict(kind="V", type="Rayleigh", a=None), SRF=dict(kind="SRF", type="Isotropic", a=None))
    mon.note(n=n, defdict=defdict)
    mon.distinct(n, defdict)
    fit = F.make(p)
    mon.event("many_parameters")
    check_groups(mon, fit, p, "many-")


def long_labels(rng, mon, tier):
    """joint labels whose concatenated group numbers are around the limits of 64-bit integers"""
    import pandas as pd

    n = 1100
    idx = F.gen_dates(rng, n, 0.9)
    obs = rng.integers(1, 3, n)
    idx = idx.repeat(obs)
    n = len(idx)
    df = pd.DataFrame(dict(inc=np.linspace(0.2, 1.2, n), sig=rng.uniform(0.1, 0.3, n)), index=idx)
    digits = [1 if rng.random() < 0.7 else 2]
    while sum(digits) < int(rng.integers(15, 21)):
        digits.append(int(rng.integers(2, 5)))
    names = [f"p{i}" for i in range(len(digits))]
    defdict = {}
    for i, (k, d) in enumerate(zip(names, digits)):
        hi = min(10**d, 1050) if i else int(rng.integers(10, 20)) if d == 2 else 10
        coarse = np.sort(np.append(rng.integers(0, hi, n - hi), np.arange(hi)))
        df[k + "_dyn"] = np.arange(n) % hi if i == len(digits) - 1 else coarse
        defdict[k] = [True, 0.3, "manual", ([0.1], [0.6])]
    p = dict(df=df, defdict=defdict, kinds={k: "fit" for k in names}, sig0=False, dB=False, int_Q=False, func=False,
             tau="(" + " + ".join(names) + f")/{len(names)}", omega=names[0], norm=names[1], V=dict(kind="V", type="Rayleigh", a=None), SRF=dict(kind="SRF", type="Isotropic", a=None))
    mon.note(digits=digits)
    mon.distinct(digits, n)
    fit = F.make(p)
    mon.event("many_parameters")
    check_groups(mon, fit, p, "many-")


def gaps(rng, mon, tier):
    """few dates with long gaps: group numbers of time offsets with very different numbers of digits next to small label sets"""
    import pandas as pd

    n = int(rng.integers(3, 14))
    span = int(rng.choice([12, 30, 120, 1500]))
    pool = np.array([0, 1, 2, 9, 10, 11, 12, 19, 20, 21, 22, 99, 100, 101, 110, 111, 112, 121, 211, 999, 1000, 1001, 1011, 1101, 1111])
    pool = pool[pool < span]
    days = np.sort(np.unique(np.append(rng.choice(pool, min(n, len(pool)), replace=False), 0)))
    idx = pd.Timestamp("2019-03-01") + pd.to_timedelta(days, unit="D")
    idx = idx.repeat(rng.integers(1, 4, len(idx)))
    n = len(idx)
    df = pd.DataFrame(dict(inc=np.linspace(0.2, 1.2, n), sig=rng.uniform(0.1, 0.3, n)), index=idx)
    names = [f"p{i}" for i in range(int(rng.integers(2, 5)))]
    defdict = {}
    for k in names:
        fr = ["manual", "D", "2D", "10D", "12h", "manual + D", "index", 2][rng.choice(8, p=[0.35, 0.3, 0.1, 0.05, 0.05, 0.05, 0.05, 0.05])]
        if "manual" in str(fr):
            df[k + "_dyn"] = rng.integers(0, int(rng.choice([2, 3, 12])), n)
        defdict[k] = [True, 0.3, fr, ([0.1], [0.6])]
    p = dict(df=df, defdict=defdict, kinds={k: "fit" for k in names}, sig0=False, dB=False, int_Q=False, func=False,
             tau="(" + " + ".join(names) + f")/{len(names)}", omega=names[0], norm=names[1], V=dict(kind="V", type="Rayleigh", a=None), SRF=dict(kind="SRF", type="Isotropic", a=None))
    mon.note(days=days, n=n, defdict=defdict)
    mon.distinct(days, defdict, n)
    mon.event("gap_datasets")
    check_groups(mon, F.make(p), p, "gaps-")


def assigned(rng, mon, tier):
    """re-assigned datasets and definitions regroup"""
    p = gen(rng)
    q = gen(rng)
    fit = F.make(p)
    if rng.random() < 0.7:
        check_groups(mon, fit, p)
    mon.note(**F.note(q))
    mon.distinct(q["defdict"])
    r = F.make(q)
    for attr in rng.permutation(["dataset", "defdict", "set_V_SRF"]):
        setattr(fit, str(attr), copy.deepcopy(r.defdict) if attr == "defdict" else getattr(r, str(attr)))
    check_groups(mon, fit, q, "reassigned-")


SCENARIOS = [
    S("groups", groups, 220, 6000),
    S("big", big, 60, 1500),
    S("many", many, 12, 120),
    S("long_labels", long_labels, 8, 100),
    S("assigned", assigned, 50, 600),
    S("gaps", gaps, 300, 4000),
]
