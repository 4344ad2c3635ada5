"""P11: alignment of observations, groups, auxiliary data, weights and results."""
import numpy as np
import pandas as pd

from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P11"
LEVEL = "exploration"
RULE = (
    "Random fit problems (ragged dates, shuffled rows, every variability, auxiliary and fixed parameters, weights, interpolation, definitions as "
    "dict or function, linear combinations, with and without interaction).  Each observation is identified through its unique incidence angle; the "
    "residual function given to the optimiser, calc_model, res_df, data/inc/mask arrays and calc() are compared with a row-by-row reference model.  "
    "Distinct by definitions, group structure and dataset shape."
)
MIN_EVENTS = {"rows": 800, "residuals": 120, "interpolated": 20, "auxiliary": 60, "weighted": 40, "ragged": 60, "interaction": 20, "padded": 60}


def check_arrays(mon, fit, ref):
    inc, data, mask = (np.asarray(x) for x in (fit.inc, fit.data, fit.mask))
    ok = mon.check(inc.shape == data.shape == mask.shape, "array-shapes", f"{inc.shape} {data.shape} {mask.shape}")
    if not ok:
        return None
    n = len(ref.df)
    mon.equal(int((~mask).sum()), n, "mask", "number of unmasked values")
    mon.event("padded", int(mask.any()))
    pos = [ref.rows.get(float(x)) for x in inc[~mask]]
    if not mon.check(None not in pos and len(set(pos)) == n, "incidence-angles", "every observation appears once in the arrays"):
        return None
    mon.close(data[~mask], ref.df["sig"].values[pos], "data-misplaced", rtol=0, atol=0)
    w = np.broadcast_to(np.asarray(fit.data_weights, float), inc.shape)[~mask]
    mon.close(w, ref.weights()[pos], "weights-misplaced", rtol=0, atol=0)
    fd = fit.fixed_dict
    for k, kind in ref.p["kinds"].items():
        if kind == "aux":
            mon.event("auxiliary")
            mon.close(np.asarray(fd[k], float)[~mask], ref.df[k].values[pos], "auxiliary-misplaced", rtol=0, atol=0, msg=k)
    # rows of the arrays are joint groups
    rows = np.repeat(np.arange(inc.shape[0]), (~mask).sum(axis=1))
    mon.equal(F.codes(rows), F.codes([ref.joint[i] for i in pos]), "array-rows", "rows of the arrays are the joint groups")
    mon.equal(sorted(pd.DatetimeIndex(np.asarray(fit.index)).tolist()),
              sorted(d for g in range(max(ref.joint) + 1) for d in dict.fromkeys(t for t, j in zip(ref.df.index, ref.joint) if j == g)), "fit-index", "fit.index")
    return pos


def tol(ref):
    return 2e-4 if any(ref.is_interp(k) for k in ref.fitted) else 1e-8


def check_results(mon, fit, ref, res, pos, comps=True):
    """calc_model, res_df for given estimates"""
    p = ref.p
    want = ref.model(res)
    rt = tol(ref)
    rc = 5e-6 if p["int_Q"] else 1e-9
    cm = fit.calc_model()
    mon.event("rows", len(cm))
    mon.equal(len(cm), len(ref.df), "model-length")
    ok = np.isfinite(want[pos, 0])  # extrapolating interpolation may leave the domain of dB
    mon.close(cm["tot"].values[ok], want[pos, 0][ok], "model-values", rtol=max(rt, rc), atol=rt, msg="calc_model vs reference rows")
    mon.equal(list(cm.index), [ref.df.index[i] for i in pos], "model-index", "dates of calc_model")
    if comps:
        cc = fit.calc_model(return_components=True)
        names = ["tot", "surf", "vol", "inter"][: 4 if p["int_Q"] else 3]
        mon.equal(list(cc.columns), names, "component-names")
        for i, nm in enumerate(names):
            if nm in cc:
                w = want[pos, i]
                okc = np.isfinite(w) & ((w > -60) if p["dB"] else True)
                mon.close(cc[nm].values[okc], w[okc], "component-values", rtol=max(rt, rc), atol=rt if rt > 1e-6 else 1e-8, msg=nm)
        mon.equal(list(cc.index), [ref.df.index[i] for i in pos], "component-index")
    rd = fit.res_df
    u = list(dict.fromkeys(ref.df.index))
    mon.equal(list(rd.index), u, "res_df-index")
    mon.equal(sorted(rd.columns), sorted(ref.fitted), "res_df-columns")
    for k in ref.fitted:
        vals = ref.assign(k, res[k])
        mon.event("interpolated", int(ref.is_interp(k) and len(ref.runs(k)) > 1))
        for d in u:
            w = vals[ref.df.index == d]
            g = rd[k].loc[d]
            mon.check(np.min(np.abs(w - g)) <= rt * (1 + np.abs(g)), "res_df-value", f"{k} at {d}: {g} not in {w}")
    return want


def observe(rng, mon, p, comps=True, fit=None):
    fit = F.make(p) if fit is None else fit
    ref = F.Ref(p, fit.dataset)
    pos = check_arrays(mon, fit, ref)
    if pos is None:
        return None
    mon.event("ragged", int(len(set(pd.Series(1, ref.df.index).groupby(level=0).size())) > 1))
    mon.event("weighted", int("data_weights" in ref.df))
    mon.event("interaction", int(p["int_Q"]))
    xs = []

    def choose(c):
        x = F.draw(rng, c)
        for y in (x, F.draw(rng, c)):
            xs.append((y, np.array(c.fun(y.copy()), float)))
        return x

    with hooks.capture(choose=choose) as cap:
        fit.performfit()
    order = list(fit.res_dict)
    if not mon.equal(sum(ref.ngroups.values()), len(xs[0][0]), "number-of-values"):
        return None
    for x, r in xs:
        res = ref.split(x, order)
        want = ref.weights() * (ref.model(res)[:, 0] - ref.df["sig"].values)
        mon.event("residuals")
        if not mon.equal(r.shape, (len(ref.df),), "residual-shape", "residual vector"):
            return None
        w = want[pos]
        ok = np.isfinite(w)
        mon.close(r[ok], w[ok], "residual-values", rtol=1e-8, atol=tol(ref) * 3 if tol(ref) > 1e-6 else (5e-5 if p["int_Q"] else 1e-8), msg="residuals vs reference rows")
    res = ref.split(xs[0][0], order)
    check_results(mon, fit, ref, res, pos, comps)
    return fit, ref, res, pos


def gen(rng, **kw):
    p = F.gen_problem(rng, **kw)
    if p is None:
        raise Skip("nothing to fit")
    return F.clean_for_interp(p)


def align(rng, mon, tier, **kw):
    p = gen(rng, **kw)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], p["tau"], p["omega"], len(p["df"]))
    observe(rng, mon, p)


def plain(rng, mon, tier):
    align(rng, mon, tier, int_Q=False)


def inter(rng, mon, tier):
    align(rng, mon, tier, int_Q=True, n_dates=int(rng.integers(2, 6)), nmax=2, interp=0.15)


def interpolated(rng, mon, tier):
    align(rng, mon, tier, int_Q=False, interp=0.9, freqs=["index", "int", "freq", "manual", "int+manual"], n_dates=int(rng.integers(4, 14)), aux=0.1, fixed=0.1)


def row_order(rng, mon, tier):
    """permuting the rows of the dataset changes nothing"""
    p = gen(rng, int_Q=False, interp=0.0, freqs=[None, "index", "int", "freq"], shuffle=0.0)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], len(p["df"]), "order")
    q = dict(p, df=p["df"].iloc[rng.permutation(len(p["df"]))])
    outs = []
    state = rng.integers(2**31)
    for z in (p, q):
        fit = F.make(z)
        r2 = np.random.default_rng(state)
        with hooks.capture(choose=lambda c: F.draw(r2, c)):
            fit.performfit()
        cm = fit.calc_model()
        inc = np.asarray(fit.inc)[~np.asarray(fit.mask)]
        outs.append((fit.res_df, pd.Series(cm["tot"].values, index=inc).sort_index(), fit.res_dict))
    a, b = outs
    mon.event("residuals")
    mon.check(a[0][sorted(a[0])].equals(b[0][sorted(a[0])]), "row-order-res_df")
    mon.close(b[1].values, a[1].values, "row-order-model", rtol=1e-12)


def calc(rng, mon, tier):
    """Fits.calc with explicit parameters: one row per parameter set, one column per incidence angle"""
    p = gen(rng, int_Q=bool(rng.random() < 0.3), interp=0.0, n_dates=3)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], "calc")
    fit = F.make(p)
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    inc = np.deg2rad(np.round(rng.uniform(10, 70, m), 4))
    names = [k for k, kd in p["kinds"].items() if kd != "fixed"]
    vals = {k: np.round(rng.uniform(0.15, 0.45, n), 4) for k in names}
    par = {k: vals[k] for k in names if p["kinds"][k] == "fit"}
    fix = {k: vals[k] for k in names if p["kinds"][k] == "aux"}
    form = rng.random()
    if form < 0.4:
        idx = pd.date_range("2020-01-01", periods=n)
        fixdf = pd.DataFrame(fix, index=idx)
        if fix and rng.random() < 0.5:  # more (and unsorted) rows in the auxiliary table than parameter sets
            extra = pd.DataFrame({k: rng.uniform(0.2, 0.3, 2) for k in fix}, index=pd.date_range("2019-01-01", periods=2))
            fixdf = pd.concat([fixdf, extra]).iloc[rng.permutation(n + 2)]
        got = fit.calc(pd.DataFrame(par, index=idx), inc, fixed_param=fixdf if fix else None)
    elif form < 0.7:
        got = fit.calc({k: list(v) for k, v in par.items()}, inc, fixed_param=fix or None)
    else:
        got = fit.calc(par, inc, fixed_param=fix or None)
    got1 = fit.calc(par, inc, fixed_param=fix or None, return_components=False)
    want = np.empty((4 if p["int_Q"] else 3, n, m))
    for i in range(n):
        v = {k: float(x[i]) for k, x in vals.items()}
        v.update({k: p["defdict"][k][1] for k, kd in p["kinds"].items() if kd == "fixed"})
        for j in range(m):
            want[:, i, j] = F.to_units(F.components(p, v, inc[j]), inc[j], p["sig0"], p["dB"])
    mon.event("calc")
    g = np.asarray(got, float)
    rc = 5e-6 if p["int_Q"] else 1e-9
    if mon.check(np.broadcast_shapes(g.shape[1:], (n, m)) == (n, m), "calc-shape", f"{g.shape} {want.shape}"):
        g = np.broadcast_to(g, want.shape)
        ok = np.isfinite(want) & ((want > -60) if p["dB"] else True)
        mon.close(g[ok], want[ok], "calc-values", rtol=rc, atol=rc if p["dB"] else 1e-8)
        mon.close(np.broadcast_to(got1, (n, m)), g[0], "calc-total", rtol=1e-12)


def _start(rng, mon, tier):
    """auxiliary start values: mean over the observations of the group"""
    p = gen(rng, int_Q=False, interp=0.0, n_dates=int(rng.integers(3, 8)), aux=0.1)
    fitted = [k for k, kd in p["kinds"].items() if kd == "fit"]
    for k in fitted:
        if rng.random() < 0.7:
            d = p["defdict"][k]
            if "manual" in str(d[2]) or (isinstance(d[2], str) and d[2] not in ("index",)):
                d[2] = "index" if rng.random() < 0.5 else int(rng.integers(1, 5))
            d[1] = "auxiliary"
            p["df"][k + "_start"] = np.round(rng.uniform(d[3][0][0], d[3][1][0], len(p["df"])), 5)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], "start")
    fit = F.make(p)
    ref = F.Ref(p, fit.dataset)
    with hooks.capture(choose=lambda c: F.draw(rng, c)) as cap:
        fit.performfit()
    x0 = ref.split(cap.calls[0].x0, list(fit.res_dict))
    for k in fitted:
        if p["defdict"][k][1] != "auxiliary":
            continue
        mon.event("start_values")
        v, c, j = ref.df[k + "_start"].values, np.array(ref.codes[k]), np.array(ref.joint)
        # documented as the mean-values of each fit-group, averaged per parameter value
        want = [np.mean([v[j == g].mean() for g in dict.fromkeys(j[c == q])]) for q in range(ref.ngroups[k])]
        mon.close(x0[k], want, "auxiliary-start-values", rtol=1e-12, msg=k)


SCENARIOS = [
    S("plain", plain, 160, 5000),
    S("inter", inter, 24, 500),
    S("interpolated", interpolated, 60, 1500),
    S("row_order", row_order, 40, 800),
    S("calc", calc, 50, 800),
    S("start", _start, 40, 600),
]
