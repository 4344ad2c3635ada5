"""P13: real optimisations: bounds, descent, consistency of the reported residual, fixed values, recovery."""
import numpy as np

from . import fitmodels as F
from . import hooks
from . import models as M
from . import p11
from .core import S, Skip

ID = "P13"
LEVEL = "exploration"
RULE = (
    "Real fits with scipy.optimize.least_squares on random problems (noise, tight bounds, weights, auxiliary start values, every variability, with and "
    "without interaction) observed through the optimiser interface, plus noise-free simulated datasets whose data must be reproduced.  Oracle: bounds "
    "of the definitions, reference model (closed forms and quadrature), independently computed residual.  Distinct by problem."
)
MIN_EVENTS = {"fits": 100, "in_bounds": 400, "active_bounds": 20, "recovered": 40, "interaction": 12, "fixed": 40}


def check_fit(mon, p, fit, ref, call):
    mon.event("fits")
    mon.event("interaction", int(p["int_Q"]))
    x = np.asarray(fit.fit_output.x, float)
    order = list(fit.res_dict)
    if not mon.equal(len(x), sum(ref.ngroups.values()), "number-of-values"):
        return None
    res = ref.split(x, order)
    for k in order:
        mon.close(fit.res_dict[k], res[k], "res_dict-not-solution", rtol=0, atol=0, msg=k)
        lo, hi = p["defdict"][k][3]
        mon.event("in_bounds", len(res[k]))
        mon.event("active_bounds", int(np.any(np.abs(res[k] - lo[0]) < 1e-6) or np.any(np.abs(res[k] - hi[0]) < 1e-6)))
        mon.check(np.all(res[k] >= np.asarray(lo)) and np.all(res[k] <= np.asarray(hi)), "out-of-bounds", f"{k}: {res[k]} not in [{lo}, {hi}]")
        # the same for the values per date and the inserted values of the model
        if not ref.is_interp(k):
            v = fit.res_df[k].values
            mon.check(np.all(v >= np.asarray(lo)) and np.all(v <= np.asarray(hi)), "out-of-bounds-table", k)
    inc, mask = np.asarray(fit.inc), np.asarray(fit.mask)
    pos = [ref.rows[float(z)] for z in inc[~mask]]
    w, sig = ref.weights(), ref.df["sig"].values

    def residual(r):
        return (w * (ref.model(r)[:, 0] - sig))[pos]

    rt = p11.tol(ref)
    r1 = residual(res)
    a = rt * 3 if rt > 1e-6 else (5e-5 if p["int_Q"] else 1e-8)
    got = np.asarray(fit.fit_output.fun, float)
    ok = np.isfinite(r1)
    if mon.equal(got.shape, r1.shape, "residual-shape"):
        mon.close(got[ok], r1[ok], "reported-residual", rtol=1e-7, atol=a, msg="residual reported with the result vs reference")
        mon.close(fit.fit_output.cost, 0.5 * np.sum(got**2), "reported-cost", rtol=1e-9, atol=1e-15)
    c1 = float(np.sum(np.asarray(fit.calc_model()["tot"].values - np.asarray(fit.data)[~mask]) ** 2 * w[pos] ** 2))
    # start: as documented by the definitions
    x0 = {k: np.full(ref.ngroups[k], float(p["defdict"][k][1])) for k in order}
    r0 = residual(x0)
    c0 = float(np.sum(r0**2))
    mon.check(not np.isfinite(c0) or c1 <= c0 * (1 + 1e-6) + a * (1 + np.sqrt(c0)) * len(r0), "worse-than-start", f"residual {c1} at the solution, {c0} at the start values")
    for k, kind in p["kinds"].items():
        if kind != "fit":
            mon.event("fixed")
            mon.check(k not in fit.res_dict and k not in fit.res_df, "fixed-parameter-estimated", k)
    want = ref.model(res)[pos, 0]
    got = fit.calc_model()["tot"].values
    mon.close(got[ok], want[ok], "fixed-values-not-maintained", rtol=max(rt, 5e-6 if p["int_Q"] else 1e-9), atol=rt)
    return res, r1


def gen(rng, **kw):
    p = F.gen_problem(rng, **kw)
    if p is None:
        raise Skip("nothing to fit")
    return F.clean_for_interp(p)


def fits(rng, mon, tier, **kw):
    p = gen(rng, **kw)
    df, defd = p["df"], p["defdict"]
    # a mixture of realistic and hostile data: simulated + noise, or arbitrary
    if rng.random() < 0.6:
        fit = F.make(p)
        ref = F.Ref(p, fit.dataset)
        true = {k: rng.uniform(defd[k][3][0][0], defd[k][3][1][0], ref.ngroups[k]) for k in ref.fitted}
        sim = ref.model(true)[:, 0]
        sim = sim + (rng.normal(0, 0.5, len(sim)) if p["dB"] else sim * rng.normal(0, 0.1, len(sim)))
        d = dict(zip(ref.df["inc"], np.where(np.isfinite(sim), sim, -12.0 if p["dB"] else 0.05)))
        p["df"] = df.assign(sig=[d[x] for x in df["inc"]])
    for k, d in defd.items():
        if p["kinds"][k] == "fit":
            m = rng.random()
            lo, hi = d[3][0][0], d[3][1][0]
            if m < 0.2:  # start next to a bound
                d[1] = M.r(lo + 1e-4, 6) if rng.random() < 0.5 else M.r(hi - 1e-4, 6)
            elif m < 0.35:  # narrow bounds
                d[3] = ([M.r(d[1] - 0.01)], [M.r(d[1] + 0.01)])
    p["lsq"] = dict(max_nfev=int(rng.integers(1, 15)))
    if rng.random() < 0.3:
        p["lsq"]["x_scale"] = "jac"
    if rng.random() < 0.3:
        p["lsq"]["method"] = "trf"
    if rng.random() < 0.2:
        p["lsq"].update(loss="linear", ftol=1e-6)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], p["tau"], p["df"]["sig"].tolist())
    fit = F.make(p)
    with hooks.capture() as cap:
        kw = {}
        if rng.random() < 0.2:
            kw["intermediate_results"] = True
        if rng.random() < 0.2:
            kw["print_progress"] = True
        fit.performfit(**kw)
    c = cap.calls[0]
    for k, v in p["lsq"].items():
        mon.check(c.kwargs.get(k) == v, "lsq-option-lost", f"{k}={v} not passed to the optimiser: {c.kwargs}")
    check_fit(mon, p, fit, F.Ref(p, fit.dataset), c)


def plain(rng, mon, tier):
    fits(rng, mon, tier, int_Q=False)


def inter(rng, mon, tier):
    fits(rng, mon, tier, int_Q=True, n_dates=int(rng.integers(2, 5)), nmax=2, interp=0.15)


def recover(rng, mon, tier):
    """noise-free data of a well-conditioned model inside the bounds are reproduced"""
    int_Q = bool(rng.random() < 0.15)
    while True:
        p = F.gen_problem(rng, int_Q=int_Q, interp=0.0, notau=True, min_obs=4, max_obs=6, n_dates=int(rng.integers(2, 6)), nmax=2, expr=False, bsf=0.0,
                          freqs=[None, "index", "int", "freq"], weights=0.3)
        if p is not None:
            break
    # only omega and NormBRDF are estimated, everything else is known
    for k in list(p["defdict"]):
        if k not in ("omega", "NormBRDF") and p["kinds"][k] == "fit":
            p["kinds"][k], p["defdict"][k] = "fixed", [False, p["defdict"][k][1]]
    p["omega"], p["norm"] = "omega", "NormBRDF"
    for k in ("omega", "NormBRDF"):
        if k not in p["kinds"]:
            p["kinds"][k], p["defdict"][k] = "fixed", [False, 0.2]
    if not any(v == "fit" for v in p["kinds"].values()):
        p["kinds"]["NormBRDF"], p["defdict"]["NormBRDF"] = "fit", [True, 0.2, "index", ([0.01], [0.9])]
        p["df"] = p["df"].drop(columns="NormBRDF", errors="ignore")
    for k in ("omega", "NormBRDF"):
        if p["kinds"][k] == "fit":
            p["defdict"][k][1] = 0.25
            p["defdict"][k][3] = ([0.01], [0.9])
    # spread of the incidence angles within every date
    df = p["df"].sort_index()
    n = df.groupby(level=0)["inc"].transform("size").values
    j = df.groupby(level=0).cumcount().values
    df["inc"] = np.round(np.deg2rad(15 + 55 * j / np.maximum(n - 1, 1) + rng.uniform(-2, 2, len(df))), 7)
    if len(set(df["inc"])) != len(df):
        raise Skip("angles")
    p["df"] = df.iloc[rng.permutation(len(df))]
    p["lsq"] = dict(ftol=1e-13, xtol=1e-13, gtol=1e-13, max_nfev=300)
    mon.note(**F.note(p))
    mon.distinct(p["V"], p["SRF"], p["defdict"], p["df"]["inc"].tolist())
    fit = F.make(p)
    ref = F.Ref(p, fit.dataset)
    true = {k: np.round(rng.uniform(0.08, 0.6, ref.ngroups[k]), 4) for k in ref.fitted}
    sim = ref.model(true)[:, 0]
    if not np.all(np.isfinite(sim)):
        raise Skip("no signal")
    d = dict(zip(ref.df["inc"], sim))
    p["df"] = p["df"].assign(sig=[d[x] for x in p["df"]["inc"]])
    fit = F.make(p)
    with hooks.capture() as cap:
        fit.performfit()
    out = check_fit(mon, p, fit, F.Ref(p, fit.dataset), cap.calls[0])
    if out is None:
        return
    model = fit.calc_model()["tot"].values
    data = np.asarray(fit.data)[~np.asarray(fit.mask)]
    tol = (1e-3 if p["dB"] else 1e-4 * np.abs(data).max())
    mon.event("recovered")
    mon.check(np.max(np.abs(model - data)) <= tol, "data-not-reproduced", f"largest misfit {np.max(np.abs(model - data))} (tolerance {tol})")
    # parameters of a well-conditioned model are recovered as well
    wp = dict(p, int_Q=False)
    J = jac_of(wp, true)
    s = np.linalg.svd(J, compute_uv=False)
    if s[-1] > 0.05 * s[0] and not p["int_Q"]:
        mon.event("parameters_recovered")
        for k in ref.fitted:
            mon.close(fit.res_dict[k], true[k], "parameters-not-recovered", rtol=0, atol=2e-3, msg=k)


def jac_of(p, true):
    fit = F.make(p)
    ref = F.Ref(p, fit.dataset)
    order = list(true)
    x = np.concatenate([true[k] for k in order])
    cols = []
    for i in range(len(x)):
        y, z = x.copy(), x.copy()
        y[i] += 1e-5
        z[i] -= 1e-5
        cols.append((ref.model(ref.split(y, order))[:, 0] - ref.model(ref.split(z, order))[:, 0]) / 2e-5)
    return np.array(cols).T * ref.weights()[:, None]


SCENARIOS = [
    S("plain", plain, 110, 3000),
    S("inter", inter, 20, 300),
    S("recover", recover, 60, 1200),
]
