"""P22: metrics equal their textbook definition on the pairs that belong together."""
import contextlib
import io

import numpy as np
import pandas as pd

from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P22"
LEVEL = "exploration"
RULE = (
    "(series) random pairs of series (same index, permuted or partly overlapping unique indices, repeated dates in one of them, missing values, negative values, "
    "ties, offsets, large scales) for every metric, the table, the scatter data; (fit) random fitted problems (unsorted rows, ragged and repeated dates, re-appearing groups) where every "
    "pair of data columns, model components, retrieved parameters (and keys present in several sources) is compared with textbook formulas on the pairs obtained by "
    "observation identity; metrics are re-read after new results.  Distinct by input."
)
MIN_EVENTS = {"series": 60, "pairs-differ": 30, "missing": 30, "fit-pairs": 150, "model-pairs": 40, "result-pairs": 20, "table": 40, "scatter": 8, "refresh": 10, "suffix": 5}
NAMES = ["pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio"]


# ------------------------------------------------------------------ textbook definitions
def ranks(x):
    """average ranks"""
    x = np.asarray(x, float)
    return np.array([(x < v).sum() + ((x == v).sum() + 1) / 2 for v in x])


def corr(a, b):
    a, b = a - a.mean(), b - b.mean()
    with np.errstate(all="ignore"):
        return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def textbook(a, b):
    from scipy import special

    a, b = np.asarray(a, float), np.asarray(b, float)
    n = len(a)
    out = {}
    with np.errstate(all="ignore"):
        out["pearson"] = corr(a, b)
        out["spearman"] = corr(ranks(a), ranks(b))
        da, db = a - a.mean(), b - b.mean()
        slope = (da * db).sum() / (da * da).sum()
        r = out["pearson"]
        res = b - b.mean() - slope * da
        se = np.sqrt((res**2).sum() / (n - 2) / (da * da).sum()) if n > 2 else 0.0
        t = abs(r) * np.sqrt((n - 2) / np.float64((1 - r) * (1 + r))) if n > 2 else np.nan
        out["linregress"] = dict(
            slope=slope, intercept=b.mean() - slope * a.mean(), rvalue=r,
            pvalue=float(2 * special.stdtr(n - 2, -t)) if n > 2 else (1.0 if a[0] == a[1] else 0.0) if n == 2 else np.nan,
            stderr=se, intercept_stderr=se * np.sqrt((a * a).mean()) if n > 2 else 0.0)
        out["rmsd"] = float(np.sqrt(((a - b) ** 2).mean()))
        out["ub_rmsd"] = float(np.sqrt(((da - db) ** 2).mean()))
        out["bias"] = float(a.mean() - b.mean())
        out["mae"] = float(np.abs(a - b).mean())
        out["mape"] = float(np.abs((a - b) / a).mean())
        out["std_ratio"] = float(a.std(ddof=1) / b.std(ddof=1)) if n > 1 else np.nan
    return out


def scale_of(a, b):
    return float(max(np.abs(a).max(), np.abs(b).max(), 1e-300))


def compare(mon, got, a, b, key, only=None):
    """got: {metric: value}"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 3:
        return
    w = textbook(a, b)
    sc = scale_of(a, b)
    var = min(np.ptp(a), np.ptp(b)) > 1e-7 * sc  # (nearly) constant samples: correlation and slopes are not defined
    for k in only or NAMES:
        if k in ("pearson", "spearman", "linregress", "std_ratio") and not var:
            continue
        g = got[k]
        if k == "linregress":
            if not mon.check(g is not None and set(g) >= {"slope", "intercept", "rvalue", "pvalue", "stderr"}, key + ":linregress", f"fields {g}"):
                continue
            exact = 1 - abs(w[k]["rvalue"]) < 1e-9
            f = np.ptp(b) / np.ptp(a)
            for q, tol in (("slope", 1e-9 * f), ("intercept", 1e-9 * (sc + f * sc)), ("rvalue", 1e-9), ("stderr", 1e-7 * f), ("intercept_stderr", 1e-7 * (sc + f * sc)), ("pvalue", 1e-7)):
                if q in g and not (exact and q in ("pvalue", "stderr", "intercept_stderr")):
                    mon.close(g[q], w[k][q], f"{key}:linregress:{q}", rtol=1e-7, atol=tol, msg=f"{key} {q}")
        else:
            mon.close(g, w[k], f"{key}:{k}", rtol=1e-8, atol={"mape": 1e-12}.get(k, 1e-10 * (1 if k in ("pearson", "spearman", "std_ratio") else sc)), msg=f"{key} {k}")


def check_table(mon, call, a, b):
    """the printed table shows the values of the metrics"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        call()
    w = textbook(a, b)
    sc = scale_of(a, b)
    rows = {}
    for line in buf.getvalue().splitlines():
        parts = [x.strip(" -") if i == 0 else x.strip() for i, x in enumerate(line.split("|"))]
        if len(parts) >= 2 and parts[1] not in ("", "VALUE"):
            rows[parts[0]] = float(parts[1])
    mon.event("table")
    flat = {k: v for k, v in w.items() if k != "linregress"}
    flat.update(w["linregress"])
    for k, v in flat.items():
        if k == "pvalue" or (k.endswith("stderr") and 1 - abs(w["pearson"]) < 1e-9) or not np.isfinite(v):
            continue
        if k not in rows:
            if k == "intercept_stderr":
                continue
            mon.fail("table-missing", f"{k} not in the table: {sorted(rows)}")
            continue
        if abs(v) > 1e-9 and abs(abs(v) - 1e5) > 1:
            mon.close(rows[k], v, "table-value", rtol=2e-6, atol=1.01e-6 if abs(v) < 1e5 else 0, msg=k)


def check_scatter(mon, fig, a, b):
    import matplotlib.pyplot as plt

    off = np.asarray(fig.axes[0].collections[0].get_offsets())
    mon.event("scatter")
    mon.close(np.array(sorted(map(tuple, off))), np.array(sorted(zip(np.asarray(a, float), np.asarray(b, float)))), "scatter-points", rtol=1e-12)
    w = textbook(a, b)
    line = [ln for ln in fig.axes[0].lines if ln.get_color() == "k"]
    if np.ptp(a) > 0 and line:
        x, y = np.asarray(line[0].get_xdata(), float), np.asarray(line[0].get_ydata(), float)
        mon.close(y, w["linregress"]["intercept"] + w["linregress"]["slope"] * x, "scatter-line", rtol=1e-7, atol=1e-8 * scale_of(a, b))
    tab = {}
    for (r, c), cell in fig.axes[1].tables[0].get_celld().items():
        tab.setdefault(r, {})[c] = cell.get_text().get_text()
    rows = {v[-1].strip(" -"): v[0] for v in tab.values() if -1 in v}
    for k in ("pearson", "rmsd", "bias", "mae"):
        mon.close(float(rows[k]), w[k], "scatter-table", rtol=2e-3, atol=5.1e-4, msg=k)
    plt.close(fig)


# ------------------------------------------------------------------ plain series
def dates(rng, n):
    return pd.DatetimeIndex(pd.Timestamp("2019-01-01") + pd.to_timedelta(np.cumsum(rng.integers(1, 80, n)), unit="h"))


def series(rng, mon, tier):
    from rt1.rtmetrics import RTmetrics

    for _ in range(4):
        n = int(rng.integers(4, 40))
        kind = rng.integers(4)
        if kind == 0:
            idx = dates(rng, n)
        elif kind == 1:
            idx = pd.Index(np.arange(n) * 2 + 5)
        elif kind == 2:
            idx = pd.Index([f"k{i}" for i in rng.permutation(n)])
        else:
            idx = dates(rng, n)[rng.permutation(n)]
        a = rng.normal(size=n)
        b = 0.6 * a + rng.normal(size=n) * rng.choice([1e-3, 0.5, 3])
        m = rng.integers(5)
        if m == 0:
            a, b = a * 1e4 - 3e6, b * 1e4
        elif m == 1:
            a, b = np.round(a * 2) + 0.5, np.round(b * 2)
        elif m == 2:
            a, b = np.abs(a) * 1e-4, np.abs(b) * 1e-4
        if rng.random() < 0.15:
            a, b = np.round(a * 5).astype(int) + 100, np.round(b * 5).astype(int)
        s1, s2 = pd.Series(a, idx, name="x"), pd.Series(b, idx, name="y" if rng.random() < 0.8 else "x")
        mode = rng.choice(["same", "duplicated", "permuted", "subset", "one-duplicated"])
        if mode == "duplicated":  # identical index with repeated entries: pairs by position
            rep = np.sort(rng.integers(0, n, n))
            s1, s2 = pd.Series(a, idx[rep], name="x"), pd.Series(b, idx[rep], name="y")
        elif mode == "permuted":
            s2 = s2.iloc[rng.permutation(n)]
        elif mode == "subset":
            s1 = s1.iloc[np.sort(rng.permutation(n)[: n - int(rng.integers(0, n // 2))])]
            s2 = s2.iloc[rng.permutation(n)[: n - int(rng.integers(0, n // 2))]]
        elif mode == "one-duplicated":
            rep = np.sort(rng.integers(0, n, n))
            dup = pd.Series(rng.normal(size=n), idx[rep], name="dup")
            s1, s2 = (dup, s2) if rng.random() < 0.5 else (s1, dup)
        s1, s2 = s1.copy(), s2.copy()
        if rng.random() < 0.4 and s1.dtype == float and s2.dtype == float:
            for s in (s1, s2):
                s.iloc[rng.permutation(len(s))[: int(rng.integers(0, max(1, len(s) // 4)))]] = np.nan
            mon.event("missing", int(s1.isna().any() or s2.isna().any()))
        # reference pairs
        if mode in ("same", "duplicated"):
            pairs = [(float(x), float(y)) for x, y in zip(s1.values, s2.values)]
        else:
            look = {}
            for k, v in zip(s2.index, s2.values):
                look.setdefault(k, []).append(float(v))
            pairs = [(float(x), y) for k, x in zip(s1.index, s1.values) for y in look.get(k, [])]
            mon.event("pairs-differ")
        pairs = [q for q in pairs if q[0] == q[0] and q[1] == q[1]]
        if len(pairs) < 3:
            continue
        pa, pb = np.array(pairs).T
        mon.event("series")
        mon.distinct(mode, s1.values.tolist(), s2.values.tolist())
        c1, c2 = s1.copy(), s2.copy()
        compare(mon, {k: getattr(RTmetrics, k)(s1, s2) for k in NAMES}, pa, pb, f"series:{mode}")
        compare(mon, RTmetrics.allmetrics(s1, s2), pa, pb, f"allmetrics:{mode}")
        mon.check(s1.equals(c1) and s2.equals(c2) and s1.index.equals(c1.index) and s2.index.equals(c2.index), "inputs-changed", "a metric changed its inputs")
        if np.ptp(pa) > 0 and np.ptp(pb) > 0:
            check_table(mon, lambda: RTmetrics.metrics_table(s1, s2), pa, pb)
            if rng.random() < 0.1:
                check_scatter(mon, RTmetrics.scatterplot(s1, s2, "x", "y"), pa, pb)
    mon.note(mode=mode, n=n)


# ------------------------------------------------------------------ fits
def columns_of(p, ref, fit, res, order):
    """{(source, key): {observation position: value}} of the sorted reference dataset; results by date"""
    df = ref.df
    obs = {("dataset", c): df[c].values for c in df.columns if np.issubdtype(df[c].dtype, np.number)}
    mod = ref.model(res)
    for i, c in enumerate(["tot", "surf", "vol", "inter"][: mod.shape[1]]):
        obs["calc_model", c] = mod[:, i]
    par = {("res_df", k): ref.assign(k, res[k]) for k in order}
    return obs, par


def fit_case(rng, mon, tier):
    p = F.gen_problem(rng, int_Q=False if rng.random() < 0.8 else True, min_obs=1, nmax=2, n_dates=int(rng.integers(5, 12)))
    if p is None:
        raise Skip("no fitted parameter")
    if rng.random() < 0.25:
        # a name used by another source as well
        k = rng.choice(["tot", "surf"])
        p["df"][k] = rng.uniform(0.1, 0.5, len(p["df"]))
    under = [k for k in p["kinds"] if "__" in k]
    if rng.random() < (0.8 if under else 0.3):
        # reference data of a retrieved parameter in the dataset (also if the name looks like one with a suffix)
        fitted = sorted((k for k in p["kinds"] if p["kinds"][k] == "fit" and k not in p["df"]), key=lambda k: k not in under)
        if fitted:
            p["df"][fitted[0]] = rng.uniform(0.1, 0.5, len(p["df"]))
    F.clean_for_interp(p)
    fit = F.make(p)
    order = F.order_of(fit, p)
    # the order among equal dates as seen by the fit
    df = fit.dataset
    mon.check(df.index.is_monotonic_increasing, "dataset-unsorted", "fit.dataset is sorted by date")
    ref = F.Ref(p, df)
    with hooks.capture(choose=lambda c: F.draw(rng, c)) as cap:
        fit.performfit()
    res = ref.split(cap.calls[-1].result.x, order)
    pairs_check(rng, mon, p, ref, fit, res, order, "fit", 7)
    # new results: the metrics follow
    if rng.random() < 0.5:
        mon.event("refresh")
        with hooks.capture(choose=lambda c: F.draw(rng, c)) as cap:
            fit.performfit()
        res = ref.split(cap.calls[-1].result.x, order)
        pairs_check(rng, mon, p, ref, fit, res, order, "refit", 3)
    elif rng.random() < 0.6:
        mon.event("refresh")
        res = {k: np.asarray(v) * 1.1 for k, v in res.items()}
        fit.res_dict = {k: list(v) for k, v in res.items()}
        pairs_check(rng, mon, p, ref, fit, res, order, "new-results", 3)
    mon.distinct(F.note(p))
    mon.note(**{k: v for k, v in F.note(p).items() if k in ("defdict", "kinds", "tau", "dB", "sig0")})


def pairs_check(rng, mon, p, ref, fit, res, order, tag, nmax):
    obs, par = columns_of(p, ref, fit, res, order)
    tol_interp = any(ref.is_interp(k) for k in ref.fitted)
    allk = list(obs) + list(par)
    names = [k for _, k in allk]
    metric = fit.metric
    combos = [(x, y) for x in allk for y in allk if x != y]
    pick = [combos[i] for i in rng.permutation(len(combos))]
    # prefer pairs of different sources
    pick.sort(key=lambda q: q[0][0] == q[1][0])
    pick = pick[: nmax - 2] + pick[-2:]
    by_date = len(set(ref.df.index)) == len(ref.df)
    for x, y in pick:
        va, vb = [], []
        kinds = {x[0], y[0]}
        if "res_df" in kinds:
            mon.event("result-pairs")
            # one value per date; domain: the parameters do not vary within a date
            if tol_interp:
                continue
            if any(pd.Series(ref.codes[k], index=ref.df.index).groupby(level=0).nunique().max() > 1 for k in order):
                continue
            if kinds == {"res_df"}:
                first = [i for i, d in enumerate(ref.df.index) if i == 0 or ref.df.index[i - 1] != d]
                va, vb = par[x][first], par[y][first]
            else:
                va = par[x] if x in par else obs[x]
                vb = par[y] if y in par else obs[y]
        else:
            mon.event("model-pairs", int("calc_model" in kinds))
            if "calc_model" in kinds and tol_interp:
                continue
            va, vb = obs[x], obs[y]
        va, vb = np.asarray(va, float), np.asarray(vb, float)
        if len(va) < 3 or not (np.isfinite(va) & np.isfinite(vb)).all():
            continue
        if p["dB"] and any(q[0] == "calc_model" and v.min() < -60 for q, v in ((x, va), (y, vb))):
            continue  # logarithm of a vanishing contribution

        def nm(q):
            return q[1] if names.count(q[1]) == 1 else f"{q[1]}__{q[0]}"

        mon.event("suffix", int("__" in nm(x) + nm(y)))
        m = getattr(getattr(metric, nm(x)), nm(y))
        mon.event("fit-pairs")
        key = f"{tag}:{x[0]}-{y[0]}"
        got = m.allmetrics if rng.random() < 0.5 else {k: getattr(m, k) for k in NAMES}
        loose(mon, got, va, vb, key, f"{nm(x)} {nm(y)}", model="calc_model" in kinds and p["int_Q"])
        if rng.random() < 0.15 and np.ptp(va) > 1e-6 and np.ptp(vb) > 1e-6 and not p["int_Q"]:
            check_table(mon, lambda: m.metrics_table, va, vb)
        if rng.random() < 0.06 and np.ptp(va) > 1e-6 and not p["int_Q"]:
            check_scatter(mon, m.scatterplot(), va, vb)


def loose(mon, got, a, b, key, msg, model):
    """metrics of pairs involving model values (the reference model has its own quadrature error)"""
    w = textbook(a, b)
    sc = scale_of(a, b)
    rt = 1e-4 if model else 1e-6
    var = min(np.ptp(a), np.ptp(b)) > 1e-4 * sc
    for k in NAMES:
        if k in ("pearson", "linregress", "std_ratio", "spearman") and not var:
            continue
        if k == "spearman" and min(np.diff(np.unique(a)).min(), np.diff(np.unique(b)).min()) < rt * sc:
            continue
        if k == "mape" and np.abs(a).min() < 1e-3 * sc:
            continue
        if k == "linregress":
            f = np.ptp(b) / np.ptp(a)
            mon.close(got[k]["slope"], w[k]["slope"], f"{key}:slope", rtol=rt, atol=10 * rt * f, msg=msg)
            mon.close(got[k]["intercept"], w[k]["intercept"], f"{key}:intercept", rtol=rt, atol=10 * rt * (sc + f * sc), msg=msg)
        elif k in ("pearson", "spearman", "std_ratio", "mape"):
            mon.close(got[k], w[k], f"{key}:{k}", rtol=10 * rt, atol=10 * rt, msg=msg)
        else:
            mon.close(got[k], w[k], f"{key}:{k}", rtol=rt, atol=rt * sc, msg=msg)


SCENARIOS = [
    S("series", series, 40, 4000),
    S("fit", fit_case, 70, 3000),
]
