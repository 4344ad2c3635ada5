"""P28: figures draw exactly the data, model and parameter values they claim; drawing changes nothing."""
import numpy as np
import pandas as pd

from . import fitmodels as F
from . import hooks
from . import models as M
from . import p15
from .core import S, Skip
from .p14 import conv

ID = "P28"
LEVEL = "exploration"
RULE = (
    "Random fitted problems (ragged and repeated dates, re-appearing groups, every variability, auxiliary and fixed parameters, all units) are drawn with every figure of "
    "fit.plot and with polarplot on a non-interactive canvas, with random options (units, components, selections, months and years, sliders moved, "
    "buttons pressed).  Oracle: the data of the artists found in the figures are compared as point sets with the dataset, a row-by-row reference model and the recorded "
    "steps of the optimiser; a fingerprint of the fit is taken before and after.  Distinct by problem, figure and options."
)
MIN_EVENTS = {"scatter": 8, "timeseries": 8, "errors": 8, "results": 8, "single": 8, "sig0analysis": 8, "analyzemodel": 6, "intermediate": 6, "residuals": 6,
              "polarplot": 10, "hemreflect": 6, "slider-moves": 20, "unchanged": 60, "points": 2000, "out-of-order": 4}

NAMES = ("tot", "surf", "vol", "inter")


def plt():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as p

    return p


def num(x):
    """axis values -> floats (dates as days)"""
    from matplotlib.dates import date2num

    x = np.ma.asarray(x)
    if x.dtype.kind in "Mm" or x.dtype == object:
        v = np.array([date2num(pd.Timestamp(i)) if not np.ma.is_masked(i) else np.nan for i in np.ma.getdata(x).ravel()], float)
        return np.where(np.ma.getmaskarray(x).ravel(), np.nan, v)
    return np.ma.filled(x.astype(float), np.nan).ravel()


def pts(x, y):
    a = np.column_stack([num(x), num(y)])
    return a[np.isfinite(a).all(axis=1)]


def line_pts(lines):
    p = [pts(*_broad(l.get_xdata(orig=True), l.get_ydata(orig=True))) for l in lines]
    return np.concatenate(p) if p else np.zeros((0, 2))


def _broad(x, y):
    return (x, y) if np.size(x) == np.size(y) else np.broadcast_arrays(x, y)


def match(mon, got, want, key, msg="", unique=False, rtol=1e-7, atol=1e-9):
    """the two sets of points agree (order is irrelevant; unique: neither are repetitions)"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    want = want[np.isfinite(want).all(axis=1)]
    mon.event("points", len(want))

    def srt(a):
        if not len(a):
            return a.reshape(0, 2)
        r = np.column_stack([np.array([float(f"{v:.8g}") for v in a[:, k]]) for k in (0, 1)])
        o = np.lexsort((r[:, 1], r[:, 0]))
        a, r = a[o], r[o]
        if unique:
            keep = np.ones(len(a), bool)
            for i in range(1, len(a)):
                keep[i] = not np.allclose(a[i], a[i - 1], rtol=1e-7, atol=1e-10)
            a = a[keep]
        return a

    g, w = srt(got), srt(want)
    if len(g) != len(w):
        return mon.check(False, key, f"{msg}: {len(g)} points are drawn, expected {len(w)}; drawn {g[:4].tolist()} expected {w[:4].tolist()}")
    # nearly equal x-values may be sorted differently: match greedily within the tolerance
    if len(g) and not np.all(np.abs(g - w) <= atol + rtol * np.abs(w)):
        free = list(range(len(g)))
        for row in w:
            hit = [i for i in free if np.all(np.abs(g[i] - row) <= atol + rtol * np.abs(row))]
            if not hit:
                d = min(free, key=lambda i: np.abs(g[i] - row).sum())
                return mon.check(False, key, f"{msg}: the point {row.tolist()} is not drawn (closest: {g[d].tolist()})")
            free.remove(hit[0])
    mon.event("checks")
    return True


class Case:
    def __init__(self, rng, mon, inter=0.2, real=False, need_groups=None, **kw):
        for _ in range(20):
            p = F.gen_problem(rng, int_Q=bool(rng.random() < inter), n_dates=int(rng.integers(3, 9)), nmax=2, interp=0.15, **kw)
            if p is None:
                continue
            F.clean_for_interp(p)
            break
        else:
            raise Skip("no problem")
        self.p = p
        if p["dB"]:
            pass
        mon.note(**F.note(p))
        self.fit = fit = F.make(p)
        st = int(rng.integers(2**31))
        self.steps, self.jacs = [], []
        n = int(rng.integers(2, 6))
        self.inter_res = bool(real)

        def choose(c):
            r = np.random.default_rng(st)
            for k in range(n):
                x = F.draw(r, c)
                self.steps.append((x, np.array(c.fun(x.copy()), float)))
                if k % 2 == 0:
                    j = c.jac(x.copy())
                    self.jacs.append(np.asarray(j.toarray() if hasattr(j, "toarray") else j))
            return x

        with hooks.capture(choose=choose):
            fit.performfit(intermediate_results=self.inter_res)
        self.ref = ref = F.Ref(p, fit.dataset)
        self.res = {k: np.asarray(v, float).ravel() for k, v in fit.res_dict.items()}
        self.model = ref.model(self.res)
        self.inc = fit.dataset["inc"].values
        self.sig = fit.dataset["sig"].values
        self.t = num(fit.dataset.index.to_numpy())
        self.joint = np.array(ref.joint)
        self.groups = list(dict.fromkeys(ref.joint))
        if np.any(np.diff(self.joint) < 0):
            mon.event("out-of-order")
        self.before = p15.fingerprint(fit)

    def units(self, v, sig0, dB):
        """values in the units of the fit -> requested units"""
        p = self.p
        lin = 10 ** (v / 10) if p["dB"] else v
        inc = self.inc if lin.ndim == 1 else self.inc[:, None]
        if p["sig0"]:
            lin = lin / (4 * np.pi * np.cos(inc))
        return conv(lin, inc, sig0, dB)

    def meandate(self, rows):
        idx = self.fit.dataset.index.asi8[rows]
        return num(pd.DatetimeIndex([pd.Timestamp(int(idx[0] + np.mean(idx - idx[0])))]).to_numpy())[0]

    def done(self, mon, msg):
        mon.event("unchanged")
        p15.same(mon, self.before, p15.fingerprint(self.fit), "changed", msg)
        plt().close("all")


def start(rng, mon, name, **kw):
    c = Case(rng, mon, **kw)
    mon.distinct(name, c.p["defdict"], len(c.inc), c.p["sig0"], c.p["dB"])
    plt().close("all")
    mon.event(name)
    return c


def scatter(rng, mon, tier):
    c = start(rng, mon, "scatter")
    tot = c.model[:, 0]
    if not np.isfinite(tot).all():
        raise Skip("not finite")
    reg = bool(rng.random() < 0.7) and len(tot) > 2
    f = c.fit.plot.scatter(regression=reg)
    ax = f.axes[0]
    off = np.concatenate([np.asarray(k.get_offsets()) for k in ax.collections])
    match(mon, off, np.column_stack([tot, c.sig]), "scatter-points")
    lo, hi = min(tot.min(), c.sig.min()), max(tot.max(), c.sig.max())
    diag = [l for l in ax.lines if len(l.get_xdata()) == 2 and np.allclose(l.get_xdata(), l.get_ydata(), rtol=1e-12, atol=0) and np.allclose(sorted(l.get_xdata()), [lo, hi], rtol=1e-7)]
    mon.check(diag, "scatter-diagonal", "the 1:1 line does not span the data")
    if reg and np.ptp(tot) > 1e-9:
        k, d = np.polyfit(tot, c.sig, 1)
        x = np.sort(c.sig)
        lines = [l for l in ax.lines if not any(l is q for q in diag)]
        match(mon, line_pts(lines), np.column_stack([x, d + k * x]), "scatter-regression", rtol=1e-5, atol=1e-7)
        r2 = np.corrcoef(tot, c.sig)[0, 1] ** 2
        txt = [t.get_text() for t in ax.texts if "R^2" in t.get_text()]
        mon.check(len(txt) == 1 and abs(float(txt[0].split("=")[1]) - r2) < 0.0051, "scatter-r2", f"{txt} expected R2 = {r2:.4f}")
    c.done(mon, "scatter")


def timeseries(rng, mon, tier):
    c = start(rng, mon, "timeseries")
    dB, sig0 = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    show = {k: bool(rng.random() < 0.75) for k in ("tot", "surf", "vol", "int", "orig")}
    printinc = bool(rng.random() < 0.6)
    keep = np.ones(len(c.inc), bool)
    kw = {}
    idx = c.fit.dataset.index
    if rng.random() < 0.4:
        kw["months"] = sorted({int(m) for m in rng.choice(idx.month.unique(), 2)})
        keep &= np.isin(idx.month, kw["months"])
    if rng.random() < 0.3:
        kw["years"] = [int(idx.year[rng.integers(len(idx))])]
        keep &= np.isin(idx.year, kw["years"])
    if not keep.any():
        raise Skip("nothing selected")
    fitted = list(c.res)
    if rng.random() < 0.5:
        kw["params"] = [str(k) for k in rng.permutation(fitted)[: int(rng.integers(1, len(fitted) + 1))]]
    mon.note(options=dict(kw, dB=dB, sig0=sig0, show=show, printinc=printinc))
    if printinc and not any(show[k] for k in ("tot", "surf", "vol", "orig")) and not (show["int"] and c.p["int_Q"]):
        raise Skip("empty")
    f = c.fit.plot.fit_timeseries(dB=dB, sig0=sig0, printtot=show["tot"], printsurf=show["surf"], printvol=show["vol"], printint=show["int"], printorig=show["orig"],
                                  printinc=printinc, **kw)
    vals = c.units(c.model, sig0, dB)
    want = {}
    for i, n in enumerate(NAMES[: vals.shape[1]]):
        if show[{"inter": "int"}.get(n, n)]:
            want[n] = vals[:, i]
    if show["orig"]:
        want["data"] = c.units(c.sig, sig0, dB)
    ax = f.axes[0]
    got = {}
    for l in ax.lines:
        lab = l.get_label()
        got.setdefault("data" if "dataset" in lab else lab, []).append(l)
    mon.equal(sorted(got), sorted(want), "timeseries-contents", "contributions")
    for n, v in want.items():
        match(mon, line_pts(got.get(n, [])), np.column_stack([c.t[keep], v[keep]]), "timeseries-values", n)
    if printinc:
        allp = np.concatenate([np.column_stack([np.rad2deg(c.inc[keep]), v[keep]]) for v in want.values()])
        sc = [k for k in f.axes[1].collections if k.__class__.__name__ == "PathCollection"]
        match(mon, np.concatenate([pts(*np.ma.asarray(k.get_offsets()).T) for k in sc]), allp, "timeseries-incidence")
    if "params" in kw:
        row = c.ref.row_values(c.res)
        pax = f.axes[-1]
        lines = {l.get_label(): l for l in pax.lines}
        mon.equal(sorted(lines), sorted(kw["params"]), "timeseries-parameters")
        for k in kw["params"]:
            if _unique_per_date(c, k):
                d = {}
                for i in np.where(keep)[0]:
                    d[c.t[i]] = row[i][k]
                match(mon, line_pts([lines[k]]), np.array([[a, b] for a, b in d.items()]), "timeseries-parameter-values", k)
    c.done(mon, "fit_timeseries")


def _unique_per_date(c, k):
    return pd.Series(c.ref.codes[k], index=c.fit.dataset.index).groupby(level=0).nunique().max() == 1


def errors(rng, mon, tier):
    c = start(rng, mon, "errors")
    rel = bool(rng.random() < 0.5)
    res = np.abs(c.model[:, 0] - c.sig)
    if rel:
        if np.ptp(np.sign(c.model[:, 0])):
            raise Skip("relative residuals with both signs")
        res = res / np.abs(c.model[:, 0])
    sel = list(range(len(c.groups)))
    kw = {}
    if rng.random() < 0.4:
        sel = sorted(int(i) for i in rng.permutation(len(c.groups))[: int(rng.integers(1, len(c.groups) + 1))])
        kw["result_selection"] = sel
    f = c.fit.plot.fit_errors(relative=rel, **kw)
    ax2, ax = sorted(f.axes, key=lambda a: -a.get_position().y0)
    rows = [np.where(c.joint == c.groups[i])[0] for i in sel]
    md = [c.meandate(r) for r in rows]
    dots = np.array([[m, v] for m, r in zip(md, rows) for v in res[r]])
    means = np.array([[m, np.mean(res[r])] for m, r in zip(md, rows)])
    p = [np.abs(line_pts([l])) for l in ax.lines]
    allp = np.concatenate(p)
    avg = np.column_stack([md, np.full(len(md), means[:, 1].mean())])
    match(mon, allp, np.concatenate([dots, means, avg]), "errors-per-measurement", rtol=1e-6)
    inc = np.rad2deg(c.inc)
    r = np.concatenate(rows)
    d2 = np.column_stack([inc[r], res[r]])  # unique incidence angles: the mean per angle is the value itself
    match(mon, np.abs(line_pts(ax2.lines)), d2, "errors-per-incidence", unique=True, rtol=1e-6)
    c.done(mon, "fit_errors")


def results(rng, mon, tier):
    c = start(rng, mon, "results")
    sel = list(range(len(c.groups)))
    kw = dict(startvals=bool(rng.random() < 0.3), legend=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        sel = sorted(int(i) for i in rng.permutation(len(c.groups))[: int(rng.integers(1, len(c.groups) + 1))])
        kw["result_selection"] = sel
    mon.note(options=kw)
    f = c.fit.plot.results(**kw)
    ax, ax2 = sorted(f.axes, key=lambda a: -a.get_position().y0)[:2]
    rows = np.concatenate([np.where(c.joint == c.groups[i])[0] for i in sel])
    data = [l for l in ax.lines if l.get_marker() == "."]
    startl = [l for l in ax.lines if l.get_color() == "k" and l.get_linestyle() == "--"]
    curves = [l for l in ax.lines if l not in data and l not in startl]
    mon.equal((len(data), len(curves)), (len(sel), len(sel)), "results-lines")
    match(mon, line_pts(data), np.column_stack([c.inc[rows], c.sig[rows]]), "results-data", unique=True)
    match(mon, line_pts(curves), np.column_stack([c.inc[rows], c.model[rows, 0]]), "results-model", unique=True)
    if kw["startvals"]:
        st = {k: np.full(c.ref.ngroups[k], float(c.p["defdict"][k][1])) for k in c.res}
        m0 = c.ref.model(st)[:, 0]
        match(mon, line_pts(startl), np.column_stack([c.inc[rows], m0[rows]]), "results-start", unique=True)
    row = c.ref.row_values(c.res)
    lines = {l.get_label(): l for l in ax2.lines}
    mon.equal(sorted(lines), sorted(c.res), "results-parameters")
    for k in c.res:
        if _unique_per_date(c, k) and k in lines:
            d = {c.t[i]: row[i][k] for i in range(len(row))}
            match(mon, line_pts([lines[k]]), np.array([[a, b] for a, b in d.items()]), "results-parameter-values", k)
    c.done(mon, "results")


def single(rng, mon, tier):
    c = start(rng, mon, "single")
    todB = bool(rng.random() < 0.4) and not c.p["dB"]
    n = len(c.groups)
    sel = sorted(int(i) for i in rng.permutation(n)[: int(rng.integers(1, min(n, 4) + 1))])
    if rng.random() < 0.5:
        kw = dict(fit_numbers=sel)
    else:  # the group (mean date) that is closest to the given date
        md = np.array([c.meandate(np.where(c.joint == g)[0]) for g in c.groups])
        if len(set(np.round(md, 6))) < n:
            raise Skip("groups with the same mean date")
        dt = [pd.Timestamp(c.fit.meandatetimes_group[i]) for i in sel]
        kw = dict(fit_indexes=dt if rng.random() < 0.5 else [x.to_datetime64() for x in dt])
        mon.event("by-date")
    mon.note(options=dict(kw, dB=todB))
    f = c.fit.plot.single_results(hexbinQ=bool(rng.random() < 0.3), convertTodB=todB, **kw)
    ax = f.axes[0]
    u = (lambda v: 10 * np.log10(v)) if todB else (lambda v: v)
    deg = np.rad2deg(c.inc)
    rows = np.concatenate([np.where(c.joint == c.groups[i])[0] for i in sel])
    data = [l for l in ax.lines if l.get_marker() == "." and l.get_alpha() != 0]
    curves = [l for l in ax.lines if l.get_marker() == "x"]
    mon.equal((len(data), len(curves)), (len(sel), len(sel)), "single-lines")
    match(mon, line_pts(data), np.column_stack([deg[rows], u(c.sig[rows])]), "single-data")
    match(mon, line_pts(curves), np.column_stack([deg[rows], u(c.model[rows, 0])]), "single-model")
    for i, l, d in zip(sel, curves, data):
        r = np.where(c.joint == c.groups[i])[0]
        match(mon, line_pts([l]), np.column_stack([deg[r], u(c.model[r, 0])]), "single-model-of-group")
        match(mon, line_pts([d]), np.column_stack([deg[r], u(c.sig[r])]), "single-data-of-group")
        mon.check(np.all(np.diff(num(l.get_xdata())) >= 0), "single-order", "the curve is not sorted by incidence angle")
    c.done(mon, "single_results")


def aux_values(c, rows):
    """average of the auxiliary values of the rows"""
    return {k: float(np.mean(c.fit.dataset[k].values[rows])) for k, kd in c.p["kinds"].items() if kd == "aux"}


def sig0analysis(rng, mon, tier):
    c = start(rng, mon, "sig0analysis")
    if not np.all(np.isfinite(c.model)):
        # (a vanishing component is -inf in dB and can not be drawn)
        raise Skip("vanishing component")
    use = str(rng.choice(["groups", "dataset"]))
    if c.p["bsf_arr"] if "bsf_arr" in c.p else False:
        raise Skip("")
    dB, sig0 = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    full = bool(rng.random() < 0.7)
    comp1, comp2 = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    two = bool(rng.random() < 0.4)
    if use == "groups":
        rws = [np.where(c.joint == g)[0] for g in c.groups]
        rws.sort(key=lambda r: c.meandate(r))
        md = [c.meandate(r) for r in rws]
        if len(set(np.round(md, 6))) < len(md):
            raise Skip("groups with the same mean date have no order")
        x = md
    else:
        rws = [np.where(c.t == d)[0] for d in sorted(set(c.t))]
        x = sorted(set(c.t))
    n = len(rws)
    r1, r2 = int(rng.integers(1, min(3, n) + 1)), int(rng.integers(1, min(3, n) + 1))
    kw = dict(use_index=use, dB=dB, sig0=sig0, printfullt_0=full, printcomponents1=comp1, printcomponents2=comp2, range1=r1, range2=r2 if two else None,
              printfulldata=bool(rng.random() < 0.5))
    mon.note(options=kw)
    out = c.fit.plot.printsig0analysis(**kw)
    f, sliders = out[0], out[1:]
    mon.equal(len(sliders), 1 + two, "sig0analysis-sliders")
    vals, data = c.units(c.model, sig0, dB), c.units(c.sig, sig0, dB)
    lin = c.units(c.model, False, False)
    deg = np.rad2deg(c.inc)
    top = sorted(f.axes, key=lambda a: (-round(a.get_position().y1, 3), a.get_position().x0))
    ax, ax1 = top[0], top[1]
    row = c.ref.row_values(c.res)
    pos = [0] * len(sliders)

    def frac(a, b, whole=False):
        # (negative values of a truncated series and vanishing observed components have no representation in dB)
        ok = (a >= 0 if whole else a > 0) & (b > 0)
        return np.where(ok, a / np.where(ok, b, 1), np.nan) if dB else a / b

    def want(i, comp):
        """points of the upper left and the upper right axes for the groups of a slider"""
        a, b = [], []
        for d in range(pos[i], min(pos[i] + (r1, r2)[i], n)):
            r = rws[d]
            a += [np.column_stack([deg[r], vals[r, 0]]), np.column_stack([deg[r], data[r]])]
            for k in range(1, vals.shape[1]):
                if comp:
                    a.append(np.column_stack([deg[r], vals[r, k]]))
                b.append(np.column_stack([deg[r], frac(lin[r, k], lin[r, 0])]))
            if full:
                inc = np.deg2rad(np.arange(1, 89))
                if use == "dataset":
                    # one parameter set per date (first observation); auxiliary values of the date
                    pr = dict(row[r[0]])
                    pr.update(aux_values(c, r))
                else:
                    pr = {k: (float(c.res[k][c.ref.codes[k][r[0]]]) if k in c.res else row[r[0]][k]) for k in row[r[0]]}
                    pr.update(aux_values(c, r))
                m = np.array([F.components(c.p, pr, t) for t in inc])
                for k in range(m.shape[1]):
                    if k == 0 or comp:
                        a.append(np.column_stack([np.rad2deg(inc), conv(m[:, k], inc, sig0, dB)]))
                    if k:
                        b.append(np.column_stack([np.rad2deg(inc), frac(m[:, k], m[:, 0], True)]))
        return np.concatenate(a), np.concatenate(b)

    ambiguous = full and use == "dataset" and not all(_unique_per_date(c, k) for k in c.res)
    bg = [l for l in ax.lines if l.get_marker() == "." and l.get_markersize() == 0.5]
    if kw["printfulldata"]:
        match(mon, line_pts(bg), np.column_stack([deg, data]), "sig0analysis-background")

    def look(msg):
        A, B = zip(*[want(i, (comp1, comp2)[i]) for i in range(len(sliders))])
        if ambiguous:
            return
        match(mon, line_pts([l for l in ax.lines if l not in bg]), np.concatenate(A), "sig0analysis-curves", msg, rtol=1e-6)
        match(mon, line_pts(ax1.lines), np.concatenate(B), "sig0analysis-fractions", msg, rtol=1e-6)

    if c.p["int_Q"] or c.model.shape[1] == 3:
        look("initial")
    for k in range(4):
        i = int(rng.integers(len(sliders)))
        span = (r1, r2)[i]
        pos[i] = int(rng.integers(0, n - span + 1))
        sliders[i].set_val(pos[i])
        mon.event("slider-moves")
        look(f"slider {i} at {pos[i]}")
        lab = [t.get_text() for t in sliders[i].ax.texts if ":" in t.get_text()]
        first = pd.Timestamp(_todate(x[pos[i]])).round("s")
        mon.check(any(s.startswith(first.strftime("%d. %b %Y %H:%M")) or s.startswith((first - pd.Timedelta("1min")).strftime("%d. %b %Y %H:%M")) for s in lab),
                  "sig0analysis-label", f"label {lab} expected {first}")
    c.done(mon, "printsig0analysis")


def _todate(d):
    from matplotlib.dates import num2date

    return num2date(d).replace(tzinfo=None)


def analyzemodel(rng, mon, tier):
    c = start(rng, mon, "analyzemodel", inter=0.1)
    p = c.p
    dB, sig0 = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    inc = np.deg2rad(np.sort(rng.uniform(5, 80, 7)))
    f, sliders, boxes = c.fit.plot.analyzemodel(dB=dB, sig0=sig0, inc=inc)
    ax = f.axes[0]
    vals = {}
    for k, kd in p["kinds"].items():
        if kd == "fit":
            vals[k] = float(np.mean(c.res[k]))
        elif kd == "aux":
            vals[k] = float(c.fit.dataset[k].mean())
        else:
            vals[k] = float(p["defdict"][k][1])
    lab = {"total contribution": 0, "surface contribution": 1, "volume contribution": 2, "interaction contribution": 3}

    def look(msg):
        m = np.array([F.components(p, vals, t) for t in inc])
        got = {l.get_label(): l for l in ax.lines if l.get_label() in lab}
        mon.equal(len(got), m.shape[1], "analyzemodel-contents", msg)
        for n, l in got.items():
            match(mon, line_pts([l]), np.column_stack([inc, conv(m[:, lab[n]], inc, sig0, dB)]), "analyzemodel-curve", f"{msg} {n}", rtol=1e-6)

    look("initial")
    dots = [l for l in ax.lines if l.get_label() not in lab]
    match(mon, line_pts(dots), np.column_stack([c.inc, c.units(c.sig, sig0, dB)]), "analyzemodel-data")
    mon.equal(sorted(sliders), sorted(k for k, kd in p["kinds"].items() if kd != "fixed"), "analyzemodel-sliders")
    for k, s in sliders.items():
        mon.close(s.val, vals[k], "analyzemodel-slider-value", rtol=1e-9)
    b = boxes["buttons"]
    for step in range(4):
        k = str(rng.choice(sorted(sliders)))
        v = float(rng.uniform(sliders[k].valmin, sliders[k].valmax))
        sliders[k].set_val(v)
        vals[k] = float(sliders[k].val)
        mon.event("slider-moves")
        look(f"{k} = {v:.4f}")
        if rng.random() < 0.3:
            b.set_active(int(rng.integers(len(b.labels))))
            look("button")
    c.done(mon, "analyzemodel")


def intermediate(rng, mon, tier):
    c = start(rng, mon, "intermediate", real=True)
    f = c.fit.plot.intermediate_results()
    lines = [l for a in f.axes for l in a.lines]
    split = [c.ref.split(x, F.order_of(c.fit, c.p)) for x, _ in c.steps]
    n = len(c.steps)
    it = np.arange(n)
    for k in c.res:
        ls = [l for l in lines if l.get_label() in (k, f"{k} (mean)")]
        w = np.column_stack([it, [np.mean(s[k]) for s in split]])
        mon.check(len(ls) == 2, "intermediate-parameter", f"{len(ls)} lines for {k}")
        cand = [l for l in ls if len(l.get_xdata()) == n]
        ok = [l for l in cand if np.allclose(line_pts([l]), w, rtol=1e-9)]
        mon.check(ok, "intermediate-parameter-values", f"{k}: no line shows the estimates {w[:, 1].tolist()}, lines: {[line_pts([l]).tolist() for l in cand]}")
    ab = np.array([np.mean(r) for _, r in c.steps])
    el = [l for l in lines if l.get_label() == "absolute error"]
    match(mon, line_pts(el), np.column_stack([it, np.abs(ab)]), "intermediate-error", rtol=1e-9)
    # groups of dynamic parameters: one line per iteration
    md = c.fit.meandatetimes
    tsm = [k for k in c.res if c.ref.ngroups[k] > 1]
    want = [[num(np.array([md[k][g]], dtype="datetime64[ns]"))[0], s[k][g]] for k in tsm for s in split for g in range(c.ref.ngroups[k])]
    top = max(f.axes, key=lambda a: (round(a.get_position().y0, 2), a.get_position().width))
    if want:
        match(mon, line_pts(top.lines), np.array(want), "intermediate-series", rtol=1e-8)
    c.done(mon, "intermediate_results")


def residuals(rng, mon, tier):
    c = start(rng, mon, "residuals", real=True)
    err = str(rng.choice(["abserr", "relerr"]))
    w = c.ref.weights()
    sl = slice(int(rng.integers(0, len(c.steps))), None)
    mode = str(rng.choice(["dataset", "groups", "inc", "freq"]))
    # residuals per row of the dataset, from the reference model
    per = []
    for x, _ in c.steps[sl]:
        e = w * (c.ref.model(c.ref.split(x, F.order_of(c.fit, c.p)))[:, 0] - c.sig)
        per.append(e / c.sig if err == "relerr" else e)
    if mode == "dataset":
        rws = [np.where(c.t == d)[0] for d in sorted(set(c.t))]
        grp = "dataset"
    elif mode == "groups":
        rws = sorted((np.where(c.joint == g)[0] for g in c.groups), key=lambda r: c.meandate(r))
        md = [c.meandate(r) for r in rws]
        if len(set(np.round(md, 6))) < len(md):
            raise Skip("groups with the same mean date")
        grp = "groups"
    elif mode == "freq":
        grp = "MS"
        key = c.fit.dataset.index.year * 12 + c.fit.dataset.index.month
        rws = [np.where(key == k)[0] for k in range(key.min(), key.max() + 1)]
    else:
        edges = np.linspace(c.inc.min() - 0.01, c.inc.max() + 0.01, 4)
        rws = [np.where((c.inc > a) & (c.inc <= b))[0] for a, b in zip(edges, edges[1:])]
        grp = ("inc", edges)
    mon.note(grp=grp, err=err, iter_slice=sl)
    if mode == "groups" and len(rws) == 1 or len(per) == 0:
        raise Skip("")
    f = c.fit.plot.intermediate_residuals(grp=grp, err=err, plottype="2D", iter_slice=sl)
    im = [i for a in f.axes for i in a.images][0]
    got = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    want = np.abs([[np.mean(e[r]) if len(r) else np.nan for e in per] for r in rws])
    mon.event("points", want.size)
    if mode in ("groups", "dataset") and got.shape == want.shape:
        # the rows are identified by their labels
        fmt = im.axes.yaxis.get_major_formatter()
        labs = [fmt(i) for i in range(len(got))]
        wl = [_secs(c.meandate(r)) for r in rws]
        if len(set(wl)) == len(wl):
            pos = [int(np.argmin([abs(pd.to_datetime(x, format="%d.%m.%y %H:%M:%S") - d).total_seconds() for x in labs])) for d in wl]
            mon.check(sorted(pos) == list(range(len(wl))), "residuals-labels", f"labels {labs} for {wl}")
            got = got[pos]
    mon.close(got, want, "residuals-image", rtol=1e-7, atol=1e-10, msg=f"{mode} {err}")
    c.done(mon, "intermediate_residuals")


def _secs(d):
    return pd.Timestamp(_todate(d)).round("s")


def polarplot(rng, mon, tier):
    from rt1 import rtplots
    p = plt()
    p.close("all")
    kind = str(rng.choice(["V", "SRF"]))
    spec = M.gen_spec(rng, kind, 4, 0.25, True, 0.5)
    X = M.build(spec, **(dict(tau=0.3, omega=0.2) if kind == "V" else dict(NormBRDF=0.3)))
    inc = [float(v) for v in np.round(rng.uniform(5, 80, int(rng.integers(1, 4))), 2)]
    aprox = bool(rng.random() < 0.6)
    own = bool(rng.random() < 0.4)
    kw = dict(inc=inc, aprox=aprox, legend=bool(rng.random() < 0.5))
    mon.note(spec=spec, own=own, **kw)
    mon.distinct(spec, inc, aprox, own)
    if own:
        fig = p.figure()
        ax = fig.add_subplot(111, projection="polar")
        kw["polarax"] = ax
    meth = bool(rng.random() < 0.5)
    f = X.polarplot(**kw) if meth else rtplots.polarplot(X, **kw)
    mon.event("polarplot")
    ax = f.axes[0]
    full = [l for l in ax.lines if l.get_linestyle() == "-"]
    dash = [l for l in ax.lines if l.get_linestyle() == "--"]
    mon.equal((len(full), len(dash)), (len(inc), len(inc) * aprox), "polarplot-lines")
    for ti, l in zip(np.deg2rad(inc), full):
        th = np.asarray(l.get_xdata(), float)
        mon.event("points", len(th))
        mon.close(l.get_ydata(), M.value(spec, np.full_like(th, ti), th, np.zeros_like(th), np.zeros_like(th)), "polarplot-function", rtol=1e-9)
    for ti, l in zip(np.deg2rad(inc), dash):
        th = np.asarray(l.get_xdata(), float)
        mon.event("points", len(th))
        z = np.zeros_like(th)
        mon.close(np.broadcast_to(l.get_ydata(), th.shape), M.series(spec, np.full_like(th, ti), th, z, z), "polarplot-approximation", rtol=1e-7, atol=1e-9)
    p.close("all")


def hemreflect(rng, mon, tier):
    """the plotted hemispherical reflectance (the returned values are decided by P05)"""
    from rt1.rtplots import hemreflect as hr

    p = plt()
    p.close("all")
    spec = M.gen_spec(rng, "SRF", 3, 0.3, tmax=0.5)
    raw, pd_ = M.symbolize(spec, rng, ["ta", "tb", "wa", "wb"], 0.4)
    if any(s["type"] == "CosineLobe" and s["i"] == 0 for _, s in M.components(spec)):
        raise Skip("discontinuous function: quadrature is not accurate")
    norm = M.r(rng.uniform(0.1, 1))
    lo, hi, step = float(rng.integers(0, 30)), float(rng.integers(50, 90)), float(rng.integers(7, 25))
    points = bool(rng.random() < 0.5)
    mon.note(spec=raw, pd=pd_, norm=norm, grid=(lo, hi, step), points=points)
    mon.distinct(raw, pd_, norm, lo, hi, step)
    X = M.build(raw, NormBRDF=norm)
    kw = dict(t_0_step=step, t_0_min=lo, t_0_max=hi, simps_N=201, showpoints=points, param_dict=pd_)
    f = X.hemreflect(**kw) if rng.random() < 0.5 else hr(SRF=X, **kw)
    ax = f.axes[0]
    grid = np.arange(lo, hi, step)
    T, P, w = _sphere()
    want = np.array([norm * np.sum(w * np.cos(T) * M.value(spec, np.deg2rad(g), T, 0.0, P)) for g in grid])
    mon.equal(len(ax.lines), 1 + points, "hemreflect-lines")
    for l in ax.lines:
        mon.close(np.asarray(l.get_xdata(), float), grid, "hemreflect-angles", rtol=1e-12)
        mon.close(np.asarray(l.get_ydata(), float), want, "hemreflect-values", rtol=1e-3, atol=1e-5)
        mon.event("points", len(grid))
    mon.event("hemreflect")
    p.close("all")


def _sphere(n=140):
    from .p05 import _sphere as sp

    return sp(n, hemi=True)


SCENARIOS = [
    S("scatter", scatter, 14, 250),
    S("timeseries", timeseries, 18, 400),
    S("errors", errors, 14, 250),
    S("results", results, 16, 300),
    S("single", single, 16, 300),
    S("sig0analysis", sig0analysis, 20, 400),
    S("analyzemodel", analyzemodel, 12, 200),
    S("intermediate", intermediate, 12, 200),
    S("residuals", residuals, 16, 300),
    S("polarplot", polarplot, 24, 400),
    S("hemreflect", hemreflect, 12, 150),
]
