"""P25: helpers that split, chunk, group, pad and match series are exact."""
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from .core import S

ID = "P25"
LEVEL = "exploration"
RULE = (
    "Random and edge-case inputs (empty, single, ragged, repeated, unsorted, generators, arrays, series, timestamps) for every public helper of "
    "general_functions.  Oracle: independent direct computation plus the recombination law of each helper (concatenating pieces, undoing groups, unmasked "
    "values of padded arrays, complement of the reported gaps).  Distinct by input."
)
MIN_EVENTS = {"rectangularize": 60, "groupby": 60, "split": 60, "chunk": 60, "pairwise": 60, "mean": 60, "missing": 60, "interpolate": 60, "hms": 60, "empty": 40}


def H():
    from rt1 import general_functions as g

    return g


def ilist(rng, nmax=14, lo=0, hi=9):
    n = int(rng.choice([0, 1, 2, 3])) if rng.random() < 0.3 else int(rng.integers(0, nmax))
    return [int(x) for x in rng.integers(lo, hi, n)]


def container(rng, x):
    """the same values in another kind of sequence"""
    k = rng.integers(6)
    if k == 0:
        return list(x)
    if k == 1:
        return tuple(x)
    if k == 2:
        return np.array(x)
    if k == 3:
        return pd.Series(x, dtype=None if len(x) else float)
    if k == 4:
        return dict(enumerate(x)).values()
    return range(len(x)) if list(x) == list(range(len(x))) else list(x)


def rectangularize(rng, mon, tier):
    g = H()
    for _ in range(6):
        n = int(rng.integers(1, 8))
        kind = int(rng.integers(4))
        rows = []
        for _i in range(n):
            m = int(rng.integers(1, 7)) if rng.random() < 0.8 else 1
            v = rng.normal(size=m) if kind == 0 else rng.integers(-5, 50, m)
            if kind == 2:
                v = pd.Timestamp("2020-01-01").to_datetime64() + v.astype("m8[h]")
            elif kind == 3:
                v = v % 2 == 0
            rows.append(np.array(v))
        maxlen = max(map(len, rows))
        dim = None if rng.random() < 0.7 else maxlen + int(rng.integers(0, 3))
        inp = [list(r) if rng.random() < 0.4 and kind != 2 else r for r in rows]
        inp = inp if rng.random() < 0.5 else dict(enumerate(inp)).values()
        mon.event("rectangularize")
        mon.distinct([r.tolist() for r in rows], dim)
        mon.note(rows=[r.tolist() for r in rows], dim=dim)
        N = dim or maxlen
        want = np.array([[r[min(j, len(r) - 1)] for j in range(N)] for r in rows])
        wmask = np.array([[j >= len(r) for j in range(N)] for r in rows])
        a = g.rectangularize(inp, dim=dim)
        mon.check(a.shape == want.shape and a.dtype == want.dtype and np.array_equal(a, want), "rectangularize", f"{a!r} expected {want!r}")
        b, mask = g.rectangularize(inp, return_mask=True, dim=dim)
        mon.check(np.array_equal(b, want), "rectangularize", "values with return_mask")
        mon.check(mask.dtype == bool and np.array_equal(mask, wmask), "rectangularize-mask", f"{mask.astype(int).tolist()} for lengths {[len(r) for r in rows]}")
        c = g.rectangularize(inp, return_masked=True, dim=dim)
        mon.check(np.ma.isMaskedArray(c) and np.array_equal(np.ma.getmaskarray(c), wmask) and np.array_equal(c.data, want), "rectangularize-masked")
        mon.check(all(list(x[~m]) == list(r) for x, m, r in zip(b, mask, rows)), "rectangularize-recombine")
        if kind == 1:
            d = g.rectangularize(inp, dtype=float, dim=dim)
            mon.check(d.dtype == float and np.array_equal(d, want.astype(float)), "rectangularize-dtype")


def groupby(rng, mon, tier):
    g = H()
    for _ in range(6):
        x = ilist(rng, 20, 0, 6)
        mon.event("groupby")
        mon.event("empty", int(not x))
        mon.distinct(x)
        kind = int(rng.integers(4))
        keyf = [lambda v: v, lambda v: v % 3, lambda v: str(v), lambda v: (v > 2, v % 2)][kind]
        getf = (lambda v: v) if rng.random() < 0.5 else (lambda v: (v, v * 10))
        sort = bool(rng.random() < 0.5)
        src = container(rng, x) if rng.random() < 0.7 else (i for i in x)
        mon.note(x=x, kind=kind, sort=sort)
        kw = dict(sort=sort)
        if kind or rng.random() < 0.5:
            kw["key"] = keyf
        ident = getf(1) == 1
        if not ident:
            kw["get"] = getf
        d = g.groupby_unsorted(src, **kw)
        want = {}
        for v in x:
            want.setdefault(keyf(v), [])
            want[keyf(v)] = want[keyf(v)] + [getf(v)]
        mon.check(dict(d) == want, "groupby", f"{dict(d)} expected {want}")
        mon.equal(list(d), sorted(want) if sort else list(want), "groupby-order")
        # every element in exactly one group, order kept
        pos = {k: iter(v) for k, v in d.items()}
        mon.check([next(pos[keyf(v)]) for v in x] == [getf(v) for v in x], "groupby-recombine")
        d2 = g.groupby_unsorted(x)
        mon.check(dict(d2) == {k: [k] * x.count(k) for k in x} and list(d2) == list(dict.fromkeys(x)), "groupby-default")


def split(rng, mon, tier):
    g = H()
    for _ in range(6):
        x = ilist(rng, 18)
        k = int(rng.integers(0, 6))
        sizes = [int(s) for s in rng.integers(0, 6, k)]
        if rng.random() < 0.4:
            sizes.insert(int(rng.integers(0, len(sizes) + 1)), None)
        mon.event("split")
        mon.event("empty", int(not x))
        mon.distinct(x, sizes)
        mon.note(x=x, sizes=sizes)
        src = container(rng, x) if rng.random() < 0.6 else iter(x)
        got = [list(i) for i in g.split_into(src, sizes if rng.random() < 0.5 else iter(sizes))]
        want, pos = [], 0
        for s in sizes:
            if s is None:
                want.append(x[pos:])
                pos = len(x)
                break
            want.append(x[pos : pos + s])
            pos += s
        mon.equal(got, want, "split_into")
        mon.equal([i for p in got for i in p], x[: len(x) if None in sizes else sum(sizes)], "split_into-recombine")


def chunk(rng, mon, tier):
    g = H()
    for _ in range(6):
        x = ilist(rng, 30)
        n = int(rng.integers(1, 12)) if rng.random() < 0.8 else max(1, len(x))
        mon.event("chunk")
        mon.event("empty", int(not x))
        mon.distinct(x, n)
        mon.note(x=x, n=n)
        src = [list(x), tuple(x), np.array(x, dtype=int), pd.Index(x, dtype=int)][rng.integers(4)]
        got = [list(c) for c in g.chunkit(src, n)]
        mon.equal(got, [x[i : i + n] for i in range(0, len(x), n)], "chunkit", f"chunk size {n}")
        mon.check(all(len(c) == n for c in got[:-1]) and all(0 < len(c) <= n for c in got), "chunkit-size")
    big = list(range(10001))
    mon.equal([len(c) for c in g.chunkit(big)], [10000, 1], "chunkit-default")


def pairs(rng, mon, tier):
    g = H()
    for _ in range(6):
        x = ilist(rng, 12)
        n = int(rng.integers(1, 6))
        mon.event("pairwise")
        mon.event("empty", int(not x))
        mon.distinct(x, n)
        mon.note(x=x, n=n)
        src = container(rng, x) if rng.random() < 0.6 else (i for i in x)
        got = list(g.pairwise(src)) if n == 2 and rng.random() < 0.5 else list(g.pairwise(src, n))
        mon.equal([tuple(t) for t in got], [tuple(x[i : i + n]) for i in range(len(x) - n + 1)], "pairwise", f"pairs={n}")


def mean(rng, mon, tier):
    g = H()
    for _ in range(6):
        n = 1 if rng.random() < 0.2 else int(rng.integers(2, 40))
        span = float(10 ** rng.uniform(0, 9))
        base = pd.Timestamp("1990-01-01") + pd.Timedelta(seconds=float(rng.integers(0, 10**9)))
        secs = rng.uniform(0, span, n)
        if rng.random() < 0.5:
            secs.sort()
        if rng.random() < 0.3:
            secs = np.round(secs / 86400) * 86400
        ts = [base + pd.Timedelta(microseconds=int(s * 1e6)) for s in secs]
        mon.event("mean")
        mon.distinct([str(t) for t in ts])
        kind = int(rng.integers(4))
        src = [ts, pd.DatetimeIndex(ts), [t.to_pydatetime() for t in ts], tuple(ts)][kind]
        mon.note(dates=[str(t) for t in ts[:6]], kind=kind, n=n)
        ns = [t.value for t in ts]
        want = sum(ns) / n if n < 1 else sum(v - ns[0] for v in ns) // n + ns[0]
        got = pd.Timestamp(g.meandatetime(src)).value
        mon.check(abs(got - want) <= (2 * n + 2) * (1000 if kind == 2 else 1) + 1, "meandatetime", f"{pd.Timestamp(got)} expected {pd.Timestamp(want)}")
        mon.check(min(ns) - n * 1000 <= got <= max(ns) + n * 1000, "meandatetime-range")
        lab = rng.integers(0, 3, n)
        a = pd.Series(ts).groupby(lab).apply(lambda s: g.meandatetime(list(s)))
        for k in a.index:
            v = [t for t, q in zip(ns, lab) if q == k]
            w = sum(t - v[0] for t in v) // len(v) + v[0]
            mon.check(abs(pd.Timestamp(a[k]).value - w) <= 1000, "meandatetime", f"{a[k]} expected {pd.Timestamp(w)}")


def missing(rng, mon, tier):
    g = H()
    for _ in range(8):
        x = ilist(rng, 12, 0, int(rng.choice([3, 12, 60])))
        if rng.random() < 0.5:
            x = list(dict.fromkeys(x))
        mon.event("missing")
        mon.event("empty", int(not x))
        N = int(rng.integers(0, 25))
        mon.distinct(sorted(x), N)
        mon.note(x=x, N=N)
        src = [list(x), tuple(x), set(x), np.array(x, dtype=int), pd.Index(x, dtype="int64")][rng.integers(5)]
        want = list(itertools.islice((i for i in itertools.count() if i not in set(x)), N))
        got = [int(i) for i in (g.find_missing(src, N) if rng.random() < 0.5 else itertools.islice(g.find_missing(src), N))]
        mon.equal(got, want, "find_missing", f"list {sorted(x)}")
        # filling the gaps gives a list without gaps
        full = sorted(set(x) | set(got))
        if N > max(x, default=-1):
            mon.equal(full, list(range(len(full))), "find_missing-fills")
    mon.equal([int(i) for i in g.find_missing(N=3)], [0, 1, 2], "find_missing", "default arguments")


def interpolate(rng, mon, tier):
    g = H()
    for _ in range(6):
        n = int(rng.integers(2, 9))
        hrs = np.sort(rng.choice(np.arange(0, 5000), n, replace=False))
        idx = pd.Timestamp("2015-03-01") + pd.to_timedelta(hrs, unit="h")
        idx = pd.DatetimeIndex(idx)
        m = int(rng.integers(1, 12))
        q = rng.integers(int(hrs[0]) - 200, int(hrs[-1]) + 200, m) if rng.random() < 0.6 else rng.choice(hrs, m)
        qi = pd.DatetimeIndex(pd.Timestamp("2015-03-01") + pd.to_timedelta(q, unit="h"))
        cols = int(rng.integers(1, 4))
        vals = rng.normal(size=(n, cols))
        mon.event("interpolate")
        mon.distinct(hrs.tolist(), q.tolist())
        mon.note(hours=hrs.tolist(), query=q.tolist())
        want = np.stack([np.interp(q, hrs, vals[:, c], left=np.nan, right=np.nan) for c in range(cols)], 1)
        perm = rng.permutation(n) if rng.random() < 0.3 else np.arange(n)
        # julian dates resolve ~5e-10 days: samples exactly on the first / last date may fall outside
        inner = (q > hrs[0]) & (q < hrs[-1])
        out = (q < hrs[0]) | (q > hrs[-1])
        exp = dict(Series=pd.Series(vals[perm, 0], idx[perm]), DataFrame=pd.DataFrame(vals[perm], idx[perm], columns=[f"c{i}" for i in range(cols)]),
                   list=list(vals[:, 0]), array=vals[:, 0].copy())
        for nm, d in exp.items():
            r = g.interpolate_to_index(d, qi, data_index=idx) if nm in ("list", "array") else g.interpolate_to_index(d, qi)
            mon.check(isinstance(r, pd.DataFrame if nm == "DataFrame" else pd.Series), "interpolate-type", nm)
            mon.check(list(r.index) == list(qi), "interpolate-index", nm)
            w = want if nm == "DataFrame" else want[:, 0]
            v = np.asarray(r.values, float)
            mon.close(v[inner], w[inner], "interpolate", rtol=1e-5, atol=1e-5, msg=nm)
            mon.check(np.isnan(v[out]).all(), "interpolate-outside", f"{nm}: values outside of the provided dates")
            if nm == "DataFrame":
                mon.equal(list(r.columns), list(d.columns), "interpolate-columns")
        # keyword arguments reach the interpolation
        near = g.interpolate_to_index(exp["Series"], qi, kind="nearest", fill_value=-7.0)
        v = np.asarray(near.values, float)
        mon.check((v[out] == -7).all(), "interpolate-kwargs", "fill_value")
        dist = np.abs(q[:, None] - hrs[None])
        uniq = inner & (np.sort(dist, 1)[:, 1] - np.sort(dist, 1)[:, 0] > 0.5)
        mon.close(v[uniq], vals[np.argmin(dist, 1), 0][uniq], "interpolate-kwargs", rtol=0, atol=1e-12, msg="kind='nearest'")


def hms(rng, mon, tier):
    g = H()
    for _ in range(8):
        mode = rng.random()
        s = int(rng.integers(0, 60)) if mode < 0.2 else int(rng.choice([0, 59, 60, 3599, 3600, 86399, 86400])) if mode < 0.5 else int(rng.integers(0, 10**7))
        td = dt.timedelta(seconds=s, microseconds=int(rng.integers(0, 10**6)) if rng.random() < 0.5 else 0)
        td = pd.Timedelta(td) if rng.random() < 0.3 else td
        mon.event("hms")
        mon.distinct(s)
        mon.note(seconds=s)
        d, h, m, sec = g.dt_to_hms(td)
        mon.check(((d * 24 + h) * 60 + m) * 60 + sec == s and 0 <= h < 24 and 0 <= m < 60 and 0 <= sec < 60, "dt_to_hms", f"{(d, h, m, sec)} for {s} s")
    # scale
    x = rng.normal(size=int(rng.integers(2, 20)))
    if rng.random() < 0.3:
        x[0] = np.nan
    lo, hi = sorted(rng.normal(size=2))
    y = g.scale(x, (lo, hi))
    mn, mx = np.nanmin(x), np.nanmax(x)
    if mx > mn:
        mon.close(y, lo + (x - mn) / (mx - mn) * (hi - lo), "scale", rtol=1e-9, atol=1e-9)
        fs = (lambda v: np.nanpercentile(v, 10), lambda v: np.nanpercentile(v, 80))
        a, b = fs[0](x), fs[1](x)
        if b > a:
            mon.close(g.scale(x, (lo, hi), fs), lo + (x - a) / (b - a) * (hi - lo), "scale-domainfuncs", rtol=1e-8, atol=1e-8)
    import keyword

    for nm in ["a", "1a", "a b", "", "é", "_x", "a-b", "None", "match", *keyword.kwlist]:
        mon.equal(g.isidentifier(nm), nm.isidentifier() and nm not in keyword.kwlist, "isidentifier", nm)


SCENARIOS = [
    S("rectangularize", rectangularize, 20, 600),
    S("groupby", groupby, 20, 600),
    S("split", split, 20, 600),
    S("chunk", chunk, 20, 600),
    S("pairwise", pairs, 20, 600),
    S("mean", mean, 20, 600),
    S("missing", missing, 20, 600),
    S("interpolate", interpolate, 20, 600),
    S("hms", hms, 20, 600),
]
