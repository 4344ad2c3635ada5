"""Random fit problems (dataset + definitions) and an independent reference of Fits.

A problem is a plain dict:
  df          dataset (unique incidence angle per row identifies the observation)
  defdict     {name: [fitQ, val, freq, ([lo],[hi]), interp]}
  kinds       {name: "fit" | "fixed" | "aux"}
  V, SRF      specs; the slots (t, weights) and tau/omega/norm are expression strings or numbers
  sig0, dB, int_Q
The reference evaluates every row on its own with plain numbers.
"""
import copy

import numpy as np
import pandas as pd

from . import models as M

EXPR_ENV = {k: getattr(np, k) for k in ("sqrt", "exp", "log", "sin", "cos")}

# ---------------------------------------------------------------- reference evaluation


def ev(slot, vals):
    """value of a slot (number or expression string) for the given parameter values"""
    if isinstance(slot, str):
        return float(eval(slot, dict(EXPR_ENV), dict(vals)))
    return float(slot)


def names_of(slot):
    if not isinstance(slot, str):
        return set()
    code = compile(slot, "slot", "eval")
    return {n for n in code.co_names if n not in EXPR_ENV}


def spec_names(spec):
    out = set()
    if spec["type"] == "LinComb":
        for w, s in spec["choices"]:
            out |= names_of(w) | spec_names(s)
    elif "t" in spec:
        out |= names_of(spec["t"])
    return out


def num_spec(spec, vals):
    if spec["type"] == "LinComb":
        return dict(spec, choices=[(ev(w, vals), num_spec(s, vals)) for w, s in spec["choices"]])
    return dict(spec, t=ev(spec["t"], vals)) if "t" in spec else dict(spec)


def model_names(p):
    return spec_names(p["V"]) | spec_names(p["SRF"]) | names_of(p["tau"]) | names_of(p["omega"]) | names_of(p["norm"])


def components(p, vals, inc, inter=None):
    """[tot, surf, vol(, inter)] as intensity for one observation with scalar parameter values"""
    V, SRF = num_spec(p["V"], vals), num_spec(p["SRF"], vals)
    tau, om, no = ev(p["tau"], vals), ev(p["omega"], vals), ev(p["norm"], vals)
    bsf = vals.get("bsf", 0.0)
    t = np.array([inc])
    geo = (t, t, np.zeros(1), np.full(1, np.pi))
    s = M.surface(SRF, *geo, tau, no, 1.0, bsf)[0]
    v = M.volume(V, *geo, tau, om, 1.0, bsf)[0]
    if not (p["int_Q"] if inter is None else inter):
        return [s + v, s, v]
    i = M.interaction(V, SRF, *geo, tau, om, no, 1.0, bsf, nphi=24)[0]
    return [s + v + i, s, v, i]


def to_units(x, inc, sig0, dB):
    x = np.asarray(x, float)
    if sig0:
        x = x * 4 * np.pi * np.cos(inc)
    if dB:
        x = 10 * np.log10(x)
    return x


# ---------------------------------------------------------------- groups
FREQS = ["D", "3D", "10D", "W", "ME", "MS", "QS", "12h", "36h"]


def freq_labels(freq, idx):
    """labels of the time bins of a pandas offset, by calendar arithmetic"""
    t = pd.DatetimeIndex(idx)
    day0 = t[0].normalize()
    if freq in ("ME", "MS"):
        return [(x.year, x.month) for x in t]
    if freq == "QS":
        return [(x.year, (x.month - 1) // 3) for x in t]
    if freq == "W":
        return [tuple(x.isocalendar()[:2]) for x in t]
    hours = 24 * int(freq[:-1] or 1) if freq.endswith("D") else int(freq[:-1])
    return [int((x - day0).total_seconds() // (3600 * hours)) for x in t]


def ref_labels(dfn, key, df):
    """label of the parameter group of every row of the sorted dataset"""
    freq = dfn[2] if len(dfn) > 2 else None
    idx = df.index
    if freq is None:
        return [0] * len(df)
    manual = list(df[key + "_dyn"]) if key + "_dyn" in df else None
    if freq == "manual":
        return manual
    if freq == "index":
        return list(idx)
    parts = [x.strip() for x in str(freq).split("+")]
    if "manual" in parts:
        parts.remove("manual")
        base = _base_labels(parts[0], idx)
        return list(zip(base, manual))
    return _base_labels(parts[0], idx)


def _base_labels(f, idx):
    try:
        n = int(f)
    except ValueError:
        return freq_labels(f, idx)
    u = list(dict.fromkeys(idx))
    grp = {}
    for g, d in enumerate(np.array_split(np.arange(len(u)), max(1, len(u) // n))):
        for i in d:
            grp[u[i]] = g
    return [grp[d] for d in idx]


def codes(labels):
    """first-occurrence codes of a list of labels"""
    m = {}
    return [m.setdefault(x, len(m)) for x in labels]


class Ref:
    """reference view of a problem; `df` is the date-sorted dataset (row order among equal dates as in the fit)"""

    def __init__(self, p, df):
        self.p, self.df = p, df
        self.fitted = [k for k, k_ in p["kinds"].items() if k_ == "fit"]
        self.codes = {k: codes(ref_labels(p["defdict"][k], k, df)) for k in self.fitted}
        self.ngroups = {k: max(c) + 1 for k, c in self.codes.items()}
        self.joint = codes(list(zip(*self.codes.values()))) if self.fitted else [0] * len(df)
        self.rows = {float(x): i for i, x in enumerate(df["inc"])}
        self._cache = {}

    def split(self, x, order):
        out, pos = {}, 0
        for k in order:
            out[k] = np.array(x[pos : pos + self.ngroups[k]], float)
            pos += self.ngroups[k]
        assert pos == len(x), (pos, len(x))
        return out

    def runs(self, key):
        """[(mean date in s since the first date, code)] of the groups; repeated for each consecutive
        appearance if a group re-appears later"""
        t = (self.df.index.asi8 - self.df.index.asi8[0]) / 1e9
        c = self.codes[key]
        if any(b < a for a, b in zip(c, c[1:])):
            rr, start = [], 0
            for i in range(1, len(c) + 1):
                if i == len(c) or c[i] != c[start]:
                    rr.append((t[start:i].mean(), c[start]))
                    start = i
            return rr
        c = np.array(c)
        return [(t[c == g].mean(), g) for g in range(self.ngroups[key])]

    def assign(self, key, vals, interp=None):
        """value of a fitted parameter for every row"""
        interp = self.is_interp(key) if interp is None else interp
        c = self.codes[key]
        rr = self.runs(key) if interp else []
        if not interp or len(rr) < 2:
            return np.asarray(vals, float)[c]
        from scipy.interpolate import interp1d

        t = (self.df.index.asi8 - self.df.index.asi8[0]) / 1e9
        xs = [m for m, _ in rr]
        ys = [vals[g] for _, g in rr]
        a, b = t[0], t[-1]
        if a == xs[0]:
            a += 1e-3
        if b == xs[-1]:
            b -= 1e-3
        f = interp1d([a, *xs, b], [ys[0], *ys, ys[-1]], kind="quadratic", fill_value="extrapolate")
        return f(t)

    def is_interp(self, key):
        d = self.p["defdict"][key]
        return len(d) >= 5 and d[4] is True

    def row_values(self, res):
        """[{name: value}] for every row; res: {name: group values}"""
        cols = {}
        for k, kind in self.p["kinds"].items():
            if kind == "fit":
                cols[k] = self.assign(k, res[k])
            elif kind == "fixed":
                cols[k] = np.full(len(self.df), float(self.p["defdict"][k][1]))
            else:
                cols[k] = self.df[k].values.astype(float)
        return [{k: float(v[i]) for k, v in cols.items()} for i in range(len(self.df))]

    def model(self, res, inter=None, sig0=None, dB=None):
        """(n_rows, 3 or 4) predictions in the units of the problem"""
        p = self.p
        out = np.array([components(p, v, inc, inter) for v, inc in zip(self.row_values(res), self.df["inc"])])
        sig0 = p["sig0"] if sig0 is None else sig0
        dB = p["dB"] if dB is None else dB
        with np.errstate(all="ignore"):
            return to_units(out, self.df["inc"].values[:, None], sig0, dB)

    def weights(self):
        return self.df["data_weights"].values if "data_weights" in self.df else np.ones(len(self.df))


# ---------------------------------------------------------------- generators
NAMES = ["a1", "b2", "xx", "vod", "sm", "qq", "t1", "r0", "w1", "k_s", "w__2"]


def gen_dates(rng, n, dense=None):
    m = rng.random() if dense is None else dense
    if m < 0.4:
        gaps = rng.integers(3, 60, n)  # hours
    elif m < 0.8:
        gaps = rng.integers(24, 24 * 25, n)
    else:
        gaps = np.full(n, 24 * int(rng.integers(1, 9)))
    start = pd.Timestamp("2018-12-20") + pd.Timedelta(hours=int(rng.integers(0, 24 * 40)))
    return pd.DatetimeIndex([start + pd.Timedelta(hours=int(h)) for h in np.concatenate([[0], np.cumsum(gaps[1:])])])


def gen_slots(rng, p, names, simple=False):
    """expressions for tau, omega, norm; returns used names"""
    def nm(kind):
        if names and rng.random() < 0.75:
            return names.pop(0)
        return None

    def pick(key, exprs, lo, hi):
        m = rng.random()
        if m < 0.15:
            return M.r(rng.uniform(lo, hi))
        if m < 0.45 or not names:
            return key
        a = names.pop(0)
        if simple or m < 0.65:
            return a
        b = names.pop(0) if names and rng.random() < 0.5 else a
        if rng.random() < 0.3 and p["_shared"]:
            b = p["_shared"][0]
        p["_shared"].append(a)
        return exprs[rng.integers(len(exprs))].format(a=a, b=b)

    p["_shared"] = []
    p["tau"] = pick("tau", ["{a}*{b} + 0.05", "2*{a}", "0.1 + {a}", "sqrt({a})", "{a} + {b}", "exp(-{a})"], 0.1, 0.9)
    p["omega"] = pick("omega", ["{a}/2", "{a}*{b} + 0.02", "0.1 + 0.5*{a}", "0.6*sin({a})"], 0.05, 0.5)
    p["norm"] = pick("NormBRDF", ["{a}**2 + 0.05", "0.3*{a} + 0.1", "{a}*{b} + 0.01", "{a}/2"], 0.05, 0.5)
    if rng.random() < 0.2:
        for k in p["tau"], p["omega"], p["norm"]:
            if isinstance(k, str) and k not in ("tau", "omega", "NormBRDF"):
                p["_shared"].append(sorted(names_of(k))[0])
    sh = p.pop("_shared")
    return sh


def symbolize(rng, spec, names, shared, prob=0.6):
    """replace t / weights by names or expressions"""
    def one(s):
        s = dict(s)
        if "t" in s and rng.random() < prob and (names or shared):
            s["t"] = abs(s["t"])
            m = rng.random()
            a = shared[0] if shared and rng.random() < 0.2 else (names.pop(0) if names else shared[0])
            s["t"] = a if m < 0.6 else ("-%s" % a if m < 0.8 else "0.7*%s" % a)
        return s

    if spec["type"] != "LinComb":
        return one(spec)
    ch = []
    wa = None
    for k, (w, s) in enumerate(spec["choices"]):
        s = one(s)
        if rng.random() < prob and (names or wa):
            if wa is not None and rng.random() < 0.5:
                w = "1 - %s" % wa
            elif names:
                wa = names.pop(0)
                w = wa
        ch.append((w, s))
    return dict(spec, choices=ch)


def init_dict(p):
    """definition as dict (set_V_SRF)"""
    def spec_dict(s, extra):
        pre = s["kind"]
        if s["type"] == "LinComb":
            return {f"{pre}_name": "LinCombV" if pre == "V" else "LinCombSRF",
                    f"{pre}choices": [[w, spec_dict(q, {})] for w, q in s["choices"]], **extra}
        d = {f"{pre}_name": s["type"]}
        for k in ("t", "i", "ncoefs"):
            if k in s:
                d[k] = s[k]
        if s["type"] not in ("Rayleigh", "Isotropic"):
            d["a"] = list(s["a"])
        d.update(extra)
        return d

    return dict(V_props=spec_dict(p["V"], dict(tau=p["tau"], omega=p["omega"])),
                SRF_props=spec_dict(p["SRF"], dict(NormBRDF=p["norm"])))


def set_func(p):
    """definition as a function of the parameters"""
    import sympy as sp

    V, SRF, tau, omega, norm = (copy.deepcopy(p[k]) for k in ("V", "SRF", "tau", "omega", "norm"))
    need = sorted(model_names(p))

    def set_V_SRF(**kw):
        env = {k: getattr(sp, k) for k in ("sqrt", "exp", "log", "sin", "cos")}

        def e(slot):
            return eval(slot, dict(env), {k: kw[k] for k in need}) if isinstance(slot, str) else slot

        def one(s):
            return dict(s, t=e(s["t"])) if "t" in s else s

        def b(s, **extra):
            if s["type"] == "LinComb":
                s = dict(s, choices=[(e(w), one(q)) for w, q in s["choices"]])
                return M.build(s, **extra)
            return M.build(one(s), **extra)

        return b(V, tau=e(tau), omega=e(omega)), b(SRF, NormBRDF=e(norm))

    return set_V_SRF


def gen_problem(rng, *, n_dates=None, max_obs=3, int_Q=None, comb=0.25, nmax=3, interp=0.25, aux=0.25, fixed=0.2, weights=0.4, min_obs=1,
                freqs=None, simple=False, shuffle=0.5, bsf=0.2, units=None, free_a=False, tmax=0.5, min_fit=1, names=None, notau=False, func=0.5, expr=True, dense=None):
    p = {}
    names = [str(x) for x in rng.permutation(names or NAMES)]
    shared = gen_slots(rng, p, names, simple) if expr else []
    if not expr:
        p.update(tau="tau", omega="omega", norm="NormBRDF")
    if notau:
        p["tau"] = M.r(rng.uniform(0.1, 0.6))
    V = M.gen_spec(rng, "V", nmax, comb, free_a, tmax)
    SRF = M.gen_spec(rng, "SRF", nmax, comb, free_a, tmax)
    p["V"], p["SRF"] = symbolize(rng, V, names, shared), symbolize(rng, SRF, names, shared)
    p["int_Q"] = bool(rng.random() < 0.3) if int_Q is None else int_Q
    p["sig0"], p["dB"] = units if units is not None else (bool(rng.random() < 0.5), bool(rng.random() < 0.5))
    used = sorted(model_names(p))
    if rng.random() < bsf:
        used.append("bsf")
    used = [str(x) for x in rng.permutation(used)]

    # dates and rows
    n_dates = int(rng.integers(3, 10)) if n_dates is None else n_dates
    dates = gen_dates(rng, n_dates, dense)
    if rng.random() < 0.15:
        nobs = np.full(n_dates, int(rng.integers(min_obs, max_obs + 1)))
    else:
        nobs = rng.integers(min_obs, max_obs + 1, n_dates)
    idx = dates.repeat(nobs)
    n = len(idx)
    while True:
        inc = np.round(np.deg2rad(rng.uniform(15, 70, n)), 7)
        if len(set(inc)) == n:
            break
    df = pd.DataFrame(dict(inc=inc), index=idx)
    if rng.random() < 0.4:
        df.index.name = str(rng.choice(["date", "time", "index", "orig_index"]))
    lin = rng.uniform(0.01, 0.4, n)
    df["sig"] = np.round(10 * np.log10(lin), 9) if p["dB"] else lin
    if rng.random() < weights:
        df["data_weights"] = np.round(rng.uniform(0.1, 3, n), 4)

    # definitions of the parameters
    freqs = freqs or [None, "index", "int", "freq", "manual", "freq+manual", "int+manual"]
    defdict, kinds = {}, {}
    for k in used:
        m = rng.random()
        v0 = M.r(rng.uniform(0.15, 0.45))
        if m < fixed:
            kinds[k] = "fixed"
            defdict[k] = [False, v0]
        elif m < fixed + aux:
            kinds[k] = "aux"
            defdict[k] = [False, "auxiliary"]
            df[k] = np.round(rng.uniform(0.15, 0.45, n), 5)
        else:
            kinds[k] = "fit"
            defdict[k] = [True, v0]
    nfit = sum(v == "fit" for v in kinds.values())
    for k in used:
        if nfit >= min(min_fit, len(used)):
            break
        if kinds[k] != "fit":
            kinds[k] = "fit"
            defdict[k] = [True, M.r(rng.uniform(0.15, 0.45))]
            if k in df:
                del df[k]
            nfit += 1
    if not nfit:
        return None
    for k in used:
        if kinds[k] != "fit":
            continue
        ty = freqs[rng.integers(len(freqs))]
        per_date = rng.random() < 0.5
        fr, man = ty, None
        if ty == "int":
            fr = int(rng.integers(1, n_dates + 3))
        elif ty == "freq":
            fr = FREQS[rng.integers(len(FREQS))]
        elif ty == "manual":
            man = True
        elif ty == "freq+manual":
            f = FREQS[rng.integers(len(FREQS))]
            fr = [f"{f}+manual", f"{f} + manual", f"manual + {f}"][rng.integers(3)]
            man = True
        elif ty == "int+manual":
            fr, man = f"{int(rng.integers(1, n_dates + 1))} + manual", True
        if man:
            df[k + "_dyn"] = gen_manual(rng, idx, dates, nobs, per_date)
        lo, hi = M.r(defdict[k][1] - rng.uniform(0.05, 0.1)), M.r(defdict[k][1] + rng.uniform(0.05, 0.3))
        it = bool(rng.random() < interp)
        d = defdict[k] + [fr, ([lo], [hi])]
        if it or rng.random() < 0.6:
            d.append(it)
        defdict[k] = d
    # irrelevant columns
    if rng.random() < 0.2:
        df["unused"] = rng.uniform(0, 1, n)
    if rng.random() < 0.15:
        df["other_dyn"] = rng.integers(0, 3, n)
    if rng.random() < shuffle:
        df = df.iloc[rng.permutation(n)]
    if rng.random() < 0.3:
        df = df[[str(c) for c in rng.permutation(df.columns)]]
    p.update(df=df, defdict=defdict, kinds=kinds, func=bool(rng.random() < func), lsq={}, reserved=used)
    return p


def gen_manual(rng, idx, dates, nobs, per_date):
    """labels: consecutive, re-appearing, unsorted; int, float, str"""
    n = len(dates) if per_date else len(idx)
    m = rng.random()
    k = int(rng.integers(1, n + 1))
    if m < 0.35:  # consecutive
        lab = np.sort(rng.integers(0, k, n))
    elif m < 0.6:  # consecutive but not increasing
        lab = rng.permutation(k + 3)[np.sort(rng.integers(0, k, n))]
    else:
        lab = rng.integers(0, k, n)
    kind = rng.random()
    if kind < 0.55:
        lab = lab + int(rng.choice([0, 0, 1, 7, 1000]))
    elif kind < 0.75:
        lab = lab * 0.5 - 1
    else:
        lab = np.array([f"L{x}" for x in lab], dtype=object)
    return np.repeat(lab, nobs) if per_date else lab


def clean_for_interp(p, rng=None):
    """interpolation through group mean dates needs distinct mean dates: drop interp flags elsewhere"""
    for k in interp_bad(p):
        p["defdict"][k][4] = False
    return p


def interp_ok(p):
    return not interp_bad(p)


def interp_bad(p):
    bad = []
    df = p["df"].sort_index(kind="stable")
    ref = Ref(p, df)
    for k in ref.fitted:
        if not ref.is_interp(k):
            continue
        xs = [m for m, _ in ref.runs(k)]
        t = (df.index.asi8 - df.index.asi8[0]) / 1e9
        # groups that are distinguished within one date depend on the row order of equal dates
        by_date = pd.Series(ref.codes[k], index=df.index).groupby(level=0).nunique().max() == 1
        if not by_date or len(xs) != len(set(xs)) or (len(xs) > 1 and np.min(np.diff(sorted(xs))) < 1):
            bad.append(k)
    return bad


def make(p, **kw):
    from rt1.rtfits import Fits

    args = dict(sig0=p["sig0"], dB=p["dB"], dataset=p["df"].copy(), defdict=copy.deepcopy(p["defdict"]),
                set_V_SRF=set_func(p) if p["func"] else init_dict(p), lsq_kwargs=dict(p.get("lsq") or {}), int_Q=p["int_Q"], verbose=0)
    args.update(kw)
    return Fits(**args)


def draw(rng, call):
    """a parameter vector strictly inside the bounds given to the optimiser"""
    lo, hi = call.lohi()
    return lo + (hi - lo) * rng.uniform(0.15, 0.85, len(lo))


def note(p):
    d = {k: p[k] for k in ("defdict", "kinds", "V", "SRF", "tau", "omega", "norm", "sig0", "dB", "int_Q", "func")}
    d["df"] = p["df"].to_dict("list")
    d["dates"] = [str(x) for x in p["df"].index]
    return d


def order_of(fit, p):
    """order of the parameters in the vector of the optimiser (order of the definitions)"""
    return [k for k in p["defdict"] if p["kinds"][k] == "fit"]
