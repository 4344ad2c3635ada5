"""P09: results depend only on the current settings, never on the history."""
import copy
import os
import pickle
import tempfile

import cloudpickle
import numpy as np
import pandas as pd

from . import core
from . import fitmodels as F
from . import models as M
from . import p15
from .core import S, Skip

ID = "P09"
LEVEL = "exploration"
RULE = (
    "Random histories (6-14 operations) on one to three live RT1 or Fits objects: evaluations, gradients, jacobians, inspection, fits, pickling, "
    "copying, and re-assignments of every public setting (angles with the same or another shape, parameters, scattering functions, backend, dataset, "
    "units, parameter definitions, model definition, optimiser settings, results).  After re-assignments the object is compared with a freshly "
    "created object with the same settings (and with reference formulas); all other live objects and the user's inputs must be unchanged.  Distinct by "
    "the sequence of operations and the model."
)
MIN_EVENTS = {"rt1_ops": 300, "rt1_fresh_compared": 100, "rt1_reference_compared": 60, "fit_ops": 200, "fit_fresh_compared": 100, "inputs_checked": 60,
              "other_object_checked": 60, "copies": 60}

GEOS = ["mono", "vvvv", "mono", "vvvv", "fvvv", "vfvv", "ffvv", "fvfv", "vvvf", "ffff"]
PARS = ["omega", "tau", "NormBRDF", "bsf"]


# ---------------------------------------------------------------- RT1 objects
def rt1_print(R, pd_keys, deep):
    """everything an RT1 object returns"""
    o = {}
    o["total"], o["surface"], o["volume"], *o["inter"] = [np.asarray(x) for x in R.calc()]
    o["surf2"], o["vol2"] = R.surface(), R.volume()
    if R.int_Q:
        o["inter2"] = R.interaction()
    o["angles"] = [R.t_0, R.t_ex, R.p_0, R.p_ex]
    if deep:
        for dB in (False, True):
            for sig0 in (False, True):
                o[f"jac{dB}{sig0}"] = [np.broadcast_to(x, R.t_0.shape) for x in R.jacobian(dB=dB, sig0=sig0, param_list=PARS + pd_keys)]
    return o


def rt1_slopes(R):
    return {f: getattr(R, f)() for f in ("surface_slope", "volume_slope", "tot_slope", "surface_curv", "volume_curv", "tot_curv")}


def same(mon, got, want, key, msg):
    ok = mon.check(list(got) == list(want), key + "-items", f"{msg}: {list(got)} != {list(want)}")
    for k in want:
        if k not in got:
            continue
        g, w = got[k], want[k]
        if isinstance(w, list):
            ok &= mon.check(len(g) == len(w), f"{key}-{k}", f"{msg}: number of items {len(g)} {len(w)}")
            for i, (x, y) in enumerate(zip(g, w)):
                ok &= mon.close(x, y, f"{key}-{k}", rtol=1e-9, atol=1e-13, msg=f"{msg} {k}[{i}]")
        else:
            ok &= mon.close(g, w, f"{key}-{k}", rtol=1e-9, atol=1e-13, msg=f"{msg} {k}")
    return ok


class Live:
    """an RT1 object together with what its settings are"""

    def __init__(self, rng, c, backend):
        self.c, self.backend, self.int_Q = c, backend, True
        self.inputs = {k: c[k] for k in ("t0", "tex", "p0", "pex")}
        self.R = M.make(c, lambda_backend=backend)
        self.arrays = [(v, np.array(v, copy=True)) for v in self.inputs.values()]

    def fresh(self):
        c = {k: copy.deepcopy(v) for k, v in self.c.items()}
        return M.make(c, lambda_backend=self.backend, int_Q=self.int_Q)

    def check(self, rng, mon, deep=None, ref=None, what=""):
        keys = list(self.c["pd"])
        deep = rng.random() < 0.4 if deep is None else deep
        a, b = rt1_print(self.R, keys, deep), rt1_print(self.fresh(), keys, deep)
        mon.event("rt1_fresh_compared")
        same(mon, a, b, "rt1-history", what)
        if (rng.random() < 0.5 if ref is None else ref) and a["surface"].size <= 6:
            mon.event("rt1_reference_compared")
            mon.close(a["surface"], np.broadcast_to(M.ref_surface(self.c), a["surface"].shape), "rt1-ref-surface", rtol=1e-9, msg=what)
            mon.close(a["volume"], np.broadcast_to(M.ref_volume(self.c), a["volume"].shape), "rt1-ref-volume", rtol=1e-9, atol=1e-13, msg=what)
            if self.int_Q:
                w = np.broadcast_to(M.ref_interaction(self.c), a["inter"][0].shape)
                mon.close(a["inter"][0], w, "rt1-ref-interaction", rtol=1e-7, atol=1e-13, scale=np.abs(w) + 1e-3 * np.abs(w).max(), msg=what)
        if self.c["geometry"] == "mono" and rng.random() < 0.15 and a["surface"].ndim == 1 and "ta" not in "".join(keys):
            same(mon, rt1_slopes(self.R), rt1_slopes(self.fresh()), "rt1-slopes", what)

    def inputs_ok(self, mon):
        for v, w in self.arrays:
            mon.event("inputs_checked")
            mon.check(np.array_equal(v, w), "rt1-input-changed", f"{v} was {w}")


def new_angles(rng, c, same_shape):
    geo = c["geometry"]
    shp = c["t0"].shape if same_shape else (int(rng.integers(1, 5)),)
    t0, tex = M.angles(rng, shp), M.angles(rng, shp)
    if geo == "mono":
        p0 = np.array([M.r(rng.uniform(-3, 3))])
        return dict(t0=t0, tex=t0, p0=p0, pex=p0)
    p0, pex = np.round(rng.uniform(-3, 3, shp), 3), np.round(rng.uniform(-3, 6, shp), 3)
    for arr, g in zip((t0, tex, p0, pex), geo):
        if g == "f":
            arr[...] = arr.ravel()[0]
    return dict(t0=t0, tex=tex, p0=p0, pex=pex)


def rt1_read(rng, mon, L):
    R = L.R
    m = int(rng.integers(0, 12))
    mon.event("rt1_ops")
    keys = list(L.c["pd"])
    if m == 0:
        R.calc()
    elif m == 1:
        R.interaction() if L.int_Q else R.surface()
    elif m == 2:
        R.surface(), R.volume()
    elif m == 3:
        R.jacobian(dB=bool(rng.random() < 0.5), sig0=bool(rng.random() < 0.5), param_list=[str(x) for x in rng.permutation(PARS + keys)])
    elif m == 4 and L.c["geometry"] == "mono":
        R.tot_slope(), R.tot_curv(dB=True)
    elif m == 5:
        R.fn if L.int_Q else None
    elif m == 6:
        repr(R.V), repr(R.SRF), R.V.init_dict, R.SRF.init_dict, R._cache_info()
    elif m in (7, 8):
        mon.event("copies")
        R2 = pickle.loads(cloudpickle.dumps(R)) if m == 7 else copy.deepcopy(R)
        deep = bool(rng.random() < 0.3)
        same(mon, rt1_print(R2, keys, deep), rt1_print(L.fresh(), keys, deep), "rt1-copy", f"copy {m}")
        if rng.random() < 0.5:
            R2.V.tau, R2.SRF.NormBRDF, R2.bsf = 0.123, 0.77, 0.5
            R2.t_0 = np.array([0.33])
            if L.c["geometry"] != "mono":
                R2.t_ex = np.array([0.44])
            R2.param_dict.update({k: 0.011 for k in keys})
    elif m == 9:
        copy.copy(R).calc()
    elif m == 10:
        R.V.p(np.array([0.2, 0.3, 0.4]), 0.3, 0.1, 0.4, {k: 0.2 for k in keys})
        R.SRF.brdf(np.array([0.2, 0.3, 0.4]), 0.3, 0.1, 0.4, {k: 0.2 for k in keys})
    else:
        R._clear_cache()
    return f"read{m}"


def rt1_write(rng, mon, L):
    R, c = L.R, L.c
    m = int(rng.integers(0, 14))
    mon.event("rt1_ops")
    shp = c["t0"].shape

    def par(lo, hi):
        return np.round(rng.uniform(lo, hi, shp), 4) if rng.random() < 0.3 else M.r(rng.uniform(lo, hi))

    arr = [k for k in ("tau", "omega", "norm", "bsf", "I0") if np.ndim(c[k])] + [k for k in c["pd"] if np.ndim(c["pd"][k])]
    if m in (0, 1):  # angles
        ang = new_angles(rng, c, same_shape=bool(arr) or rng.random() < 0.5)
        names = [("t_0", "t0"), ("t_ex", "tex"), ("p_0", "p0"), ("p_ex", "pex")]
        if c["geometry"] == "mono":
            names = [names[0], names[2]]
        if ang["t0"].shape == shp and rng.random() < 0.5:  # only one of them
            names = [names[rng.integers(len(names))]]
        for i in rng.permutation(len(names)):
            a, k = names[i]
            v = ang[k]
            L.arrays.append((v, v.copy()))
            if v.size == 1 and rng.random() < 0.5:
                setattr(R, a, float(v[0]))
            else:
                setattr(R, a, v)
            c[k] = v
        if c["geometry"] == "mono":
            c["tex"], c["pex"] = c["t0"], c["p0"]
        return "angles:" + ",".join(a for a, _ in names)
    if m == 2:
        c["tau"] = R.V.tau = par(0.05, 2.0)
        return "tau"
    if m == 3:
        c["omega"] = R.V.omega = par(0.05, 0.9)
        return "omega"
    if m == 4:
        c["norm"] = R.SRF.NormBRDF = par(0.05, 0.9)
        return "NormBRDF"
    if m == 5:
        c["bsf"] = R.bsf = par(0.05, 0.9) if rng.random() < 0.8 else 0.0
        return "bsf"
    if m == 6:
        c["I0"] = R.I0 = M.r(rng.uniform(0.2, 3))
        return "I0"
    if m in (7, 8, 9) and c["pd"]:
        ks = [str(k) for k in rng.permutation(list(c["pd"]))]
        c["pd"] = {k: par(0.1, 0.5) for k in ks}
        if rng.random() < 0.5:
            R.param_dict = dict(c["pd"])
        else:
            R.param_dict.update(c["pd"])
        return "param_dict"
    if m == 10:
        c["V"] = M.gen_spec(rng, "V", 3, 0.2, True)
        keep_pd(c, R)
        R.V = M.build(c["V"], tau=c["tau"], omega=c["omega"])
        return "V"
    if m == 11:
        c["SRF"] = M.gen_spec(rng, "SRF", 3, 0.2, True)
        keep_pd(c, R)
        R.SRF = M.build(c["SRF"], NormBRDF=c["norm"])
        return "SRF"
    if m == 12:
        L.backend = R.lambda_backend = ["sympy", "symengine"][rng.integers(2)]
        return "lambda_backend"
    if m == 13:
        L.int_Q = R.int_Q = not L.int_Q
        return "int_Q"
    return "none"


def keep_pd(c, R):
    pass


def rt1_history(rng, mon, tier):
    n = int(rng.integers(1, 4))
    lives = []
    for _ in range(n):
        geo = GEOS[rng.integers(len(GEOS))]
        c = M.gen_cfg(rng, geo, nmax=3, comb=0.2, sym=0.7 if rng.random() < 0.5 else 0.0, n=int(rng.integers(1, 4)))
        lives.append(Live(rng, c, ["sympy", "symengine"][rng.integers(2)]))
    share = n > 1 and rng.random() < 0.3
    ops = []
    mon.note(geometry=[L.c["geometry"] for L in lives], V=[L.c["V"] for L in lives], SRF=[L.c["SRF"] for L in lives], ops=ops)
    base = {}
    for step in range(int(rng.integers(6, 15))):
        i = int(rng.integers(n))
        L = lives[i]
        if rng.random() < 0.5:
            ops.append((i, rt1_read(rng, mon, L)))
        else:
            w = rt1_write(rng, mon, L)
            ops.append((i, w))
            base.pop(i, None)
            if rng.random() < 0.6:
                L.check(rng, mon, what=str(ops[-4:]))
        j = int(rng.integers(n))
        if j != i:
            now = rt1_print(lives[j].R, list(lives[j].c["pd"]), False)
            if j in base:
                mon.event("other_object_checked")
                same(mon, now, base[j], "rt1-other-object", str(ops[-3:]))
            base[j] = now
    mon.distinct(ops, lives[0].c["V"], lives[0].c["SRF"])
    for L in lives:
        L.check(rng, mon, deep=True, ref=True, what="at the end of " + str(ops))
        L.inputs_ok(mon)


# ---------------------------------------------------------------- Fits objects
class LiveFit:
    def __init__(self, p, backend):
        self.p, self.backend = p, backend
        self.dfs = []
        self.res = None
        self.args = dict(dataset=self.give(p["df"]), defdict=copy.deepcopy(p["defdict"]), set_V_SRF=F.set_func(p) if p["func"] else F.init_dict(p),
                         lsq_kwargs=dict(p["lsq"]))
        self.user = [self.args["defdict"], self.args["set_V_SRF"], self.args["lsq_kwargs"]]
        self.user_copy = copy.deepcopy(self.user)
        self.fit = F.make(p, lambda_backend=backend, **self.args)

    def give(self, df):
        mine = df.copy()
        self.dfs.append((mine, mine.copy()))
        return mine

    def fresh(self):
        f = F.make(self.p, lambda_backend=self.backend)
        if self.res is not None:
            f.res_dict = copy.deepcopy(self.res)
            f.fit_output = getattr(self.fit, "fit_output", None)
        return f

    def print(self, fit=None, deep=False):
        o = p15.fingerprint(self.fit if fit is None else fit, deep)
        return o

    def check(self, rng, mon, key, what, deep=None):
        deep = rng.random() < 0.5 if deep is None else deep
        mon.event("fit_fresh_compared")
        mon.event("interpolated", int(any(len(d) >= 5 and d[4] is True for d in self.p["defdict"].values())))
        f = self.fresh()
        p15.same(mon, self.print(f, deep), self.print(None, deep), key, what)
        if rng.random() < 0.3:
            mon.check(frames(f) == frames(self.fit), key + "-frames", what)

    def inputs_ok(self, mon):
        for a, b in self.dfs:
            mon.event("inputs_checked")
            mon.check(a.equals(b) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and a.index.name == b.index.name, "dataset-changed", "the dataset of the user has been changed")
        if not callable(self.user[1]):
            mon.equal(p15.plain(self.user[1]), p15.plain(self.user_copy[1]), "set_V_SRF-changed")
        mon.equal(p15.plain(self.user[0]), p15.plain(self.user_copy[0]), "defdict-changed")
        mon.equal(p15.plain(self.user[2]), p15.plain(self.user_copy[2]), "lsq_kwargs-changed")


def frames(fit):
    return {a: getattr(fit, a).round(9).to_dict("list") for a in ("param_dyn_df",)} | {"N": int(fit._N_groups), "order": list(fit._order), "start": p15.plain(fit._startvaldict)}


def new_data(rng, p):
    """other observations for the same definition"""
    df = p["df"].sort_index()
    m = rng.random()
    if m < 0.35:  # subset (whole dates)
        dates = df.index.unique()
        keep = dates[np.sort(rng.permutation(len(dates))[: max(1, len(dates) - int(rng.integers(0, 2)))])]
        df = df[df.index.isin(keep)]
    elif m < 0.6:  # shifted dates
        df = df.set_axis(df.index + pd.Timedelta(days=int(rng.integers(-40, 40)), hours=int(rng.integers(0, 24))))
    df = df.copy()
    while True:
        inc = np.round(np.deg2rad(rng.uniform(15, 70, len(df))), 7)
        if len(set(inc)) == len(df):
            break
    df["inc"] = inc
    df["sig"] = df["sig"] * rng.uniform(0.9, 1.1, len(df))
    # other manual groups
    manual = [k for k, d in p["defdict"].items() if k + "_dyn" in df and len(d) > 2 and "manual" in str(d[2])]
    for k in manual:
        if rng.random() < 0.5:
            dates, lab = df.index.unique(), np.unique(df[k + "_dyn"].values)
            df[k + "_dyn"] = lab[rng.integers(0, len(lab), len(dates))][dates.get_indexer(df.index)]
    if rng.random() < 0.5:
        df = df.iloc[rng.permutation(len(df))]
    if not F.interp_ok(dict(p, df=df)):  # (no interpolation is defined for these dates)
        df = p["df"].copy()
        df["sig"] = df["sig"] * rng.uniform(0.9, 1.1, len(df))
    return df


def fit_read(rng, mon, L, dirname):
    fit = L.fit
    m = int(rng.integers(0, 14))
    mon.event("fit_ops")
    if m == 0:
        fit.inc, fit.data, fit.mask, fit.index, fit.data_weights
    elif m == 1:
        fit.param_dyn_df, fit.param_dyn_dict, fit.meandatetimes, fit.meandatetimes_group
    elif m == 2 and L.res is not None:
        fit.calc_model(return_components=bool(rng.random() < 0.5)), fit.res_df
    elif m == 3 and L.res is not None:
        fit.res_df_group, fit._get_data("tot") if False else None
    elif m == 4:
        fit.R
    elif m == 5:
        repr(fit.defdict), fit._model_definition, str(fit.defdict.to_dict())
    elif m == 6:
        mon.event("copies")
        fit.dump(os.path.join(dirname, "x.dump"), mini=bool(rng.random() < 0.5))
    elif m == 7:
        mon.event("copies")
        f2 = copy.deepcopy(fit)
        change(rng, f2)
    elif m == 8:
        mon.event("copies")
        f2 = pickle.loads(cloudpickle.dumps(fit))
        change(rng, f2)
    elif m == 9:
        fit._cache_info(), fit._cached_arg_number
    elif m == 10:
        mon.event("copies")
        change(rng, fit.reinit_object())
    elif m == 11 and L.res is not None:
        {k: fit.calc({k: np.mean(v) for k, v in L.res.items()} if False else {}, fit.inc) for k in ()}
    elif m == 12:
        fit.set_model()
    elif m == 13:
        fit._param_R_dict, fit._startvaldict, fit._boundsvaldict, fit.fixed_dict
    return f"read{m}"


def change(rng, f):
    """use a copy in another way than the original"""
    f.sig0 = not f.sig0
    k = list(f.defdict)[0]
    if f.defdict[k][0] is True:
        f.defdict[k][1] = 0.2222
    f.dataset = f.dataset.iloc[: max(1, len(f.dataset) - 1)]
    f.lsq_kwargs["max_nfev"] = 3
    if hasattr(f, "res_dict"):
        f.res_dict.clear()
        del f.res_dict
    f.inc, f.data


def fit_write(rng, mon, L):
    fit, p = L.fit, L.p
    m = int(rng.integers(0, 13))
    if L.res is None and rng.random() < 0.5:
        m = 12
    mon.event("fit_ops")
    drop = False
    if m == 0:
        p["sig0"] = fit.sig0 = not p["sig0"]
        what = "sig0"
    elif m == 1:
        p["dB"] = not p["dB"]
        lin = p["df"]["sig"].values
        fit.dB = p["dB"]
        what = "dB"
        # the data must be in the units of the fit: replace it as well (in a random order)
        df = p["df"].copy()
        df["sig"] = 10 * np.log10(np.abs(lin)) if p["dB"] else 10 ** (lin / 10)
        fit.dataset = L.give(df)
        p["df"] = df
    elif m in (2, 3):
        df = new_data(rng, p)
        p["df"] = df
        fit.dataset = L.give(df)
        what, drop = "dataset", True
    elif m in (4, 5):  # definitions: start-values, boundaries, groups, switch fitted/fixed
        dd, kinds = copy.deepcopy(p["defdict"]), dict(p["kinds"])
        ks = [k for k in dd if kinds[k] != "aux"]
        if not ks:
            return "none"
        k = ks[rng.integers(len(ks))]
        if kinds[k] == "fit" and sum(v == "fit" for v in kinds.values()) > 1 and rng.random() < 0.4:
            dd[k], kinds[k] = [False, M.r(rng.uniform(0.15, 0.45))], "fixed"
        else:
            v = M.r(rng.uniform(0.2, 0.4))
            fr = [None, "index", int(rng.integers(1, 5)), "D", "10D", "ME"][rng.integers(6)]
            dd[k], kinds[k] = [True, v, fr, ([M.r(v - 0.1)], [M.r(v + 0.2)])], "fit"
            if rng.random() < 0.3:
                dd[k].append(True)
                if not F.interp_ok(dict(p, defdict=dd, kinds=kinds)):
                    dd[k].pop()
        p["defdict"], p["kinds"] = dd, kinds
        new = copy.deepcopy(dd)
        fit.defdict = new
        L.user.append(new), L.user_copy.append(copy.deepcopy(new))
        what, drop = f"defdict:{k}", True
    elif m in (6, 7):  # model definition with the same parameters
        p["func"] = bool(rng.random() < 0.5)
        for kind, s in (("V", p["V"]), ("SRF", p["SRF"])):
            if rng.random() < 0.6 and not F.spec_names(s):
                p[kind] = M.gen_spec(rng, kind, 2, 0.2, False, 0.5)
        for k in ("tau", "omega", "norm"):
            if isinstance(p[k], str) and rng.random() < 0.4:
                p[k] = f"({p[k]})*0.9"
            elif not isinstance(p[k], str):
                p[k] = M.r(rng.uniform(0.1, 0.5))
        new = F.set_func(p) if p["func"] else F.init_dict(p)
        fit.set_V_SRF = new
        what = "set_V_SRF"
    elif m == 8:
        p["lsq"] = dict(max_nfev=int(rng.integers(1, 4)), ftol=M.r(rng.uniform(1e-4, 1e-2), 5))
        fit.lsq_kwargs = dict(p["lsq"])
        what = "lsq_kwargs"
    elif m == 9:
        p["int_Q"] = fit.int_Q = not p["int_Q"]
        what = "int_Q"
    elif m == 10:
        L.backend = fit.lambda_backend = ["sympy", "symengine"][rng.integers(2)]
        what = "lambda_backend"
    elif m == 11:
        fit.performfit(**({} if rng.random() < 0.7 else dict(clear_cache=True)))
        L.res = {k: np.array(v, copy=True) for k, v in fit.res_dict.items()}
        # the same fit by a fresh object
        f = L.fresh()
        f.performfit()
        mon.event("fits")
        for k in L.res:
            mon.close(L.res[k], f.res_dict[k], "performfit-history", rtol=1e-6, atol=1e-9, msg=k)
        return "performfit"
    else:
        if L.res is None:
            ng = F.Ref(p, fit.dataset).ngroups
            L.res = {k: rng.uniform(0.2, 0.4, ng[k]) for k in fit._order}
        L.res = {k: np.asarray(v) * rng.uniform(0.95, 1.05, len(v)) for k, v in L.res.items()}
        fit.res_dict = copy.deepcopy(L.res)
        what = "res_dict"
    if drop:
        L.res = None
        fit.__dict__.pop("res_dict", None)
        fit.__dict__.pop("fit_output", None)
    return what


def fit_history(rng, mon, tier):
    n = int(rng.integers(1, 3))
    lives = []
    for _ in range(n):
        p = F.gen_problem(rng, int_Q=bool(rng.random() < 0.25), n_dates=int(rng.integers(2, 8)), nmax=2, interp=0.5)
        if p is None:
            raise Skip("nothing to fit")
        F.clean_for_interp(p)
        if lives and rng.random() < 0.3:  # a second object that shares the inputs
            p = copy.copy(lives[0].p)
            p["defdict"], p["kinds"] = copy.deepcopy(p["defdict"]), dict(p["kinds"])
        p["lsq"] = dict(max_nfev=int(rng.integers(1, 4)))
        lives.append(LiveFit(p, ["sympy", "symengine"][rng.integers(2)]))
    mon.note(problems=[F.note(L.p) for L in lives])
    ops, base = [], {}
    mon.note(ops=ops)
    with tempfile.TemporaryDirectory() as d:
        for step in range(int(rng.integers(5, 12))):
            i = int(rng.integers(n))
            L = lives[i]
            if rng.random() < 0.45:
                ops.append((i, fit_read(rng, mon, L, d)))
            else:
                ops.append((i, fit_write(rng, mon, L)))
                base.pop(i, None)
                if rng.random() < 0.5:
                    L.check(rng, mon, "fit-history", str(ops[-4:]))
            j = int(rng.integers(n))
            if j != i:
                now = lives[j].print()
                if j in base:
                    mon.event("other_object_checked")
                    p15.same(mon, base[j], now, "fit-other-object", str(ops[-3:]))
                base[j] = now
    mon.distinct(ops, lives[0].p["defdict"])
    for L in lives:
        L.check(rng, mon, "fit-history", "at the end of " + str(ops), deep=True)
        L.inputs_ok(mon)


def fit_series(rng, mon, tier):
    """one object that is used for a series of datasets; the parameters have re-appearing manual groups and are interpolated"""
    for _ in range(30):
        p = F.gen_problem(rng, int_Q=False, n_dates=int(rng.integers(3, 9)), nmax=2, interp=0.8, aux=0.1, fixed=0.1)
        if p is None:
            continue
        F.clean_for_interp(p)
        if any(len(d) >= 5 and d[4] is True for d in p["defdict"].values()):
            break
    else:
        raise Skip("nothing to interpolate")
    p["lsq"] = dict(max_nfev=2)
    L = LiveFit(p, "symengine")
    fit = L.fit
    mon.note(**F.note(p))
    ops = []
    mon.note(ops=ops)
    for step in range(int(rng.integers(2, 5))):
        if step:
            p["df"] = new_data(rng, p)
            if rng.random() < 0.5:  # other groups of an interpolated parameter
                q = dict(p, df=p["df"].copy())
                for k, d in p["defdict"].items():
                    if k + "_dyn" in q["df"] and "manual" in str(d[2:3]):
                        dates = q["df"].index.unique().sort_values()
                        q["df"][k + "_dyn"] = np.sort(q["df"][k + "_dyn"].values[: len(dates)])[rng.permutation(len(dates)) if rng.random() < 0.7 else slice(None)][dates.get_indexer(q["df"].index)]
                if F.interp_ok(q):
                    p["df"] = q["df"]
            L.res = None
            fit.__dict__.pop("res_dict", None)
            fit.__dict__.pop("fit_output", None)
            fit.dataset = L.give(p["df"])
            ops.append("dataset")
            mon.event("fit_ops")
        if rng.random() < 0.3:
            fit.performfit()
            L.res = {k: np.array(v, copy=True) for k, v in fit.res_dict.items()}
            ops.append("performfit")
        else:
            ng = F.Ref(p, fit.dataset).ngroups
            L.res = {k: rng.uniform(0.2, 0.4, ng[k]) for k in fit._order}
            fit.res_dict = copy.deepcopy(L.res)
            ops.append("res_dict")
        mon.event("series_steps")
        L.check(rng, mon, "fit-series", str(ops[-4:]), deep=True)
        # (the interpolation amplifies the resolution of the dates; the comparison with the fresh object above is exact)
        want = reference(fit, L)
        mon.close(fit.calc_model(return_components=False)["tot"].values, want, "fit-series-model", rtol=2e-4, atol=2e-4 * float(np.nanmax(np.abs(want))))
    mon.distinct(p["defdict"], ops)
    L.inputs_ok(mon)


def reference(fit, L):
    """independent model values in the order of fit.calc_model()"""
    m = F.Ref(L.p, fit.dataset)
    v = m.model(L.res)[:, 0]
    return np.concatenate([v[np.array(m.joint) == g] for g in dict.fromkeys(m.joint)])


SCENARIOS = [
    S("rt1_history", rt1_history, 70, 1500),
    S("fit_history", fit_history, 90, 1800),
    S("fit_series", fit_series, 50, 800),
]
