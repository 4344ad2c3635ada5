"""P15: dump/load, pickle, deepcopy and reinit of (multi-)fits give equivalent fits and leave the original alone."""
import copy
import os
import pickle
import tempfile

import cloudpickle
import numpy as np
import pandas as pd

from . import core
from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P15"
LEVEL = "exploration"
RULE = (
    "Random fits (definition as dict or function, every variability, with and without interaction and explicit functions) and multi-configuration fits, "
    "before and after performfit; sequences of dump(mini or full)/load, pickle, deepcopy, copy and reinit_object, including failing dumps.  Oracle: a "
    "fingerprint of settings, dataset, results, predictions, internal arrays and the residual/jacobian given to the optimiser, taken before and after.  "
    "Distinct by problem and representation."
)
MIN_EVENTS = {"dump_mini": 30, "dump_full": 30, "deepcopy": 30, "pickle": 20, "reinit": 60, "multi": 20, "failed_dump": 15, "unfitted": 10, "interaction": 15}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def fingerprint(fit, deep=True):
    """everything observable of a single fit"""
    o = dict(sig0=fit.sig0, dB=fit.dB, int_Q=fit.int_Q, lambda_backend=fit.lambda_backend, verbose=fit.verbose, ID=fit.ID,
             lsq=plain(fit.lsq_kwargs), defdict=plain(fit.defdict.to_dict()),
             df=fit.dataset.to_dict("list"), index=[str(x) for x in fit.dataset.index], idxname=fit.dataset.index.name)
    if not callable(fit.set_V_SRF):
        o["set_V_SRF"] = plain(fit.set_V_SRF)
    if hasattr(fit, "config_name"):
        o["config_name"] = fit.config_name
    for a in ("aux_data", "reader_arg"):
        v = getattr(fit, a, None)
        o[a] = v.to_dict("list") if isinstance(v, pd.DataFrame) else plain(v)
    o["inc"], o["mask"] = np.asarray(fit.inc).tolist(), np.asarray(fit.mask).tolist()
    o["dyn"] = {k: list(v) for k, v in fit.param_dyn_dict.items()}
    if hasattr(fit, "res_dict"):
        o["res_dict"] = {k: list(v) for k, v in fit.res_dict.items()}
        cc = fit.calc_model(return_components=True)
        o["model"] = cc.to_dict("list")
        o["model_index"] = [str(x) for x in cc.index]
        o["res_df"] = fit.res_df.to_dict("list")
        fo = getattr(fit, "fit_output", None)
        if fo is not None:
            o["success"] = [fo.get(k, fo.get("fit_" + k)) for k in ("success", "status", "optimality")]
    if deep:  # what a repeated fit would do
        st = np.random.default_rng(5)
        keep = {k: fit.__dict__.get(k) for k in ("res_dict", "fit_output")}
        had = "res_dict" in fit.__dict__
        seen = {}

        def choose(c):
            x = F.draw(st, c)
            seen.update(x0=c.x0.tolist(), lo=list(c.lohi()[0]), hi=list(c.lohi()[1]), fun=np.array(c.fun(x.copy())).tolist(),
                        jac=np.asarray(c.jac(x).toarray() if hasattr(c.jac(x), "toarray") else c.jac(x)).tolist(),
                        kw={k: plain(v) for k, v in c.kwargs.items()})
            return x

        with hooks.capture(choose=choose):
            fit.performfit()
        o["again"] = seen
        if had:
            fit.res_dict, fit.fit_output = keep["res_dict"], keep["fit_output"]
        else:
            del fit.res_dict, fit.fit_output
            fit.__dict__.pop("_RT1_version", None)
    return o


def same(mon, a, b, key, msg, ignore=()):
    """compare two fingerprints; numbers of models to 1e-11 relative"""
    ks = (set(a) | set(b)) - set(ignore)
    ok = True
    for k in sorted(ks):
        if k not in a or k not in b:
            ok = mon.check(False, f"{key}-{k}", f"{msg}: {k} only on one side")
            continue
        ok &= mon.check(close(a[k], b[k]), f"{key}-{k}", f"{msg}: {k} was {core.short(a[k])} and is {core.short(b[k])}")
    return ok


def close(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        if len(a) > 3 and all(isinstance(x, float) for x in (*a, *b)):
            return bool(np.allclose(np.array(a, float), np.array(b, float), rtol=1e-11, atol=1e-13, equal_nan=True))
        return all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-13 + 1e-11 * abs(a)
    return bool(a == b) and isinstance(a, bool) == isinstance(b, bool)


def mk(rng, mon, int_Q=None, **kw):
    p = F.gen_problem(rng, int_Q=bool(rng.random() < 0.35) if int_Q is None else int_Q, n_dates=int(rng.integers(2, 6)), nmax=2, **kw)
    if p is None:
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    p["lsq"] = dict(max_nfev=int(rng.integers(1, 4)), ftol=1e-5) if rng.random() < 0.8 else dict(max_nfev=2)
    if rng.random() < 0.4:  # arguments that are no numbers
        p["lsq"].update([dict(gtol=None), dict(x_scale="jac"), dict(tr_options=dict(regularize=False)), dict(kwargs={}, args=[]), dict(gtol=None, tr_solver=None, x_scale="jac")][rng.integers(5)])
    mon.event("interaction", int(p["int_Q"]))
    args = dict(ID=["fit_1", 7, "x-y", "site"][rng.integers(4)], verbose=int(rng.integers(0, 1)))
    if rng.random() < 0.3:
        args["lambda_backend"] = ["sympy", "symengine", "sympy"][rng.integers(3)]
    if rng.random() < 0.25:  # rows already in the order of the dates
        p["df"] = p["df"].sort_index()
    return p, F.make(p, **args)


def roundtrip(rng, mon, obj, dirname, multi=False):
    """one random representation; returns (name, copy, mini)"""
    import rt1.rtfits as rf

    m = rng.random()
    path = os.path.join(dirname, f"f{rng.integers(10**9)}.dump")
    if m < 0.3:
        mon.event("dump_mini")
        obj.dump(path) if rng.random() < 0.5 else obj.dump(path, mini=True)
        return "dump-mini", rf.load(path), True
    if m < 0.6:
        mon.event("dump_full")
        obj.dump(path, mini=False)
        return "dump-full", rf.load(path), False
    if m < 0.8:
        mon.event("deepcopy")
        return "deepcopy", copy.deepcopy(obj), False
    mon.event("pickle")
    return "pickle", pickle.loads(cloudpickle.dumps(obj)), False


def single(rng, mon, tier):
    p, fit = mk(rng, mon)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], p["func"])
    fitted = rng.random() < 0.8
    mon.event("unfitted", int(not fitted))
    if rng.random() < 0.3:
        fit.aux_data = pd.DataFrame(dict(q=rng.uniform(0, 1, 3)), index=pd.date_range("2020-01-01", periods=3))
    if rng.random() < 0.3:
        fit.reader_arg = dict(gpi=int(rng.integers(100)))
    if fitted:
        fit.performfit()
    with tempfile.TemporaryDirectory() as d:
        a = fingerprint(fit, deep=rng.random() < 0.5)
        deep = "again" in a
        obj, gen = fit, 0
        for _ in range(int(rng.integers(1, 4))):
            name, new, mini = roundtrip(rng, mon, obj, d)
            same(mon, a, fingerprint(new, deep), name, f"generation {gen + 1}")
            same(mon, a, fingerprint(fit, deep), "original-after-" + name, "the original")
            mon.check("_rt1_dump_mini" not in fit.__dict__, "dump-marker-left", "the original is still marked for a minimal dump")
            if mini and fitted and obj is fit:
                mon.check(hasattr(fit.fit_output, "jac"), "original-stripped", "the fit-output of the original is gone after a minimal dump")
            obj, gen = new, gen + 1
        # a copy is independent
        new.sig0 = not new.sig0
        k = next(k for k, kd in p["kinds"].items() if kd == "fit")
        new.defdict[k][1] = 0.123
        if not callable(new.set_V_SRF):
            new.set_V_SRF["V_props"]["tau"] = 0.77
        new.lsq_kwargs["max_nfev"] = 77
        if hasattr(new, "res_dict"):
            new.res_dict[k] = list(np.asarray(new.res_dict[k]) + 0.01)
        same(mon, a, fingerprint(fit, deep), "copy-not-independent", "the original after changing the copy")


def failing(rng, mon, tier):
    """a dump that cannot be written leaves the fit unchanged"""
    p, fit = mk(rng, mon, int_Q=False)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], "failing")
    fit.performfit()
    a = fingerprint(fit, False)
    keys = set(fit.__dict__)
    obj = fit
    if rng.random() < 0.4:
        from rt1.rtfits import MultiFits

        obj = MultiFits(dataset=fit.dataset)
        obj.add_config("c0", fit)
        obj.add_config("c1", F.make(p))
        keys = set(fit.__dict__)
        a = fingerprint(fit, False)
    with tempfile.TemporaryDirectory() as d:
        mon.event("failed_dump")
        try:
            obj.dump(os.path.join(d, "missing", "x.dump"), mini=bool(rng.random() < 0.8))
            mon.fail("no-error", "dump to a missing directory did not raise")
        except OSError:
            pass
        mon.equal(sorted(set(fit.__dict__) - {"_RT1_version"}), sorted(keys - {"_RT1_version"}), "attributes-after-failed-dump")
        full = pickle.loads(cloudpickle.dumps(fit))
        mon.check(hasattr(full.fit_output, "jac"), "pickle-after-failed-dump-stripped", "a later full copy is incomplete")
        same(mon, a, fingerprint(fit, False), "after-failed-dump", "the fit")
        same(mon, a, fingerprint(full, False), "copy-after-failed-dump", "the copy")


def reinit(rng, mon, tier):
    p, fit = mk(rng, mon)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], "reinit")
    if rng.random() < 0.6:
        fit.performfit()
    if rng.random() < 0.5:
        fit.aux_data = pd.DataFrame(dict(q=rng.uniform(0, 1, 3)), index=pd.date_range("2020-01-01", periods=3))
    res = ("res_dict", "model", "res_df", "success", "model_index", "reader_arg")
    a = fingerprint(fit)
    mon.event("reinit")
    b = fingerprint(fit.reinit_object())
    same(mon, a, b, "reinit", "same settings", ignore=res)
    c = fit.reinit_object(share_auxdata=False)
    mon.check(getattr(c, "aux_data", None) is None, "reinit-auxdata", "aux_data is shared though it must not")
    # changed settings equal a fresh object with these settings
    ch = {}
    q = dict(p)
    if rng.random() < 0.5:
        ch["sig0"] = q["sig0"] = not p["sig0"]
    if rng.random() < 0.5:
        ch["dB"] = q["dB"] = not p["dB"]
    if rng.random() < 0.3:
        ch["int_Q"] = q["int_Q"] = not p["int_Q"]
    if rng.random() < 0.4:
        q["lsq"] = ch["lsq_kwargs"] = dict(max_nfev=9)
    if rng.random() < 0.4:
        q["defdict"] = copy.deepcopy(p["defdict"])
        k = next(k for k, kd in p["kinds"].items() if kd == "fit")
        q["defdict"][k][1] = M_r(q["defdict"][k][1] + 0.003)
        ch["defdict"] = q["defdict"]
    if rng.random() < 0.3:
        ch["ID"] = "other"
    if rng.random() < 0.3:
        df = p["df"].iloc[rng.permutation(len(p["df"]))[: max(2, len(p["df"]) - 1)]]
        ch["dataset"] = q["df"] = df
    mon.note(change=sorted(ch))
    mon.event("reinit")
    new = fit.reinit_object(**ch)
    fresh = F.make(q, lambda_backend=fit.lambda_backend, ID=ch.get("ID", fit.ID))
    if "ID" not in ch:
        fresh._ID = fit.ID
    if "dataset" not in ch:
        fresh.dataset = fit.dataset
    if hasattr(fit, "aux_data"):
        fresh.aux_data = fit.aux_data
    if new.dataset.index.duplicated().any():
        fresh.dataset = new.dataset
    same(mon, fingerprint(fresh), fingerprint(new), "reinit-changed", "re-initialised with " + ",".join(ch))
    same(mon, a, fingerprint(fit), "original-after-reinit", "the original")
    # the definitions are copied
    k = next(k for k, kd in p["kinds"].items() if kd == "fit")
    new.defdict[k][1] = 0.111
    new.lsq_kwargs["ftol"] = 0.5
    if not callable(new.set_V_SRF):
        new.set_V_SRF["V_props"]["omega"] = 0.01
    same(mon, a, fingerprint(fit), "reinit-not-independent", "the original after changing the new fit")


def M_r(x):
    return float(np.round(x, 4))


def multi(rng, mon, tier):
    from rt1.rtfits import MultiFits

    mon.event("multi")
    p0, f0 = mk(rng, mon, aux=0.0)
    mf = MultiFits(dataset=p0["df"], reader_arg=dict(gpi=3), aux_data=pd.DataFrame(dict(q=[1.0, 2.0]), index=pd.date_range("2020", periods=2)) if rng.random() < 0.5 else None)
    n = int(rng.integers(1, 4))
    fits = {}
    for i in range(n):
        q = dict(p0, defdict=copy.deepcopy(p0["defdict"]), func=bool(rng.random() < 0.5), int_Q=bool(p0["int_Q"] and rng.random() < 0.6))
        for k, d in q["defdict"].items():
            if q["kinds"][k] == "fit":
                d[1] = M_r(d[1] + 0.002 * i)
        f = F.make(q)
        fits[f"cfg_{i}"] = f
        mf.add_config(f"cfg_{i}", f)
    mon.note(n=n, **F.note(p0))
    mon.distinct(p0["defdict"], n, "multi")
    if rng.random() < 0.8:
        for f in mf.configs:
            f.performfit()
    a = {nm: fingerprint(f) for nm, f in mf.accessor.config_fits.items()}
    with tempfile.TemporaryDirectory() as d:
        obj = mf
        for _ in range(int(rng.integers(1, 3))):
            name, new, mini = roundtrip(rng, mon, obj, d, True)
            mon.equal(list(new.config_names), list(mf.config_names), name + "-config-names")
            got = new.accessor.config_fits
            mon.equal(list(got), list(a), name + "-configs")
            for nm in a:
                same(mon, a[nm], fingerprint(got[nm]), name + "-config", nm)
                same(mon, a[nm], fingerprint(mf.configs[nm]), "original-after-" + name, nm)
                mon.check(got[nm].dataset.equals(new.dataset), name + "-shared-dataset", nm)
                mon.check("_rt1_dump_mini" not in mf.configs[nm].__dict__, "dump-marker-left", nm)
            mon.equal(plain(new.reader_arg), plain(mf.reader_arg), name + "-reader_arg")
            mon.equal(new.ID, mf.ID, name + "-ID")
            obj = new


SCENARIOS = [
    S("single", single, 60, 1000),
    S("failing", failing, 18, 150),
    S("reinit", reinit, 50, 800),
    S("multi", multi, 24, 300),
]
