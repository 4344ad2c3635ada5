"""P24: configurations of a MultiFits behave like the same fits run alone; broadcasting is exact."""
import copy
import pickle

import numpy as np
import pandas as pd

from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P24"
LEVEL = "exploration"
RULE = (
    "2-4 random configurations (different scattering functions, definitions, units, temporal behaviour) on one shared dataset, attached in random order "
    "before or after the dataset is set, run through accessor callbacks, apply, or directly, with injected optimiser results or real fits.  Oracle: freshly "
    "created independent Fits on the same dataset (exact equality of results, predictions, parameter tables), call logs of broadcast calls, and before/after "
    "snapshots of every other configuration when one is changed.  Distinct by set of configurations."
)
MIN_EVENTS = {"configs": 60, "compared": 200, "broadcasts": 60, "real_fits": 6, "changed": 20, "dataset_changes": 15, "pickles": 10}

PROPS = ["inc", "data", "mask", "data_weights", "index", "_N_groups", "param_dyn_df", "fixed_dict"]


def gen_multi(rng, n_cfg, **kw):
    ps = []
    while len(ps) < n_cfg:
        p = F.gen_problem(rng, int_Q=kw.pop("int_Q", bool(rng.random() < 0.1)), nmax=2, n_dates=int(rng.integers(3, 8)), interp=0.2, **kw)
        if p is not None:
            ps.append(p)
    df = ps[0]["df"].copy()
    n = len(df)
    for p in ps[1:]:
        for k, kind in p["kinds"].items():
            if kind == "aux" and k not in df:
                df[k] = np.round(rng.uniform(0.15, 0.45, n), 5)
            d = p["defdict"][k]
            if kind == "fit" and len(d) > 2 and "manual" in str(d[2]) and k + "_dyn" not in df:
                df[k + "_dyn"] = rng.integers(0, int(rng.integers(1, n + 1)), n)
    for p in ps:
        p["df"] = df.copy()
    for p in ps:
        F.clean_for_interp(p)
    return ps, df


def state(fit, model=True):
    """everything a user can read from a fit"""
    out = {}
    for k in PROPS:
        v = getattr(fit, k)
        out[k] = v.to_dict("list") if isinstance(v, pd.DataFrame) else (
            {a: np.asarray(b).tolist() for a, b in v.items()} if isinstance(v, dict) else np.asarray(v).tolist())
    out["units"] = (fit.sig0, fit.dB, fit.int_Q, fit.lsq_kwargs)
    out["defdict"] = fit.defdict.to_dict()
    if getattr(fit, "res_dict", None):
        out["res"] = {k: np.asarray(v).tolist() for k, v in fit.res_dict.items()}
        out["res_df"] = fit.res_df.to_dict("list")
        if model:
            m = fit.calc_model(return_components=True)
            out["model"] = m.values.tolist()
            out["columns"] = list(m.columns)
            out["midx"] = [str(x) for x in m.index]
    return out


def same(mon, a, b, key, what):
    mon.event("compared")
    for k in a:
        if not mon.check(repr(a[k]) == repr(b.get(k)), key, f"{what}: {k} is {str(a[k])[:300]} alone, {str(b.get(k))[:300]} in the multi-fit"):
            return False
    return mon.equal(sorted(b), sorted(a), key, what)


def chooser(seed):
    r = np.random.default_rng(seed)
    return lambda c: F.draw(r, c)


def run_single(p, seed, real, **kw):
    f = F.make(p, **kw)
    if real:
        f.performfit()
    else:
        with hooks.capture(choose=chooser(seed)):
            f.performfit()
    return f


def build(rng, ps, df, names):
    from rt1.rtfits import MultiFits

    early = rng.random() < 0.5
    aux = pd.DataFrame(dict(q=[1.0, 2.0]))
    ra = dict(gpi=int(rng.integers(100)))
    mf = MultiFits(dataset=df.copy() if early else None, aux_data=aux if rng.random() < 0.5 else None, reader_arg=ra if rng.random() < 0.5 else None)
    for n, p in zip(names, ps):
        mf.add_config(n, F.make(p, dataset=p["df"].copy() if rng.random() < 0.3 else None))
    if not early:
        mf.set_dataset(df.copy())
    mf.set_aux_data(aux)
    mf.set_reader_arg(ra)
    return mf, aux, ra


def run_multi(rng, mon, mf, names, seeds, real):
    """run all fits in one of the documented ways; returns the number of optimiser calls"""
    mode = ["accessor", "apply", "direct", "accessor-kwargs", "partial"][rng.integers(5)]
    order = [str(x) for x in rng.permutation(names)]
    seen = []
    sd = dict(zip(names, seeds))

    def go(name, f):
        with hooks.capture(choose=None if real else chooser(sd[name])) as cap:
            f()
        seen.append((name, len(cap.calls)))

    if mode == "accessor":
        cbs = mf.accessor.performfit()
        mon.equal(sorted(cbs), sorted(names), "accessor-names")
        for n in order:
            go(n, cbs[n])
    elif mode == "accessor-kwargs":
        cbs = mf.accessor.performfit(print_progress=False)
        for n in order:
            go(n, cbs[n])
    elif mode == "apply":
        def f(fit, tag):
            mon.equal(tag, 42, "apply-arguments")
            go(fit.config_name, fit.performfit)
            return fit.config_name
        r = list(mf.apply(f, tag=42))
        mon.equal(r, [(n, n) for n in names], "apply-results")
    elif mode == "partial":
        k = int(rng.integers(1, len(names) + 1))
        first = order[:k]
        r = list(mf.apply(lambda fit: go(fit.config_name, fit.performfit), use_config=first if k > 1 or rng.random() < 0.5 else first[0]))
        mon.equal([a for a, _ in r], first, "apply-use_config")
        for n in order[k:]:
            go(n, mf.configs[n].performfit)
    else:
        for n in order:
            i = names.index(n)
            go(n, (mf.configs[i] if rng.random() < 0.5 else getattr(mf.configs, n)).performfit)
    mon.event("broadcasts")
    mon.equal(sorted(seen), sorted((n, 1) for n in names), "each-config-once", f"mode {mode}")
    return mode


def multi(rng, mon, tier):
    n_cfg = int(rng.integers(2, 5))
    real = rng.random() < 0.15
    ps, df = gen_multi(rng, n_cfg, **(dict(bsf=0.0, simple=True) if real else {}))
    if real:
        for p in ps:
            p["lsq"] = dict(max_nfev=4, ftol=1e-8)
            p["int_Q"] = False
        mon.event("real_fits")
    names = [str(x) for x in rng.permutation(["cfg", "a", "B2", "res_df", "dataset", "x_1", "performfit", "conf0"])[:n_cfg]]
    seeds = [int(x) for x in rng.integers(2**31, size=n_cfg)]
    mon.note(names=names, real=real, p0=F.note(ps[0]))
    mon.distinct(names, [p["defdict"] for p in ps], [p["V"] for p in ps], [p["SRF"] for p in ps])
    mon.event("configs", n_cfg)
    orig = df.copy()

    mf, aux, ra = build(rng, ps, df, names)
    mon.equal(mf.config_names, names, "config-names")
    mon.equal([f.config_name for f in mf.configs], names, "config-order")
    for f in mf.configs:
        mon.check(f.aux_data is aux and f.reader_arg == ra, "shared-attributes", f"aux_data / reader_arg of {f.config_name}")
    mode = run_multi(rng, mon, mf, names, seeds, real)
    mon.note(mode=mode)
    singles = {n: run_single(p, s, real, dataset=df.copy()) for n, p, s in zip(names, ps, seeds)}
    for n in names:
        same(mon, state(singles[n]), state(mf.configs[n]), "config-differs-from-single", n)
    # broadcast of calls with arguments and of properties
    comp = mf.accessor.calc_model(return_components=True)
    tot = mf.accessor.calc_model()
    incs = np.array([0.3, 0.8])
    for n in rng.permutation(names):
        n = str(n)
        s = singles[n]
        mon.close(comp[n]().values, s.calc_model(return_components=True).values, "accessor-kwargs", rtol=0, atol=0)
        mon.close(tot[n]().values, s.calc_model().values, "accessor-no-args", rtol=0, atol=0)
        par = {k: 0.31 for k, kd in ps[names.index(n)]["kinds"].items() if kd == "fit"}
        fx = {k: 0.27 for k, kd in ps[names.index(n)]["kinds"].items() if kd == "aux"}
        cb = mf.accessor.calc({k: 0.1 for k in par}, incs, fixed_param=fx or None)[n]
        mon.close(cb(par), s.calc(par, incs, fixed_param=fx or None), "callback-override", rtol=0, atol=0, msg="explicit argument of the callback is not used")
        mon.close(cb(), s.calc({k: 0.1 for k in par}, incs, fixed_param=fx or None), "callback-sticky", rtol=0, atol=0, msg="arguments of an earlier call are re-used")
        cb2 = mf.accessor.calc(par, incs, return_components=True, fixed_param=fx or None)[n]
        mon.close(np.asarray(cb2(return_components=False)), np.asarray(s.calc(par, incs, return_components=False, fixed_param=fx or None)), "callback-override", rtol=0, atol=0)
        mon.close(np.asarray(cb2()), np.asarray(s.calc(par, incs, fixed_param=fx or None)), "callback-sticky", rtol=0, atol=0)
        mon.event("broadcasts")
    for prop in ["sig0", "dB", "int_Q", "res_df", "inc", "defdict", "index", "dataset", "res_dict", "ID"]:
        try:
            got = getattr(mf.accessor, prop)
        except AttributeError:
            mon.check(prop in ("res_dict",), "accessor-property-missing", prop)  # (set on the objects only)
            continue
        if not mon.check(isinstance(got, dict) and sorted(got) == sorted(names), "accessor-property", f"{prop}: {str(got)[:200]}"):
            continue
        for n in names:
            a, b = got[n], getattr(singles[n], prop)
            if prop == "defdict":
                a, b = a.to_dict(), b.to_dict()
            if isinstance(a, pd.DataFrame):
                mon.check(a.equals(b), "accessor-property", f"{prop} of {n}")
            else:
                mon.check(str(a) == str(b), "accessor-property", f"{prop} of {n}: {str(a)[:100]} vs {str(b)[:100]}")
    mon.event("broadcasts")
    mon.check(df.equals(orig), "input-changed", "the dataset of the user is changed")
    # re-fetching the accessor or the configs gives the same objects
    mon.check(all(mf.configs[n] is getattr(mf.configs, n) is mf.configs[i] for i, n in enumerate(names)), "config-access")

    act = rng.random()
    if act < 0.45:
        change_one(rng, mon, mf, ps, names, seeds, real, df)
    elif act < 0.75:
        new_dataset(rng, mon, mf, ps, names, seeds, real, df)
    else:
        pickled(rng, mon, mf, names)


def change_one(rng, mon, mf, ps, names, seeds, real, df):
    """changing one configuration never affects another"""
    k = int(rng.integers(len(names)))
    before = {n: state(mf.configs[n]) for n in names}
    fit, p = mf.configs[names[k]], ps[k]
    p = dict(p, defdict=copy.deepcopy(p["defdict"]), lsq=dict(p["lsq"]))
    m = ["units", "defdict", "lsq", "entry", "results", "replace", "id"][rng.integers(7)]
    mon.note(change=(names[k], m))
    mon.event("changed")
    if m == "units":
        p["sig0"], p["dB"] = not p["sig0"], not p["dB"]
        fit.sig0, fit.dB = p["sig0"], p["dB"]
    elif m == "defdict":
        for q in p["defdict"].values():
            if q[0]:
                q[1] = q[1] + 0.01
        fit.defdict = copy.deepcopy(p["defdict"])
    elif m == "lsq":
        p["lsq"]["xtol"] = 1e-4
        fit.lsq_kwargs["xtol"] = 1e-4
    elif m == "entry":
        key = next(q for q, d in p["defdict"].items() if d[0])
        p["defdict"][key][1] += 0.013
        fit.defdict[key].val = p["defdict"][key][1]
    elif m == "results":
        for q in fit.res_dict:
            fit.res_dict[q] = np.asarray(fit.res_dict[q]) + 0.001
    elif m == "replace":
        mf.add_config(names[k], F.make(p, dataset=None))
        mon.equal(mf.config_names, names, "config-names", "after overwriting a configuration")
    else:
        fit.ID = "changed"
    for i, n in enumerate(names):
        if i != k:
            same(mon, before[n], state(mf.configs[n]), "other-config-changed", f"{m} of {names[k]} changes {n}")
    if m == "results":
        return
    with hooks.capture(choose=None if real else chooser(seeds[k])):
        mf.configs[names[k]].performfit()
    same(mon, state(run_single(p, seeds[k], real, dataset=df.copy())), state(mf.configs[names[k]]), "changed-config-differs", f"{m} of {names[k]}")
    for i, n in enumerate(names):
        if i != k:
            same(mon, before[n], state(mf.configs[n]), "other-config-changed", f"fit of {names[k]} after {m} changes {n}")


def new_dataset(rng, mon, mf, ps, names, seeds, real, df):
    """set_dataset, set_aux_data, set_reader_arg and set_ID reach every configuration"""
    mon.event("dataset_changes")
    n = len(df)
    m = rng.random()
    d2 = df.copy()
    if m < 0.4:
        u = pd.unique(df.index)
        keep = set(rng.permutation(u)[: max(2, len(u) - 1)])
        d2 = df[[x in keep for x in df.index]].copy()
    elif m < 0.7:
        d2["inc"] = np.round(df["inc"] + 0.003, 9)
        d2["sig"] = df["sig"] * 1.05
    else:
        d2 = d2.iloc[rng.permutation(n)]
        d2["sig"] = np.round(d2["sig"] * 0.93, 9)
    mf.set_dataset(d2.copy())
    aux2 = pd.DataFrame(dict(q=[5.0]))
    ra2 = dict(gpi=7, x="y")
    mf.set_aux_data(aux2)
    mf.set_reader_arg(ra2)
    mf.set_ID("site_9")
    mon.check(mf.dataset.sort_index(kind="stable").equals(mf.dataset) and len(mf.dataset) == len(d2), "dataset-sorted")
    for c in mf.configs:
        mon.check(c.dataset is mf.dataset, "dataset-reaches-all", c.config_name)
        mon.check(c.aux_data is aux2 and mf.aux_data is aux2, "aux-reaches-all", c.config_name)
        mon.check(c.reader_arg == ra2 and mf.reader_arg == ra2, "reader-arg-reaches-all", c.config_name)
        mon.equal(c.ID, "site_9", "id-reaches-all", c.config_name)
    mon.equal(mf.ID, "site_9", "id")
    for attr in ("dataset", "aux_data", "reader_arg", "ID"):
        try:
            setattr(mf, attr, None)
            mon.fail("direct-assignment-accepted", f"{attr} can be set on the container without reaching the configurations")
        except AttributeError:
            mon.event("checks")
    for nme, p, s in zip(names, ps, seeds):
        p2 = dict(p, df=d2)
        F.clean_for_interp(p2) if False else None
        ref = F.Ref(p2, d2.sort_index(kind="stable"))
        if any(ref.is_interp(k) for k in ref.fitted):
            # removing dates can make the interpolation ill-defined
            try:
                single = run_single(p2, s, real, dataset=d2.copy())
            except Exception:
                continue
        else:
            single = run_single(p2, s, real, dataset=d2.copy())
        with hooks.capture(choose=None if real else chooser(s)):
            mf.configs[nme].performfit()
        same(mon, state(single), state(mf.configs[nme]), "config-differs-from-single", f"{nme} after set_dataset")


def pickled(rng, mon, mf, names):
    """pickling / deep-copying keeps the configurations and separates them from the original"""
    import cloudpickle

    mon.event("pickles")
    before = {n: state(mf.configs[n]) for n in names}
    new = cloudpickle.loads(cloudpickle.dumps(mf)) if rng.random() < 0.6 else copy.deepcopy(mf)
    mon.equal(new.config_names, names, "config-names", "after pickling")
    for n in names:
        same(mon, before[n], state(new.configs[n]), "pickled-config-differs", n)
        mon.check(new.configs[n].dataset is new.dataset, "pickled-dataset-shared", n)
        mon.check(new.configs[n] is not mf.configs[n] and new.accessor.config_fits[n] is new.configs[n], "pickled-accessor", f"the accessor of a copy refers to other objects ({n})")
    new.configs[0].res_dict = {k: np.asarray(v) + 1 for k, v in new.configs[0].res_dict.items()}
    d2 = new.dataset.copy()
    d2["sig"] = d2["sig"] + 0.01
    new.set_dataset(d2)
    for n in names:
        same(mon, before[n], state(mf.configs[n]), "original-changed-by-copy", n)


def interface(rng, mon, tier):
    """names, access, refusals"""
    from rt1.rtfits import Fits, MultiFits

    mf = MultiFits()
    names = [str(x) for x in rng.permutation(["z", "a", "m1", "_q", "LONG_name_3", "résumé"])[: int(rng.integers(1, 6))]]
    mon.distinct(names)
    fits = {}
    for n in names:
        fits[n] = Fits(verbose=0, defdict={"x": [False, float(rng.uniform())]})
        mf.add_config(n, fits[n])
    mon.event("configs", len(names))
    for bad in ["1a", "a b", "", "a-b", "config_names", "configs"]:
        try:
            mf.add_config(bad, Fits(verbose=0))
            mon.fail("bad-name-accepted", bad)
        except AssertionError:
            mon.event("checks")
    mon.equal(mf.config_names, names, "config-names", "after refused names")
    mon.equal([f for f in mf.configs], [fits[n] for n in names], "config-order")
    for i, n in enumerate(names):
        mon.check(mf.configs[i] is fits[n] and mf.configs[n] is fits[n] and getattr(mf.configs, n) is fits[n], "config-access", n)
    for bad in [len(names), "nope", 1.5]:
        try:
            mf.configs[bad]
            mon.fail("bad-config-access", bad)
        except (AssertionError, AttributeError):
            mon.event("checks")
    log = []
    kw = {f"k{i}": object() for i in range(int(rng.integers(0, 3)))}
    use = None if rng.random() < 0.4 else [str(x) for x in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]]

    def f(fit, **k):
        log.append((fit.config_name, k))
        return (fit.config_name, 1)

    out = list(mf.apply(f, use_config=use, **kw))
    exp = names if use is None else use
    mon.equal([a for a, _ in log], exp, "apply-calls")
    mon.check(all(k == kw for _, k in log), "apply-arguments")
    mon.equal(out, [(n, (n, 1)) for n in exp], "apply-results")
    mon.event("broadcasts")
    n0 = names[rng.integers(len(names))]
    mon.equal(list(mf.apply(f, use_config=n0)), [(n0, (n0, 1))], "apply-single")
    # two containers do not share anything
    mf2 = MultiFits()
    mf2.add_config("only", Fits(verbose=0))
    mon.equal(list(mf2.accessor.ID), ["only"], "containers-independent")
    mon.equal(list(mf.accessor.ID), names, "containers-independent")
    mon.equal(list(mf.accessor.performfit()), names, "containers-independent")


SCENARIOS = [
    S("multi", multi, 80, 1600),
    S("interface", interface, 24, 200),
]
