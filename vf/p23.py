"""P23: exports contain exactly the fitted results."""
import os
import types

import numpy as np
import pandas as pd

from . import fitmodels as F
from . import proc
from .core import S
from .p22 import textbook
from .storecheck import part

ID = "P23"
LEVEL = "exploration"
RULE = (
    "A random configuration is processed for several sites (data with unsorted and repeated dates, auxiliary columns, single and multiple configurations), then exported one to three times by one "
    "RTprocess object with random parameter selections (data columns, dynamic, static, constant and auxiliary parameters, model components, reader arguments, own functions returning series, frames and "
    "numbers), metrics, units, configurations, numbers of files and workers, from the store or the dump-files.  Every exported row is compared with an evaluation of the model for that observation and with "
    "the loaded fit; sites, tables, columns and dates must be exactly the requested ones.  Distinct by configuration and request."
)
MIN_EVENTS = {"exports": 10, "sites-compared": 30, "columns": 100, "model-columns": 20, "static": 20, "metrics": 10, "dumps": 1, "multi": 2, "repeated-dates": 5, "partial": 1, "sessions": 4, "continued": 1, "finalout": 3, "default-name": 1, "switched": 1}

FUN = '''
def f_series(fit):
    return fit.dataset.sig * 2

def f_frame(fit):
    return pd.DataFrame(dict(whatever=fit.dataset.inc + 1))

def f_two(fit):
    return pd.DataFrame(dict(two_a=fit.dataset.inc + 3, two_b=fit.dataset.sig - 1))

def f_number(fit):
    return float(len(fit.dataset)) + 0.5

def f_npnum(fit):
    return np.float64(fit.dataset.inc.max())

def f_int(fit):
    return len(fit.dataset)

def f_post(fit):
    return pd.DataFrame(dict(n=[len(fit.dataset)], s=[float(fit.dataset.sig.sum())]), index=pd.Index([fit._RT1_ID_num], name="ID"))
'''
FUNCS = {"ser": "f_series", "frm": "f_frame", "two": "f_two", "num": "f_number", "npn": "f_npnum", "int": "f_int"}
METRICS = ["rmsd", "bias", "mae", "pearson", "RMSD"]


def request(rng, cfg):
    p0 = cfg["defs"][0]
    pool = ["sig", "inc", "tot", "surf", "vol", "tag", "inter", *p0, *p0, *cfg["data"]["extra"], *(k + "_dyn" for k in cfg["data"]["dyn"]), *(["data_weights"] if cfg["data"]["weights"] else [])]
    pars = list(dict.fromkeys(str(x) for x in rng.permutation(pool)[: int(rng.integers(1, 9))]))
    fun = {}
    for k in FUNCS:
        if rng.random() < 0.2:
            fun[k] = FUNCS[k]
            if rng.random() < 0.85:
                pars.append(k)
    if rng.random() < 0.2:  # replaces the default
        k = ["sig", "tot", "omega", "inc"][rng.integers(4)]
        fun[k] = "f_series"
        if k not in pars:
            pars.append(k)
    met = {}
    for j in range(int(rng.integers(0, 3))):
        met[f"m{j}"] = [str(rng.choice(METRICS)), *[str(x) for x in rng.permutation(["sig", "tot", "surf", "vol"])[:2]]]
    if rng.random() < 0.25:
        met["mc"] = "custom"
        fun["mc"] = "f_number"
    kw = dict(parameters=[str(x) for x in rng.permutation(pars)])
    if met:
        kw["metrics"] = met
    if fun:
        kw["export_functions"] = fun
    if rng.random() < 0.4:
        kw["sig_to_dB"] = True
    if rng.random() < 0.4:
        kw["inc_to_degree"] = True
    if rng.random() < 0.2:
        kw["pre_evaluate_fn_coefs"] = False
    kw["ncpu"] = int(rng.integers(1, 4))
    kw["create_index"] = bool(rng.random() < 0.3)
    kw["logfile_level"] = [None, 21][rng.integers(2)]
    return kw


def expect(cfg, fit, kw, ra):
    """(dynamic {column: values}, static {name: value}, metrics {name: value})"""
    df = fit.dataset
    defs = fit.defdict.to_dict()
    p = dict(V=dict(cfg["V"], kind="V"), SRF=dict(cfg["SRF"], kind="SRF"), tau="tau", omega="omega", norm=cfg["norm"], int_Q=fit.int_Q)
    vals = {}
    for k, d in defs.items():
        vals[k] = np.asarray(fit.res_df[k].reindex(df.index)) if d[0] else (df[k].values if d[1] == "auxiliary" else np.full(len(df), float(d[1])))
    rows = [{k: float(v[i]) for k, v in vals.items()} for i in range(len(df))]
    comp = np.array([F.components(p, v, inc) for v, inc in zip(rows, df["inc"])])
    lin = F.to_units(comp, df["inc"].values[:, None], fit.sig0, False)
    model = dict(zip(["tot", "surf", "vol", "inter"], (10 * np.log10(lin) if fit.dB else lin).T))
    fun = kw.get("export_functions") or {}
    own = dict(f_series=dict(x=df.sig.values * 2), f_frame=dict(x=df.inc.values + 1), f_two=dict(two_a=df.inc.values + 3, two_b=df.sig.values - 1))
    num = dict(f_number=len(df) + 0.5, f_npnum=df.inc.max(), f_int=len(df))
    todB = kw.get("sig_to_dB", False) and not fit.dB
    dyn, stat, once = {}, {}, set()
    for k in kw["parameters"]:
        if k in fun:
            f = fun[k]
            if f in num:
                stat[k] = num[f]
            else:
                dyn.update(own[f] if f == "f_two" else {k: own[f]["x"]})
        elif k in model:
            dyn[k] = 10 * np.log10(model[k]) if todB else model[k]
        elif k == "sig":
            dyn[k] = 10 * np.log10(df.sig.values) if todB else df.sig.values
        elif k == "inc":
            dyn[k] = np.rad2deg(df.inc.values) if kw.get("inc_to_degree") else df.inc.values
        elif k in defs:
            d = defs[k]
            if d[0] and d[2] is None:
                stat[k] = float(np.ravel(fit.res_dict[k])[0])
            elif d[0]:
                dyn[k] = vals[k]
                once.add(k)
            elif d[1] == "auxiliary":
                dyn[k] = df[k].values
            else:
                stat[k] = d[1]
        elif k in df:
            dyn[k] = df[k].values
        elif k in ra:
            stat[k] = ra[k]
    met = {}
    for nm, m in (kw.get("metrics") or {}).items():
        if m == "custom":
            met[nm] = num[fun[nm]]
        else:
            a, b = [df.sig.values if x == "sig" else model[x] for x in m[1:]]
            met[nm] = textbook(a, b)[m[0].lower()]
    if dyn and set(dyn) == once:  # only parameters: one row for each date
        first = ~df.index.duplicated()
        dyn = {k: v[first] for k, v in dyn.items()}
        return dyn, stat, met, list(df.index[first])
    return dyn, stat, met, list(df.index)


def check_export(mon, cfg, kw, T, use, fits, names):
    """T: exported tables, use: the sites that must be there, fits: {site: {config: Fits}}"""
    ra = T.get("reader_arg")
    if not mon.check(ra is not None, "lost", f"no sites exported: {sorted(T)}"):
        return
    got = [str(x) for x in ra["ID"]]
    if isinstance(use, int):
        mon.check(len(got) == use and len(set(got)) == use and set(got) <= {str(i) for i in fits}, "sites", f"{got} instead of {use} sites")
        use = [i for i in fits if str(i) in got]
    else:
        mon.equal(sorted(got), sorted(map(str, use)), "sites")
    mon.check(ra.index.is_unique, "numbers", f"{list(ra.index)}")
    nums = {str(r): int(n) for n, r in zip(ra.index, ra["ID"])}
    want_tables = {"reader_arg"}
    for c in names:
        exp = {i: expect(cfg, fits[i][c], kw, proc.Box.arg(i)) for i in use if str(i) in nums}
        for t, j in (("dynamic", 0), ("static", 1), ("metrics", 2)):
            need = {i: e[j] for i, e in exp.items() if e[j]}
            key = f"{c}/{t}"
            if not need:
                continue
            want_tables.add(key)
            if not mon.check(key in T, f"{t}:table", f"no table {key} in {sorted(T)}"):
                continue
            df = T[key]
            mon.equal(sorted({int(x) for x in df.index.get_level_values(0)}), sorted(nums[str(i)] for i in need), f"{t}:sites", key)
            for i, want in need.items():
                mon.event("sites-compared", int(j == 0))
                rows = part(T, key, nums[str(i)])
                if not mon.equal(sorted(map(str, rows.columns)), sorted(want), f"{t}:columns", f"{key} of {i}"):
                    continue
                if j == 0:
                    dates = exp[i][3]
                    if not mon.check(sorted(rows.index) == sorted(dates), "dynamic:dates", f"{key} of {i}: {len(rows)} rows {list(rows.index)[:5]} instead of {len(dates)}"):
                        continue
                    mon.event("repeated-dates", int(len(set(dates)) < len(dates)))
                    mon.event("unsorted", int(sorted(dates) != dates))
                    mon.event("columns", len(want))
                    mon.event("model-columns", sum(k in want for k in ("tot", "surf", "vol", "inter")))
                    # rows of equal dates in the order of the dataset
                    a, b = rows.index.argsort(kind="stable"), pd.Index(dates).argsort(kind="stable")
                    for k, v in want.items():
                        mon.close(rows[k].values[a], np.asarray(v)[b], f"dynamic:{'model' if k in ('tot', 'surf', 'vol', 'inter') else 'values'}", rtol=1e-6, atol=1e-9, msg=f"{k} of {i} in {key}")
                else:
                    if not mon.equal(len(rows), 1, f"{t}:rows", f"{key} of {i}"):
                        continue
                    mon.event(t, len(want))
                    for k, v in want.items():
                        g = rows.iloc[0][k]
                        if isinstance(v, str):
                            mon.equal(g, v, f"{t}:values", f"{k} of {i} in {key}")
                        else:
                            mon.close(float(g), float(v), f"{t}:values", rtol=1e-6, atol=1e-7, msg=f"{k} of {i} in {key}")
    extra = sorted(k for k in T if k not in want_tables)
    mon.check(not extra, "extra-tables", f"unexpected tables {extra}")


def load_all(b, cfg, ids, dumps, folder="dump01"):
    """{site: {config: Fits}} as stored"""
    from rt1.rtresults import RTresults

    r = RTresults(os.path.join(b.dir, "out", folder), use_dumps=dumps)[folder]
    out = {}
    try:
        for i in ids:
            f = r.load_fit(str(i) if dumps or str(i).isidentifier() else f"RT1_{i}")
            out[i] = {n: f.configs[n] for n in cfg["names"]} if cfg["names"] else {"default": f}
    finally:
        if not dumps:
            r.fit_db.close()
    return out


def export_case(rng, mon, tier):
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 1, 2, 3])), int_Q=0.3)
    cfg["data"]["datekeys"] = True
    n = int(rng.integers(2, 5))
    m = rng.integers(3)
    ids = [int(x) for x in rng.permutation(40)[:n]]
    if m == 0:
        ids = [f"site_{x}" for x in ids]
    elif m == 1:
        ids = [f"{x}b" for x in ids]
    dumps = bool(rng.random() < 0.3)
    steps, info = [], []
    for j in range(int(rng.integers(1, 3))):
        kw = request(rng, cfg)
        kw["finalout_name"] = f"out{j}.h5"
        use, names = ids, cfg["names"] or ["default"]
        if cfg["names"] and rng.random() < 0.5:
            names = [str(x) for x in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]]
            kw["use_config"] = names[0] if len(names) == 1 and rng.random() < 0.5 else names
        if dumps:
            kw["use_dumps"] = True
        if rng.random() < 0.3:
            use = kw["use_nfiles"] = int(rng.integers(1, n + 1))
            mon.event("partial")
        steps.append(dict(call="export_data_to_HDF", kwargs=kw))
        info.append((kw, use, names, kw["finalout_name"]))
        if isinstance(use, int) and rng.random() < 0.5:  # in pieces
            kw2 = {k: v for k, v in kw.items() if k != "use_nfiles"}
            steps.append(dict(call="export_data_to_HDF", kwargs=kw2))
            info[-1] = (kw2, ids, names, kw["finalout_name"])
    mon.note(ids=ids, names=cfg["names"], dumps=dumps, steps=steps, text=cfg["text"])
    mon.distinct(cfg["text"], steps)
    mon.event("multi", int(bool(cfg["names"])))
    with proc.Box(cfg, funcs=FUN) as b:
        res, msg = b.process(ids, ncpu=2, dump_fit=dumps or bool(rng.random() < 0.2))
        if not mon.check(res == "ok", f"run:{res}", f"{res} {msg}\n{b.log()}"):
            return
        before = b.tables()
        mon.event("dumps", int(dumps))
        res, msg = b.run(op="session", steps=steps, timeout=300)
        mon.event("exports", len(steps))
        if not mon.check(res == "ok", f"export:{res}", f"{res} {msg}\n{b.log()}"):
            return
        out = __import__("json").load(open(os.path.join(b.dir, f"job{b.n}.json.out")))
        mon.check(all(out["steps"]), "arguments-changed", "the arguments of an export were modified")
        fits = load_all(b, cfg, ids, dumps)
        for kw, use, names, fn in info:
            path = os.path.join(b.dir, "out", "dump01", "results", fn)
            if not mon.check(os.path.exists(path), "file", f"{fn} was not written\n{b.log()}"):
                continue
            check_export(mon, cfg, kw, b.tables(path), use, fits, names)
        after = b.tables()
        mon.check(sorted(before) == sorted(after) and all(before[k].equals(after[k]) for k in before), "store-changed", "the processed fits have changed")


def session_case(rng, mon, tier):
    """processing, exports and own postprocessing in turns with one RTprocess object"""
    cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])), int_Q=0.2)
    cfg["data"]["datekeys"] = True
    names = cfg["names"] or ["default"]
    pool = [f"s{x}" for x in rng.permutation(40)[:8]]
    sites, folder = {"dump01": []}, "dump01"
    steps, info, default = [], [], set()
    nstep = int(rng.integers(4, 7))
    switch = int(rng.integers(2, nstep)) if rng.random() < 0.4 else -1
    for j in range(nstep):
        r = rng.random()
        if j == switch:  # other result folder
            folder = "dump_2"
            sites[folder] = []
            steps.append(dict(call="override_config", kwargs=dict(override=bool(rng.random() < 0.5), PROCESS_SPECS=dict(dumpfolder=folder))))
        done = sites[folder]
        if not done or (r < 0.35 and len(done) < 5):
            k = sum(map(len, sites.values()))
            new = pool[k : k + int(rng.integers(1, 3))]
            if new:
                sites[folder] = done + new
                steps.append(dict(call="run_processing", kwargs=dict(ncpu=int(rng.integers(1, 3)), reader_args=[proc.Box.arg(i) for i in new], dump_fit=True, logfile_level=[None, 21][rng.integers(2)])))
            continue
        fn = f"out{j}.h5"
        kw = dict(finalout_name=fn, use_dumps=bool(rng.random() < 0.4), ncpu=int(rng.integers(1, 3)), create_index=bool(rng.random() < 0.3), logfile_level=[None, 21][rng.integers(2)])
        if rng.random() < 0.4 and folder not in default:  # the name of the configuration
            del kw["finalout_name"]
            default.add(folder)
            fn = "results.h5"
            mon.event("default-name")
        if r < 0.7:
            kw = dict(request(rng, cfg), **kw)
            steps.append(dict(call="export_data_to_HDF", kwargs=kw))
        else:
            kw["postprocess"] = "f_post"
            steps.append(dict(call="run_finaloutput", kwargs=kw))
        info.append((kw, list(done), folder, fn))
    mon.note(ids=pool, names=cfg["names"], steps=steps, text=cfg["text"])
    mon.distinct(cfg["text"], steps)
    with proc.Box(cfg, funcs=FUN) as b:
        res, msg = b.run(op="session", steps=steps, timeout=400)
        mon.event("sessions")
        mon.event("continued", int(any(s["call"] == "run_processing" for s in steps[2:])))
        mon.event("switched", int(len(sites) > 1))
        if not mon.check(res == "ok", f"session:{res}", f"{res} {msg}\n{b.log()}"):
            return
        fits = {}
        for f, done in sites.items():
            T = b.tables(os.path.join(b.dir, "out", f, "results", "fit_db.h5"))
            mon.equal(sorted(map(str, T["reader_arg"]["ID"])) if T else [], sorted(done), "session:sites", f"sites in the store of {f}")
            fits[f] = load_all(b, cfg, done, False, f) if done else {}
        for kw, use, f, fn in info:
            path = os.path.join(b.dir, "out", f, "results", fn)
            if not mon.check(os.path.exists(path), "file", f"{f} {fn} was not written\n{b.log()}"):
                continue
            T = b.tables(path)
            if "postprocess" not in kw:
                check_export(mon, cfg, kw, T, use, fits[f], names)
                continue
            mon.equal(sorted(T), sorted(["reader_arg", *names]), "finalout:tables")
            mon.equal(sorted(map(str, T["reader_arg"]["ID"])), sorted(use), "finalout:sites")
            nums = {str(r): int(n) for n, r in zip(T["reader_arg"].index, T["reader_arg"]["ID"])}
            for c in names:
                got = {int(i): (int(r["n"]), float(r["s"])) for i, r in T[c].iterrows()}
                mon.equal(len(T[c]), len(use), "finalout:rows", c)
                for i in use:
                    df = fits[f][i][c].dataset
                    mon.event("finalout")
                    if mon.check(nums.get(i) in got, "finalout:sites", f"no result of {i} in {c}"):
                        mon.equal(got[nums[i]][0], len(df), "finalout:values", f"{i} in {c}")
                        mon.close(got[nums[i]][1], float(df.sig.sum()), "finalout:values", rtol=1e-9, msg=f"{i} in {c}")
        for f in sites:
            have = sorted(x for x in os.listdir(os.path.join(b.dir, "out", f, "results")) if x != "fit_db.h5")
            mon.equal(have, sorted(x[3] for x in info if x[2] == f), "files", f"files in {f}")


SCENARIOS = [S("export", export_case, 10, 200, timeout=500), S("session", session_case, 6, 60, timeout=500)]
