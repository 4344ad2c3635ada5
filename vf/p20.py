"""P20: fits re-created from a result store equal the stored fits."""
import copy
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from . import core
from . import fitmodels as F
from . import proc
from .core import S, Skip
from .p15 import fingerprint, plain, same

ID = "P20"
LEVEL = "exploration"
RULE = (
    "roundtrip: random fits and multi-configuration fits (all definitions, variabilities, functional definitions, numpy-valued settings, unbounded parameters) on several sites are converted to tables "
    "with every combination of the storage options, written to a store in random portions, and loaded through HDFaccessor and RTresults by name, by number and at random; the loaded fits must have the "
    "fingerprint of the stored ones (settings, definitions, dataset, auxiliary data, results, predictions, residuals and jacobian given to the optimiser).  process: the same for stores and dump-files "
    "written by real RTprocess runs with storage options.  Distinct by definitions and options."
)
MIN_EVENTS = {"stores": 36, "loaded": 80, "single": 15, "multi": 12, "by-number": 25, "random": 20, "no-data": 10, "no-aux": 10, "no-results": 10, "functions": 10, "process": 3,
              "process-loaded": 8, "numpy-settings": 8, "unbounded": 4, "independent": 10}

IGN = ("lambda_backend", "verbose", "success", "set_V_SRF", "idxname", "ID", "reader_arg", "aux_data", "config_name")


def variants(rng, p, n):
    """the problem on n different datasets"""
    base = p["df"].sort_index(kind="stable")
    out = []
    dates = base.index.unique()
    for i in range(n):
        k = int(rng.integers(min(2, len(dates)), len(dates) + 1))
        use = sorted(rng.permutation(len(dates))[:k])
        df = base[base.index.isin(dates[use])].copy()
        df.index = df.index + pd.Timedelta(hours=int(rng.integers(0, 500)))
        df.index.name = base.index.name
        df["sig"] = df["sig"] * float(rng.uniform(0.9, 1.1))
        if rng.random() < 0.3:
            df = df.iloc[rng.permutation(len(df))]
        q = dict(p, df=df)
        F.clean_for_interp(q)
        out.append(q)
    return out


def tweak(rng, mon, p):
    """settings as users write them: numpy numbers, arrays, no bounds"""
    if rng.random() < 0.3:
        mon.event("numpy-settings")
        for k, d in p["defdict"].items():
            m = rng.random()
            if isinstance(d[1], float) and m < 0.5:
                d[1] = np.float64(d[1])
            if len(d) > 3 and m < 0.7:
                d[3] = tuple([np.float64(x[0])] for x in d[3]) if rng.random() < 0.5 else tuple(np.array(x) for x in d[3])
        if rng.random() < 0.5:
            p["lsq"] = dict(p["lsq"], ftol=np.float64(1e-5), max_nfev=np.int64(p["lsq"]["max_nfev"]))
    if rng.random() < 0.15:
        mon.event("unbounded")
        for k, d in p["defdict"].items():
            if len(d) > 3 and rng.random() < 0.6:
                d[3] = ([0.0] if rng.random() < 0.5 else d[3][0], [np.inf])


def prob(rng, mon, base=None, **kw):
    p = F.gen_problem(rng, int_Q=bool(rng.random() < 0.25), n_dates=int(rng.integers(3, 7)), nmax=2, **kw) if base is None else base
    if p is None:
        raise Skip("nothing to fit")
    p["lsq"] = dict(max_nfev=int(rng.integers(1, 4)), ftol=1e-5)
    tweak(rng, mon, p)
    return p


def write_store(rng, path, hdfs):
    """like the writer: tables of several sites are joined and appended"""
    order = [int(i) for i in rng.permutation(len(hdfs))]
    while order:
        k = int(rng.integers(1, len(order) + 1))
        use, order = order[:k], order[k:]
        tabs = {}
        for i in use:
            for key, val in hdfs[i].items():
                key = key[len("const__"):] if key.startswith("const__") else key
                tabs.setdefault(key, []).append(val)
        with pd.HDFStore(path, "a", complevel=1, complib="blosc") as st:
            for key, vals in tabs.items():
                st.append(key, pd.concat(vals), format="t", data_columns=["ID"] if key == "reader_arg" else [], index=False, min_itemsize={"index": 99, "values": 99})


def gen_ids(rng, n):
    m = rng.integers(4)
    base = [int(x) for x in rng.permutation(60)[:n]]
    if m == 0:
        return base
    if m == 1:
        return [f"site_{x}" for x in base]
    if m == 2:
        return [f"a {x}-b" for x in base]
    return [f"{x}x" for x in base]


def frame(df):
    return None if df is None else dict(cols=df.to_dict("list"), index=[str(x) for x in df.index])


def cmp_fit(mon, got, want, opts, key, msg, fullset=None):
    """got: loaded Fits; want: stored Fits"""
    if not opts["save_data"]:
        # what is needed to re-create the results with the dataset at hand
        man = [k + "_dyn" for k, d in want.defdict.items() if d[0] and len(d) > 2 and "manual" in str(d[2])]
        if man and opts["save_results"]:
            ds = got.dataset
            if mon.check(ds is not None and sorted(ds.columns) == sorted(fullset or man), f"{key}:manual-labels",
                         f"{msg}: stored columns {None if ds is None else sorted(ds.columns)} instead of {sorted(fullset or man)}"):
                mon.check(frame(ds[man]) == frame(want.dataset[man]), f"{key}:manual-labels", f"{msg}: labels differ")
        got.dataset = want.dataset
    deep = len(msg) % 3 == 0
    if opts["save_results"]:
        a = fingerprint(want, deep)
        b = fingerprint(got, deep)
        for x in (a, b):  # the order of the parameters is irrelevant
            for k in ("res_dict", "res_df"):
                x[k] = {i: x[k][i] for i in sorted(x[k])}
        same(mon, a, b, key, msg, IGN)
    else:
        mon.check(getattr(got, "res_dict", None) is None, f"{key}:results", f"{msg}: results without stored results")
        w = want.reinit_object()
        g = got.reinit_object()
        same(mon, fingerprint(w), fingerprint(g), key, msg, (*IGN, "res_dict", "model", "res_df", "model_index"))
    if callable(want.set_V_SRF):
        mon.event("functions")
    else:
        mon.check(plain(got.set_V_SRF) == plain(want.set_V_SRF), f"{key}:set_V_SRF", f"{msg}: {got.set_V_SRF} instead of {want.set_V_SRF}")
    aux = getattr(want, "aux_data", None) if opts["save_auxdata"] else None
    if not isinstance(aux, pd.DataFrame):  # (only tables are stored)
        aux = None
    mon.check(frame(getattr(got, "aux_data", None)) == frame(aux), f"{key}:aux_data", f"{msg}: {frame(getattr(got, 'aux_data', None))} instead of {frame(aux)}")
    ra = {k: v for k, v in want.reader_arg.items() if pd.api.types.is_scalar(v)}
    gr = {k: got.reader_arg.get(k) for k in ra}
    mon.check(gr == ra and {k: type(v) for k, v in gr.items()} == {k: type(v) for k, v in ra.items()}, f"{key}:reader_arg", f"{msg}: {gr} instead of {ra}")


def fit_it(f):
    try:
        f.performfit()
    except AssertionError as e:  # unbounded parameters may leave the valid range
        if "must be" in str(e) or "should be" in str(e):
            raise Skip("invalid parameters") from None
        raise


def options(rng):
    o = dict(save_results=True, save_res_df=True, save_data=True, save_auxdata=True)
    if rng.random() < 0.6:
        for k in o:
            o[k] = bool(rng.random() < 0.6)
    return o


def name_of(i):
    return str(i) if str(i).isidentifier() else f"RT1_{i}"


def roundtrip(rng, mon, tier):
    from rt1.rtfits import MultiFits
    from rt1.rtresults import HDFaccessor, RTresults

    multi = rng.random() < 0.4
    n = int(rng.integers(1, 5))
    ids = gen_ids(rng, n)
    nums = [int(x) for x in rng.permutation(n + int(rng.integers(0, 4)))[:n]]
    opts = options(rng)
    hasaux = [bool(rng.random() < 0.6) for _ in ids]
    auxs = [pd.DataFrame(dict(q=rng.uniform(0, 1, 3 + j), k=rng.integers(0, 5, 3 + j)), index=pd.date_range("2020-01-01", periods=3 + j)) if h else None for j, h in enumerate(hasaux)]
    ras = [dict(ID=i, gpi=int(rng.integers(1000)), lat=float(rng.normal()), txt=f"t{j}") for j, i in enumerate(ids)]
    lists = rng.random() < 0.2
    for r in ras if lists else ():
        r["files"] = [["a", "b"], ["c"], []][rng.integers(3)]
    p = prob(rng, mon, aux=0.0 if multi else 0.25)
    mon.event("multi" if multi else "single")
    objs = []
    if multi:
        qs = []
        names = [str(x) for x in rng.permutation(["low", "cfg_1", "Z", "mid", "fit"])[: int(rng.integers(1, 4))]]
        for j, nm in enumerate(names):
            q = dict(p, defdict=copy.deepcopy(p["defdict"]), kinds=dict(p["kinds"]), func=bool(rng.random() < 0.5), int_Q=bool(p["int_Q"] and rng.random() < 0.6), lsq=dict(p["lsq"]))
            fit = [k for k, kd in q["kinds"].items() if kd == "fit"]
            if len(fit) > 1 and rng.random() < 0.6:  # another set of parameters
                k = fit[int(rng.integers(len(fit)))]
                q["kinds"][k], q["defdict"][k] = "fixed", [False, 0.21 + 0.01 * j]
            elif rng.random() < 0.5:
                k = fit[int(rng.integers(len(fit)))]
                q["defdict"][k][2] = [None, "index", 2][rng.integers(3)]
                if len(q["defdict"][k]) > 4:
                    q["defdict"][k][4] = False
            qs.append(q)
        vs = variants(rng, p, n)
        for q in qs:
            for v in vs:
                F.clean_for_interp(dict(q, df=v["df"]))
        for v, i, a, r in zip(vs, ids, auxs, ras):
            mf = MultiFits(dataset=v["df"].copy(), reader_arg=r, aux_data=a)
            for nm, q in zip(names, qs):
                mf.add_config(nm, F.make(dict(q, df=v["df"])))
            mf.set_ID(i)
            for f in mf.configs:
                fit_it(f)
            objs.append(mf)
    else:
        for v, i, a, r in [(v, *x) for v, x in zip(variants(rng, p, n), zip(ids, auxs, ras))]:
            f = F.make(v, ID=i)
            f.reader_arg = r
            if a is not None:
                f.aux_data = a
            objs.append(f)
        for f in objs:
            fit_it(f)
    mon.note(ids=ids, nums=nums, opts=opts, multi=[names, [q["defdict"] for q in qs]] if multi else None, **F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], opts, multi, n)
    mon.event("stores")
    for k, e in (("save_data", "no-data"), ("save_auxdata", "no-aux"), ("save_results", "no-results")):
        mon.event(e, int(not opts[k]))
    d = tempfile.mkdtemp(prefix="vf20_", dir=core.SCRATCH)
    try:
        for s in ("cfg", "dumps", "results"):
            os.makedirs(os.path.join(d, "run", s))
        path = os.path.join(d, "run", "results", "fit_db.h5")
        before = [[fingerprint(f, False) for f in (o.configs if multi else [o])] for o in objs]
        write_store(rng, path, [o._get_fit_to_hdf_dict(ID=k, **opts) for o, k in zip(objs, nums)])
        for o, fps in zip(objs, before):
            for f, a in zip(o.configs if multi else [o], fps):
                same(mon, a, fingerprint(f, False), "original", "the fit after storing it")
        db = HDFaccessor(path)
        res = RTresults(os.path.join(d, "run") if rng.random() < 0.5 else d).run
        try:
            mon.equal(sorted(str(x) for x in db.IDs.ID), sorted(name_of(i) for i in ids), "names")
            for j in rng.permutation(n):
                j = int(j)
                want, num, nm = objs[j], nums[j], name_of(ids[j])
                src = [db, res][rng.integers(2)]
                ask = [nm, num][rng.integers(2)]
                mon.event("by-number", int(ask is num))
                if src is res and rng.random() < 0.5:
                    got, gid = res.load_fit(ask, return_ID=True)
                    mon.equal(str(gid), nm, "return_ID")
                else:
                    got = src.load_fit(ask)
                if not mon.check(got is not None, "none", f"load_fit({ask!r}) gave None"):
                    continue
                mon.event("loaded")
                mon.equal(str(got.ID), nm, "ID")
                msg = f"site {ids[j]} ({'store' if src is db else 'results'}, {ask!r})"
                if multi:
                    if not mon.equal(list(got.config_names), list(want.config_names), "config-names", msg):
                        continue
                    full = sorted({k + "_dyn" for f in want.configs for k, x in f.defdict.items() if x[0] and "manual" in str(x[2])})
                    for c in want.config_names:
                        if opts["save_data"]:
                            mon.check(got.configs[c].dataset.equals(got.dataset), "shared-dataset", msg)
                        cmp_fit(mon, got.configs[c], want.configs[c], opts, "multi", f"{msg} {c}", full)
                else:
                    cmp_fit(mon, got, want, opts, "single", msg)
                if rng.random() < 0.5:  # loaded fits are independent of each other
                    mon.event("independent")
                    for f in got.configs if multi else [got]:
                        f.defdict[next(iter(f.defdict.keys()))][1] = 0.11
                        f.lsq_kwargs["max_nfev"] = 99
                        if opts["save_data"] and f.dataset is not None:
                            f.dataset["sig"] = 0.5
                    again = src.load_fit(ask)
                    for c in want.config_names if multi else [None]:
                        cmp_fit(mon, again.configs[c] if multi else again, want.configs[c] if multi else want, opts, "again", f"{msg} loaded again", full if multi else None)
            mon.event("random")
            got, gid = res.load_fit(return_ID=True)
            mon.check(str(gid) in [name_of(i) for i in ids] and str(got.ID) == str(gid), "random", f"{gid} with ID {got.ID}")
            j = [name_of(i) for i in ids].index(str(gid))
            c = objs[j].config_names[0] if multi else None
            cmp_fit(mon, got.configs[c] if multi else got, objs[j].configs[c] if multi else objs[j], opts, "random", f"random site {gid}", full if multi else None)
            if rng.random() < 0.4:
                mon.equal([str(f.ID) for f in res.dump_fits], [str(x) for x in db.IDs.ID], "dump_fits")
        finally:
            db.close()
            if hasattr(res, "fit_db"):
                res.fit_db.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def process(rng, mon, tier):
    from rt1.rtresults import RTresults

    ncfg = int(rng.choice([0, 1, 2, 3]))
    cfg = proc.gen_config(rng, ncfg=ncfg, int_Q=0.1)
    n = int(rng.integers(2, 6))
    ids = gen_ids(rng, n)
    opts = options(rng)
    kw = dict(ncpu=int(rng.integers(1, 4)), dump_fit=True, create_index=bool(rng.random() < 0.5))
    mon.note(ids=ids, opts=opts, kw=kw, names=cfg["names"])
    mon.distinct(cfg["text"], ids, opts)
    with proc.Box(cfg) as b:
        res, msg = b.run(op="process", init=dict(hdf_export_kwargs={k: v for k, v in opts.items() if not v or rng.random() < 0.5}),
                         kwargs=dict(reader_args=[b.arg(i) for i in ids], **kw))
        mon.event("process")
        if not mon.check(res == "ok", f"process:{res}", f"{res} {msg}\n{b.log()}"):
            return
        out = os.path.join(b.dir, "out", "dump01")
        r = RTresults(out).dump01
        dumps = RTresults(out, use_dumps=True).dump01
        ref, mod = b.reference(ids)
        try:
            if not mon.equal(sorted(str(x) for x in r.dump_files), sorted(name_of(i) for i in ids), "process:names"):
                return
            for i in ids:
                mon.event("process-loaded")
                got, gid = r.load_fit(name_of(i), return_ID=True)
                if not mon.check(got is not None, "process:none", f"no fit for {i}"):
                    continue
                mon.equal(str(got.ID), name_of(i), "process:ID")
                want = dumps.load_fit(str(i))
                full = None
                for nm, rf in ref[i].items():
                    g, w = (got.configs[nm], want.configs[nm]) if cfg["names"] else (got, want)
                    if cfg["names"]:
                        full = sorted({k + "_dyn" for f in want.configs for k, x in f.defdict.items() if x[0] and "manual" in str(x[2])})
                    cmp_fit(mon, g, w, opts, "process", f"{i} {nm}", full)
                    for k in rf.res_dict:  # the dump itself holds the right results
                        mon.close(w.res_dict[k], rf.res_dict[k], "process:dump-results", rtol=1e-5, atol=1e-8, msg=f"{k} of {i} {nm}")
                aux = mod.auxdata(i)
                ga = getattr(want, "aux_data", None)
                if ga is None or isinstance(ga, pd.DataFrame):  # (or any other object that is returned by the reader)
                    mon.check(frame(ga) == frame(aux), "process:dump-aux", f"{i}: {frame(ga)} instead of {frame(aux)}")
            if rng.random() < 0.5:
                got, gid = r.load_fit(return_ID=True)
                mon.equal(str(got.ID), str(gid), "process:random")
        finally:
            r.fit_db.close()


SCENARIOS = [
    S("roundtrip", roundtrip, 48, 1200),
    S("process", process, 6, 60),
]
