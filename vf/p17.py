"""P17: configuration files mean what they say (random .ini files against an independent interpretation)."""
import copy
import os
import sys
import tempfile
from datetime import datetime
from pathlib import Path

import numpy as np

from . import core
from . import fitmodels as F
from . import hooks
from . import models as M
from . import p15
from .core import S, Skip

ID = "P17"
LEVEL = "exploration"
RULE = (
    "Random configuration files are written (random spacing, order, comments, delimiters, boolean spellings, value interpolation, default sections) from a "
    "randomly drawn fit definition and random process specifications, read with RT1_configparser, and every value and its type is compared with the "
    "value that was written; per-configuration overrides are compared with an independent merge of the entries; fit objects obtained from the file are "
    "compared with programmatically created ones (settings, residuals, jacobian, predictions); modules are imported from both locations; damaged "
    "variants of the files must raise.  Distinct by file content."
)
MIN_EVENTS = {"files": 60, "overrides": 40, "fit_compared": 40, "specs": 150, "damaged": 60, "lincomb": 10, "modules": 20, "cosinelobe": 4, "multi": 20}

BOOLS = {True: ["True", "true", "yes", "on", "1"], False: ["False", "false", "no", "off", "0"]}


def num(rng, x):
    """a textual representation of a number"""
    if isinstance(x, bool):
        return BOOLS[x][rng.integers(5)]
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    m = rng.random()
    s = repr(float(x))
    if m < 0.2:
        s = "%.17e" % x
    elif m < 0.3 and s.startswith("0."):
        s = s[1:]
    return s


def sp(rng, n=3):
    return " " * int(rng.integers(0, n))


def write(rng, sections):
    """sections: {name: [(key, text or None)]} -> text of the file"""
    out = []
    names = list(sections)
    if rng.random() < 0.5:
        names = [str(x) for x in rng.permutation(names)]
    for n in names:
        if rng.random() < 0.3:
            out.append("#" * int(rng.integers(1, 50)) + " some text = 3")
        out.append(f"[{n}]")
        for k, v in sections[n]:
            if rng.random() < 0.1:
                out.append("")
            if rng.random() < 0.1:
                out.append("; comment [x] = y" if rng.random() < 0.5 else "# tau = 5")
            out.append(k if v is None else f"{k}{sp(rng)}{'=' if rng.random() < 0.8 else ':'}{sp(rng)}{v}{sp(rng)}")
        out.append("")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- what is written and what is meant
def fn_entries(rng, spec, main, letters=True):
    """[(key, text, meaning)] of a scattering function section; main: omega, tau or NormBRDF"""
    pre = spec["kind"]
    out = []

    def val(k, v):
        if isinstance(v, str):
            return (k, v, v)
        return (k, num(rng, v), v)

    def single(s, p=""):
        o = [(f"{p}{pre}_name", s["type"], s["type"])]
        for k in ("t", "i", "ncoefs"):
            if k in s:
                o.append(val(p + k, s[k]))
        if s["type"] not in ("Rayleigh", "Isotropic") and (rng.random() < 0.7 or list(s["a"]) != M.default_a(dict(s, a=None))):
            o.append((p + "a", "[" + ("," + sp(rng)).join(num(rng, x) for x in s["a"]) + sp(rng, 2) + "]", [float(x) for x in s["a"]]))
        return o

    if spec["type"] == "LinComb":
        out.append((f"{pre}_name", f"LinComb{pre}", f"LinComb{pre}"))
        groups = []
        for L, (w, s) in zip(rng.permutation(list("ABCDEFG")), spec["choices"]):
            g = single(s, f"{L}__")
            g.append(val(f"{L}__frac", w))
            if rng.random() < 0.5:
                g = [g[i] for i in rng.permutation(len(g))]
            groups.append(g)
        for g in groups:
            out.extend(g)
    else:
        out.extend(single(spec))
    for k, v in main.items():
        out.insert(int(rng.integers(0, len(out) + 1)), val(k, v))
    return out


def mean_props(entries, pre):
    """entries -> programmatic definition"""
    d = {}
    ch = {}
    for k, _, v in entries:
        if k[1:3] == "__":
            c = ch.setdefault(k[0], [1, {}])
            if k[3:] == "frac":
                c[0] = v
            else:
                c[1][k[3:]] = v
        else:
            d[k] = v
    if ch:
        d[pre + "choices"] = list(ch.values())
    return d


def merge(base, over):
    d = {k: (t, v) for k, t, v in base}
    d.update({k: (t, v) for k, t, v in over})
    return [(k, t, v) for k, (t, v) in d.items()]


def same_props(a, b):
    """equal definitions incl. types; expressions compared without spaces"""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same_props(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same_props(x, y) for x, y in zip(a, b))
    if isinstance(b, str):
        return isinstance(a, str) and a.replace(" ", "") == b.replace(" ", "")
    if isinstance(b, bool) or b is None:
        return a is b
    return isinstance(a, (int, float)) and not isinstance(a, bool) and a == b


def def_entries(rng, defdict):
    out = []
    for k, d in defdict.items():
        parts = [str(d[0]), "auxiliary" if isinstance(d[1], str) else num(rng, float(d[1]))]
        want = [d[0], d[1]]
        if len(d) > 2:
            fr = d[2]
            parts += ["None" if fr is None else str(fr), num(rng, d[3][0][0]), num(rng, d[3][1][0])]
            it = d[4] if len(d) > 4 else False
            if len(d) > 4 or rng.random() < 0.3:
                parts.append(str(it))
            want += [fr, ([d[3][0][0]], [d[3][1][0]]), it]
        out.append((k, "[" + sp(rng) + ("," + sp(rng)).join(parts) + sp(rng) + "]", want))
    return out


def same_def(a, b):
    if len(a) != len(b) or a[0] is not b[0] or a[1] != b[1] or isinstance(a[1], str) != isinstance(b[1], str):
        return False
    if len(b) == 2:
        return True
    fa, fb = (None if x[2] is None else str(x[2]).replace(" ", "") for x in (a, b))
    return fa == fb and [list(x) for x in a[3]] == [list(x) for x in b[3]] and a[4] is b[4]


SPEC_MAKERS = ["int", "float", "bool", "path", "datetime", "str", "none", "list_str", "list_int", "list_float", "list_bool", "list_datetime", "path..", "interp", "typed_none", "list_empty"]


def gen_specs(rng, n):
    """[(key, text, name, meaning)]"""
    out = []
    for j in range(n):
        ty = SPEC_MAKERS[rng.integers(len(SPEC_MAKERS))]
        nm = ["alpha", "Beta", "x_1", "save", "ID", "k__k", "N0"][rng.integers(7)] + str(j)
        if ty == "int":
            v = int(rng.integers(-10**6, 10**6))
            out.append((f"int__{nm}", str(v), nm, v))
        elif ty == "float":
            v = float(rng.normal() * 10.0 ** rng.integers(-8, 9))
            out.append((f"float__{nm}", repr(v), nm, v))
        elif ty == "bool":
            v = bool(rng.random() < 0.5)
            out.append((f"bool__{nm}", num(rng, v), nm, v))
        elif ty == "path":
            v = ["/data/some where/x.nc", "rel/path", "file.txt", "~/x"][rng.integers(4)]
            out.append((f"path__{nm}", v, nm, Path(v)))
        elif ty == "path..":
            out.append((f"path__{nm}", "/data/a/../b/c.txt", nm, Path("/data/b/c.txt")))
        elif ty == "datetime":
            d = rdate(rng)
            f = DTFMT[rng.integers(len(DTFMT))]
            t = d.strftime(f or "%Y-%m-%d %H:%M:%S.%f")
            out.append((f"datetime__{nm}", t if f is None else f"{t} {sp(rng)}fmt={sp(rng)}{f}", nm, datetime.strptime(t, f or "%Y-%m-%d %H:%M:%S.%f")))
        elif ty == "str":
            v = ["results.nc", "a b c", "1", "True", "x=y", "5.0"][rng.integers(6)]
            out.append((nm, v, nm, v))
        elif ty == "none":
            out.append((nm, "None", nm, None))
        elif ty == "typed_none":
            k = ["path", "datetime", "list", "list__int", "bool", "float", "int", "list__datetime"][rng.integers(8)]
            out.append((f"{k}__{nm}", "None", nm, None))
        elif ty == "list_empty":
            k = ["list", "list__int", "list__float", "list__bool"][rng.integers(4)]
            out.append((f"{k}__{nm}", "[" + sp(rng) + "]", nm, []))
        elif ty == "interp":
            if out and out[-1][1] is not None and "fmt" not in out[-1][1] and not isinstance(out[-1][3], (list, type(None))):
                k, t, _, m = out[-1]
                t = m if isinstance(m, str) else t  # (a resolved reference)
                ref = "${%s}" % k if rng.random() < 0.5 else "${PROCESS_SPECS:%s}" % k
                out.append((nm, f"pre_{ref}_post", nm, f"pre_{t}_post"))
        else:
            m = int(rng.integers(1, 6))
            vals, txt, f = [], [], None
            for _ in range(m):
                if ty == "list_str":
                    v = ["a", "Bc", "AbCd#", "x y", "5", "True"][rng.integers(6)]
                    t = v
                elif ty == "list_int":
                    v = int(rng.integers(-99, 99))
                    t = str(v)
                elif ty == "list_float":
                    v = M.r(rng.normal())
                    t = num(rng, v)
                elif ty == "list_bool":
                    v = bool(rng.random() < 0.5)
                    t = num(rng, v)
                else:
                    f = DTFMT[1] if f is None else f
                    d = rdate(rng)
                    t = d.strftime(f)
                    v = datetime.strptime(t, f)
                vals.append(v)
                txt.append(sp(rng) + t + sp(rng))
            key = {"list_str": "list__", "list_int": "list__int__", "list_float": "list__float__", "list_bool": "list__bool__", "list_datetime": "list__datetime__"}[ty]
            t = "[" + ",".join(txt) + "]"
            if f:
                t += f"  fmt={sp(rng)}{f}"
            out.append((key + nm, t, nm, vals))
    return out


DTFMT = [None, "%d.%m.%Y %H:%M", "%Y-%m-%d", "%d-%m-%y %H:%M", "%Y%m%d", "%H:%M %d/%m/%Y"]


def rdate(rng):
    return datetime(int(rng.integers(1990, 2040)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)), int(rng.integers(10**6)))


def gen_file(rng, mon, d, multi):
    """a complete configuration; returns dict with the sections and what they mean"""
    p = F.gen_problem(rng, int_Q=bool(rng.random() < 0.3), n_dates=int(rng.integers(2, 5)), nmax=2, comb=0.4)
    if p is None:
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    p["func"] = False
    # weights of combinations that are not parameters
    g = dict(p=p)
    g["V"] = fn_entries(rng, p["V"], dict(tau=p["tau"], omega=p["omega"]))
    g["SRF"] = fn_entries(rng, p["SRF"], dict(NormBRDF=p["norm"]))
    g["def"] = def_entries(rng, p["defdict"])
    g["lsq"] = [("max_nfev", str(m := int(rng.integers(1, 4))), m), ("ftol", num(rng, f := 10.0 ** -int(rng.integers(2, 5))), f), ("xtol", "1e-4", 1e-4)]
    if rng.random() < 0.4:
        g["lsq"] += [("x_scale", "jac", "jac"), ("verbose", "0", 0)]
    if rng.random() < 0.4:
        g["lsq"] += [("method", "trf", "trf")]
    if rng.random() < 0.3:
        g["lsq"] += [("loss", "soft_l1", "soft_l1"), ("f_scale", num(rng, f := round(float(rng.uniform(0.1, 2)), 2)), f)]
    if rng.random() < 0.3:
        g["lsq"] += [("diff_step", "1.e-7", 1e-7)]
    if rng.random() < 0.3:
        k = str(rng.choice(["gtol", "diff_step", "tr_solver", "jac_sparsity"]))
        g["lsq"] = [e for e in g["lsq"] if e[0] != k] + [(k, [None, "None"][rng.integers(2)], None)]
    g["fits"] = [(k, num(rng, p[k]), p[k]) for k in ("sig0", "dB", "int_Q")] + [("verbose", str(v := int(rng.integers(0, 1))), v)]
    b = ["sympy", "symengine"][rng.integers(2)]
    if rng.random() < 0.6:
        g["fits"].append(("lambda_backend", b, b))
    if rng.random() < 0.3:
        g["fits"].append(("_fnevals_input", None if rng.random() < 0.5 else "None", None))
    for k in ("def", "lsq", "fits"):
        if rng.random() < 0.5:
            g[k] = [g[k][i] for i in rng.permutation(len(g[k]))]
    for s in (p["V"], p["SRF"]):
        mon.event("lincomb", int(s["type"] == "LinComb"))
        mon.event("cosinelobe", int(any(q["type"] == "CosineLobe" for _, q in M.components(s))))

    modname = "mod_%d" % rng.integers(10**6)
    g["mods"] = {["processing_cfg", "my_module"][rng.integers(2)]: os.path.join(d, modname + ".py")}
    if rng.random() < 0.4:
        g["mods"]["other"] = os.path.join(d, modname + "_b.py")
    main = list(g["mods"])[0]
    cf = [(f"module__{k}", v) for k, v in g["mods"].items()]
    if main != "processing_cfg" or rng.random() < 0.3:
        cf.append(("processing_cfg_module", main))
    g["save"] = os.path.join(d, "out")
    specs = [("dumpfolder", "dump01", "dumpfolder", "dump01"), ("path__save_path", g["save"], "save_path", Path(g["save"]))] + gen_specs(rng, int(rng.integers(2, 8)))
    g["specs"] = specs
    sec = {"fits_kwargs": [e[:2] for e in g["fits"]], "least_squares_kwargs": [e[:2] for e in g["lsq"]], "defdict": [e[:2] for e in g["def"]],
           "RT1_V": [e[:2] for e in g["V"]], "RT1_SRF": [e[:2] for e in g["SRF"]], "CONFIGFILES": cf, "PROCESS_SPECS": [e[:2] for e in specs]}
    # interpolated numbers
    if rng.random() < 0.3:
        sec["shared"] = [("N0val", num(rng, v := M.r(rng.uniform(0.1, 0.4))))]
        k = [e for e in g["lsq"] if e[0] == "xtol"][0]
        i = sec["least_squares_kwargs"].index(k[:2])
        sec["least_squares_kwargs"][i] = ("xtol", "${shared:N0val}")
        g["lsq"] = [(a, b, v if a == "xtol" else c) for a, b, c in g["lsq"]]

    # configurations
    g["configs"] = {}
    if multi:
        mon.event("multi")
        for nm in [str(x) for x in rng.permutation(["cfg_0", "one", "B2", "x"])][: int(rng.integers(1, 4))]:
            o = {}
            q = copy.deepcopy(p)
            if rng.random() < 0.5:
                q["sig0"] = not p["sig0"]
                o["fits_kwargs"] = [("sig0", num(rng, q["sig0"]), q["sig0"])]
                if rng.random() < 0.5:
                    q["int_Q"] = not p["int_Q"]
                    o["fits_kwargs"].append(("int_Q", num(rng, q["int_Q"]), q["int_Q"]))
            if rng.random() < 0.4:
                v = int(rng.integers(1, 5))
                o["least_squares_kwargs"] = [("max_nfev", str(v), v)] + ([("gtol", "1.e-3", 1e-3)] if rng.random() < 0.5 else [])
            if rng.random() < 0.5:
                ks = [k for k in p["kinds"] if p["kinds"][k] != "aux"]
                if ks:
                    k = ks[rng.integers(len(ks))]
                    v = M.r(rng.uniform(0.2, 0.4))
                    nf = sum(x == "fit" for x in p["kinds"].values())
                    if p["kinds"][k] == "fit" and nf > 1 and rng.random() < 0.5:
                        q["defdict"][k], q["kinds"][k] = [False, v], "fixed"
                    else:
                        q["defdict"][k], q["kinds"][k] = [True, v, [None, "index", 2, "D"][rng.integers(4)], ([M.r(v - 0.1)], [M.r(v + 0.1)])], "fit"
                    o["defdict"] = def_entries(rng, {k: q["defdict"][k]})
            for sname, kind, mains in (("RT1_V", "V", ("tau", "omega")), ("RT1_SRF", "SRF", ("NormBRDF",))):
                if rng.random() < 0.5:
                    continue
                base = g[kind]
                es = []
                # any of the entries with another number (never one that removes a parameter)
                cand = [e for e in base if not isinstance(e[2], (str, list)) and not e[0].endswith("i")]
                for e in [cand[i] for i in rng.permutation(len(cand))[: int(rng.integers(1, 3))]]:
                    key = e[0].split("__")[-1]
                    if key == "ncoefs":
                        es.append((e[0], str(v := int(rng.integers(1, 4))), v))
                    elif key == "frac":
                        es.append((e[0], num(rng, v := M.r(rng.uniform(0.1, 0.9))), v))
                    else:
                        es.append((e[0], num(rng, v := M.r(rng.uniform(0.1, 0.5))), v))
                for mk in mains:
                    e = [e for e in base if e[0] == mk][0]
                    if isinstance(e[2], str) and rng.random() < 0.3:
                        t = f"({e[2]})*0.8"
                        es.append((mk, t, t))
                if es:
                    o[sname] = es
            g["configs"][nm] = (o, q)
            secs = [str(x) for x in rng.permutation(list(o))] if o else []
            if not secs or rng.random() < 0.2:
                sec[f"#config {nm}"] = []
            for s in secs:
                sec[f"#config {nm} {s}"] = [e[:2] for e in o[s]]
                mon.event("overrides")
    g["sec"] = sec
    return g


def meaning(g, name=None):
    """(lsq, defdict, V_props, SRF_props, fits_kwargs) of a configuration"""
    o = g["configs"][name][0] if name else {}
    lsq = {k: v for k, _, v in merge(g["lsq"], o.get("least_squares_kwargs", []))}
    dd = {k: v for k, _, v in merge(g["def"], o.get("defdict", []))}
    fk = {k: v for k, _, v in merge(g["fits"], o.get("fits_kwargs", []))}
    return lsq, dd, mean_props(merge(g["V"], o.get("RT1_V", [])), "V"), mean_props(merge(g["SRF"], o.get("RT1_SRF", [])), "SRF"), fk


def check_config(mon, got, want, what):
    lsq, dd, V, SRF, fk = want
    for key, a, b in (("lsq_kwargs", got["lsq_kwargs"], lsq), ("fits_kwargs", got["fits_kwargs"], fk)):
        mon.check(set(a) == set(b), f"{key}-names", f"{what}: {sorted(a)} != {sorted(b)}")
        for k in b:
            mon.check(k in a and a[k] == b[k] and type(a[k]) is type(b[k]), key, f"{what} {k}: {a.get(k)!r} instead of {b[k]!r}")
    mon.check(set(got["defdict"]) == set(dd), "defdict-names", f"{what}: {sorted(got['defdict'])} != {sorted(dd)}")
    for k in dd:
        mon.check(k in got["defdict"] and same_def(got["defdict"][k], dd[k]), "defdict", f"{what} {k}: {got['defdict'].get(k)!r} instead of {dd[k]!r}")
    for key, b in (("V_props", V), ("SRF_props", SRF)):
        a = got["set_V_SRF"][key]
        mon.check(same_props(a, b), key, f"{what}: {a!r} instead of {b!r}")


def the_fit(g, name=None):
    lsq, dd, V, SRF, fk = meaning(g, name)
    q = g["configs"][name][1] if name else g["p"]
    kw = {k: v for k, v in fk.items() if k in ("sig0", "dB", "int_Q", "verbose", "lambda_backend")}
    return F.make(q, set_V_SRF=dict(V_props=V, SRF_props=SRF), lsq_kwargs=lsq, defdict=copy.deepcopy(dd), **kw)


def compare_fit(mon, got, want, p, what):
    mon.event("fit_compared")
    got.dataset = p["df"].copy()
    got._ID = want._ID
    a, b = p15.fingerprint(want), p15.fingerprint(got)
    p15.same(mon, a, b, "fit", what, ignore=("set_V_SRF", "defdict", "config_name", "reader_arg", "aux_data"))
    # predictions
    seen = []
    for f in (want, got):
        st = np.random.default_rng(3)
        with hooks.capture(choose=lambda c: F.draw(st, c)):
            f.performfit()
        seen.append(f.calc_model(return_components=True))
    mon.check(list(seen[0].columns) == list(seen[1].columns) and np.allclose(seen[0].values, seen[1].values, rtol=1e-10, equal_nan=True), "fit-predictions", what)


def files(rng, mon, tier):
    from rt1.rtfits import Fits, MultiFits
    from rt1.rtparse import RT1_configparser

    mon.event("files")
    multi = rng.random() < 0.5
    with tempfile.TemporaryDirectory() as d:
        g = gen_file(rng, mon, d, multi)
        text = write(rng, g["sec"])
        mon.note(file=text)
        mon.distinct(text)
        path = os.path.join(d, "x.ini")
        with open(path, "w") as f:
            f.write(text)
        cfg = RT1_configparser(path)
        mon.equal(set(cfg.config_names), set(g["configs"]), "config_names")
        order = [None] + list(g["configs"])
        for nm in [order[i] for i in rng.permutation(len(order))]:
            check_config(mon, cfg.get_config(nm), meaning(g, nm), f"configuration {nm}")
        # independent of what has been returned before
        c = cfg.get_config()
        c["defdict"].clear(), c["lsq_kwargs"].clear(), c["set_V_SRF"]["V_props"].clear()
        check_config(mon, cfg.get_config(), meaning(g), "second reading")

        sp_ = cfg.get_process_specs()
        mon.equal(set(sp_), {n for _, _, n, _ in g["specs"]}, "process-spec-names")
        for k, t, n, v in g["specs"]:
            mon.event("specs")
            mon.check(n in sp_ and sp_[n] == v and type(sp_[n]) is type(v) and (not isinstance(v, list) or [type(x) for x in v] == [type(x) for x in sp_[n]]),
                      "process-spec", f"{k} = {t}: {sp_.get(n)!r} instead of {v!r}")

        obj = cfg.get_fitobject()
        if g["configs"]:
            mon.check(isinstance(obj, MultiFits), "fit-type", str(type(obj)))
            fits = obj.accessor.config_fits
            mon.equal(set(fits), set(g["configs"]), "fit-configs")
            mon.equal(set(obj.config_names), set(g["configs"]), "fit-config-names")
            for nm in fits:
                mon.equal(getattr(fits[nm], "config_name", None), nm, "config_name")
                compare_fit(mon, fits[nm], the_fit(g, nm), g["configs"][nm][1], f"configuration {nm}")
        else:
            mon.check(type(obj) is Fits, "fit-type", str(type(obj)))
            compare_fit(mon, obj, the_fit(g), g["p"], "the fit")

        modules(rng, mon, cfg, g)


def modules(rng, mon, cfg, g):
    """modules are imported from the location that is written in the file (or the copy of the file)"""
    mon.event("modules")
    cfgdir = os.path.join(g["save"], "dump01", "cfg")
    for k, path in g["mods"].items():
        with open(path, "w") as f:
            f.write(f"value = {k!r} + '-orig'\ncalls = []\n")
    try:
        cfg.get_module(list(g["mods"])[0], load_copy=True)
        mon.fail("module-copy-missing", "a copy that does not exist has been loaded")
    except (AssertionError, FileNotFoundError):
        pass
    os.makedirs(cfgdir)
    for k, path in g["mods"].items():
        with open(os.path.join(cfgdir, os.path.basename(path)), "w") as f:
            f.write(f"value = {k!r} + '-copy'\n")
    for copy_ in [bool(x) for x in rng.permutation([True, False, True])]:
        want = "-copy" if copy_ else "-orig"
        mods = cfg.get_all_modules(load_copy=copy_)
        mon.equal({k: m.value for k, m in mods.items()}, {k: k + want for k in g["mods"]}, "modules")
        for k in g["mods"]:
            mon.equal(cfg.get_module(k, load_copy=copy_).value, k + want, "module")
    # a changed file is read again
    k, path = list(g["mods"].items())[0]
    with open(path, "w") as f:
        f.write("value = 'changed!'\n")
    os.utime(path, (1, 1))
    mon.equal(cfg.get_module(k).value, "changed!", "module-reload")
    try:
        cfg.get_module("does_not_exist")
        mon.fail("module-unknown", "an unknown module has been loaded")
    except AssertionError:
        pass
    for path in g["mods"].values():
        sys.modules.pop(Path(path).stem, None)


# ---------------------------------------------------------------- damaged files
def damage(rng, g):
    """(description, sections) of a file that must be refused (when read or when the value is asked for)"""
    sec = {k: list(v) for k, v in g["sec"].items()}

    def sub(s, key, text):
        sec[s] = [(k, text if k == key else t) for k, t in sec[s]]

    def any_(s, ok=lambda k, t: True):
        c = [(k, t) for k, t in sec[s] if ok(k, t)]
        return c[rng.integers(len(c))] if c else (None, None)

    m = int(rng.integers(0, 22))
    if m == 0:
        s = ["PROCESS_SPECS", "CONFIGFILES", "fits_kwargs", "least_squares_kwargs", "defdict", "RT1_V", "RT1_SRF"][rng.integers(7)]
        sec.pop(s)
        return f"no section {s}", sec
    if m == 1:
        k = ["path__save_path", "dumpfolder"][rng.integers(2)]
        sec["PROCESS_SPECS"] = [x for x in sec["PROCESS_SPECS"] if x[0] != k]
        return f"no {k}", sec
    if m == 2:
        main = dict(sec["CONFIGFILES"]).get("processing_cfg_module", "processing_cfg")
        sec["CONFIGFILES"] = [x for x in sec["CONFIGFILES"] if x[0] != "module__" + main]
        return "no processing module", sec
    k, t = any_("defdict")
    v = t.strip()[1:-1].split(",")
    fit = [(a, b) for a, b in sec["defdict"] if len(b.split(",")) > 2]
    if m == 3:
        sub("defdict", k, t.strip()[1:-1])
        return "definition without brackets", sec
    if m == 4:
        v[0] = ["true", "1", "yes", "maybe", "Tru"][rng.integers(5)]
        sub("defdict", k, "[" + ",".join(v) + "]")
        return f"fit indicator {v[0]}", sec
    if m == 5:
        v[1] = ["abc", "aux", "", "0.1.2"][rng.integers(4)]
        sub("defdict", k, "[" + ",".join(v) + "]")
        return f"value {v[1]!r}", sec
    if m == 6:
        sub("defdict", k, f"[{v[0]}]")
        return "only the fit indicator", sec
    if m in (7, 8, 9, 10, 11) and fit:
        k, t = fit[rng.integers(len(fit))]
        v = [x.strip() for x in t.strip()[1:-1].split(",")]
        if m == 7:
            v = v[: int(rng.integers(3, 5))]
            what = f"only {len(v)} entries"
        elif m == 8:
            v[int(rng.integers(3, 5))] = ["x", "", "None"][rng.integers(3)]
            what = f"boundaries {v[3:5]}"
        elif m == 9:
            v = v[:5] + [["true", "yes", "1", "maybe", ""][rng.integers(5)]]
            what = f"interpolation indicator {v[5]!r}"
        elif m == 10:
            v = (v + ["False"])[:6] + ["7"]
            what = "too many entries"
        else:
            v = v[:2] + v[3:5]
            what = "no frequency"
        sub("defdict", k, "[" + ",".join(v) + "]")
        return what, sec
    if m in (12, 13):
        s = ["RT1_V", "RT1_SRF"][rng.integers(2)]
        k, t = any_(s, lambda k, t: k.endswith("ncoefs") or k.split("__")[-1] in ("a", "i"))
        if k is None:
            return None
        if k.endswith("ncoefs"):
            bad = ["x", "3.5", "[3]"][rng.integers(3)]
        elif k.split("__")[-1] == "i":
            bad = ["2.5"][0]
        else:
            bad = ["1,1,1", "[a,b,c]", "[1. 1. 1."][rng.integers(3)]
        sub(s, k, bad)
        return f"{k} = {bad}", sec
    if m == 14:
        sub("least_squares_kwargs", "max_nfev", bad := ["ten", "3.5", "1e2"][rng.integers(3)])
        return f"max_nfev = {bad}", sec
    if m == 15:
        sub("least_squares_kwargs", "ftol", "small")
        return "ftol = small", sec
    if m == 16:
        sub("fits_kwargs", k := ["sig0", "dB", "int_Q"][rng.integers(3)], bad := ["maybe", "2", "T"][rng.integers(3)])
        return f"{k} = {bad}", sec
    if m == 17:
        bad = [("int__q", "1.5"), ("float__q", "a"), ("bool__q", "maybe"), ("list__q", "a, b"), ("list__int__q", "[1, a]"), ("list__float__q", "[1.0, x]"), ("list__bool__q", "[True, 7]"),
               ("datetime__q", "2020-01-01"), ("datetime__q", "32.1.2020 fmt=%d.%m.%Y"), ("list__datetime__q", "[1.1.2020, 5] fmt=%d.%m.%Y"), ("list__q", "[a, b")][rng.integers(11)]
        sec["PROCESS_SPECS"].append(bad)
        return " = ".join(bad), sec
    if m == 18:
        sec["#config bad " + ["nosuchsection", "RT1_X", "defdict extra"][rng.integers(3)]] = [("x", "1")]
        return "override of an unknown section", sec
    if m == 19:
        sec["#config bad PROCESS_SPECS"] = [("dumpfolder", "else")]
        return "override of a section that cannot be overridden", sec
    if m == 20:
        s = ["defdict", "RT1_V", "fits_kwargs"][rng.integers(3)]
        sec[s] = sec[s] + [sec[s][0]]
        return f"duplicate key in {s}", sec
    sub("PROCESS_SPECS", "dumpfolder", "${nosection:key}")
    return "interpolation of a missing value", sec


def damaged(rng, mon, tier):
    from rt1.rtparse import RT1_configparser

    with tempfile.TemporaryDirectory() as d:
        g = gen_file(rng, mon, d, rng.random() < 0.4)
        for _ in range(6):
            dam = damage(rng, g)
            if dam is None:
                continue
            what, sec = dam
            text = write(rng, sec)
            path = os.path.join(d, "bad.ini")
            with open(path, "w") as f:
                f.write(text)
            mon.event("damaged")
            mon.note(damage=what, file=text)
            mon.distinct(what, text)
            try:
                cfg = RT1_configparser(path)
                for nm in [None] + sorted(cfg.config_names):
                    cfg.get_config(nm)
                cfg.get_process_specs()
                fits = cfg.get_fitobject()
                for f in [fits] if not cfg.config_names else fits.configs:
                    f.dataset = g["p"]["df"].copy()
                    f.V, f.SRF
            except Exception:
                continue
            mon.fail("accepted", f"a malformed file has been accepted: {what}", file=text)
        try:
            RT1_configparser(os.path.join(d, "missing.ini"))
            mon.fail("accepted-missing", "a missing file has been accepted")
        except Exception:
            mon.event("damaged")


SCENARIOS = [
    S("files", files, 90, 2500),
    S("damaged", damaged, 50, 1200),
]
