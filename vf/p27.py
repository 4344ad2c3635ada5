"""P27: names and order of parameters are irrelevant."""
import copy
import re

import numpy as np
import sympy as sp

from . import fitmodels as F
from . import hooks
from . import models as M
from .core import S, Skip

ID = "P27"
LEVEL = "exploration"
RULE = (
    "Random models and fit problems are evaluated twice: as generated and after renaming the free parameters by a random injective map into hostile but valid "
    "identifiers (names of numpy/sympy/python objects, of repository internals, greek letters, underscores, prefixes of each other), permuting the order of "
    "the definitions and of every dictionary that is handed over.  Contributions, derivatives, optimiser input (after permuting the columns) and fitted "
    "values must agree.  Distinct by problem and renaming."
)
MIN_EVENTS = {"models": 60, "fits": 60, "real_fits": 8, "renamed": 300, "jacobians": 80, "permuted": 40, "expressions": 60}

# valid identifiers that are names of something else somewhere
HOSTILE = ["np", "sp", "pd", "add", "repeat", "chain", "pi", "E", "I", "S", "N", "O", "Q", "C", "lam", "gamma", "beta", "zeta", "re", "im", "sign", "x", "y", "t", "a",
           "i", "j", "k", "V", "SRF", "R", "RT1", "self", "partial", "lru_cache", "log", "tan", "Abs", "Max", "Min", "Symbol", "test", "var", "a1", "a11", "a_1", "_a",
           "__b", "A", "B", "ab", "abc", "tau1", "tau_", "omega_0", "NormBRDF2", "theta", "phi", "n0", "nn", "dtau", "result", "data", "index", "date", "param",
           "fn", "mu_0", "sum", "max", "min", "print", "list", "dict", "str", "int", "float", "math", "e", "inf", "nan", "array", "where", "copy", "items", "keys",
           "values", "name", "add_variable", "to_dict", "freq", "val", "fitQ", "interpQ", "τ", "ω_1", "très", "ID", "sig0", "dB", "tot", "surf", "vol", "inter", "mask",
           "LinCombV", "Rayleigh", "ncoefs", "oo", "zoo", "GF", "QQ", "ZZ", "factorial", "legendre", "Heaviside", "Piecewise", "sec", "rad", "deg", "conjugate", "cot"]
# (functions that the generated expressions use, and the symbols of the model itself)
RESERVED = {"sqrt", "exp", "log", "sin", "cos", "bsf", "n", "theta_0", "theta_s", "theta_ex", "phi_0", "phi_s", "phi_ex", "inc", "sig", "data_weights", "index", "date", "self",
            "tau", "omega", "NormBRDF"}


def dense(j):
    return np.array(j.toarray() if hasattr(j, "toarray") else j, float)


def rename_map(rng, names, sort=None):
    pool = [h for h in HOSTILE if h not in RESERVED]
    pick = [str(x) for x in rng.permutation(pool)[: len(names)]]
    m = dict(zip(names, pick))
    if rng.random() < 0.2:  # swap existing names instead
        keep = [k for k in names if k not in RESERVED]
        perm = [str(x) for x in rng.permutation(keep)]
        m = {**{k: k for k in names}, **dict(zip(keep, perm))}
    return m


def ren_expr(s, m):
    if not isinstance(s, str):
        return s
    return re.sub(r"[^\W\d]\w*", lambda q: m.get(q.group(0), q.group(0)), s)


def ren_spec(spec, m):
    if spec["type"] == "LinComb":
        return dict(spec, choices=[(ren_expr(w, m), ren_spec(s, m)) for w, s in spec["choices"]])
    return dict(spec, t=ren_expr(spec["t"], m)) if "t" in spec else dict(spec)


def sym_spec(spec, m):
    """rename symbols of a spec of vf.models"""
    def one(v):
        return sp.Symbol(m[str(v)]) if isinstance(v, sp.Symbol) else v

    if spec["type"] == "LinComb":
        return dict(spec, choices=[(one(w), sym_spec(s, m)) for w, s in spec["choices"]])
    return dict(spec, t=one(spec["t"])) if "t" in spec else dict(spec)


def model(rng, mon, tier):
    geo = "mono" if rng.random() < 0.5 else ("vvvv" if rng.random() < 0.5 else "".join(rng.choice(["f", "v"], 4)))
    c = M.gen_cfg(rng, geo, comb=0.4, nmax=3, sym=0.9)
    if not c["pd"]:
        raise Skip("no symbols")
    names = list(c["pd"])
    m = rename_map(rng, names)
    d = dict(c, V=sym_spec(c["V"], m), SRF=sym_spec(c["SRF"], m))
    order = [str(x) for x in rng.permutation(names)]
    d["pd"] = {m[k]: c["pd"][k] for k in order}
    b = ["sympy", "symengine"][rng.integers(2)]
    mon.note(map=m, order=order, backend=b, **M.show(c))
    mon.distinct(c["V"], c["SRF"], m, order)
    mon.event("models")
    mon.event("renamed", len(m))
    mon.event("permuted", int(order != names))
    A, B = M.make(c, lambda_backend=b), M.make(d, lambda_backend=b)
    ra, rb = A.calc(), B.calc()
    for nm, x, y in zip(("total", "surface", "volume", "interaction"), rb, ra):
        y = np.asarray(y, float)
        mon.close(x, y, f"renamed-{nm}", rtol=1e-9, atol=1e-14, scale=np.abs(y) + 1e-5 * np.abs(np.asarray(ra[0])))
    pl = [str(x) for x in rng.permutation(["omega", "tau", "NormBRDF", "bsf"] + names)]
    dB, sig0 = bool(rng.integers(2)), bool(rng.integers(2))
    ja = A.jacobian(dB=dB, sig0=sig0, param_list=pl)
    jb = B.jacobian(dB=dB, sig0=sig0, param_list=[m.get(k, k) for k in pl])
    for k, x, y in zip(pl, jb, ja):
        mon.event("jacobians")
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        mon.close(x, y, "renamed-jacobian", rtol=1e-8, atol=1e-10, msg=f"d/d{m.get(k, k)}")


def ren_problem(rng, p):
    names = [k for k in p["defdict"] if k != "bsf"]
    m = rename_map(rng, names)
    q = {k: copy.deepcopy(v) for k, v in p.items() if k != "df"}
    for k in ("V", "SRF"):
        q[k] = ren_spec(p[k], m)
    for k in ("tau", "omega", "norm"):
        q[k] = ren_expr(p[k], m)
    order = [str(x) for x in rng.permutation(list(p["defdict"]))]
    q["defdict"] = {m.get(k, k): copy.deepcopy(p["defdict"][k]) for k in order}
    q["kinds"] = {m.get(k, k): p["kinds"][k] for k in order}
    cols = {}
    for c in p["df"].columns:
        base, suf = (c[:-4], "_dyn") if c.endswith("_dyn") else (c[:-6], "_start") if c.endswith("_start") else (c, "")
        cols[c] = m.get(base, base) + suf if base in p["defdict"] and c not in ("inc", "sig") else c
    df = p["df"].drop(columns=[c for c in p["df"].columns if c in ("unused", "other_dyn")])
    q["df"] = df.rename(columns=cols)
    return q, m, order


def fits(rng, mon, tier, real=False, int_Q=None):
    p = F.gen_problem(rng, int_Q=int_Q, nmax=2, n_dates=int(rng.integers(3, 7)), min_fit=2, comb=0.4)
    if p is None or any(k in ("inc", "sig") for k in p["defdict"]):
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    q, m, order = ren_problem(rng, p)
    if len(set(q["df"].columns)) != len(q["df"].columns):
        raise Skip("clashing columns")
    if real:
        lsq = dict(max_nfev=3, ftol=1e-10, xtol=1e-10, gtol=1e-10, x_scale=1.0)
        p["lsq"], q["lsq"] = dict(lsq), dict(lsq)
    mon.note(map=m, order=order, **F.note(p))
    mon.distinct(p["V"], p["SRF"], p["tau"], p["omega"], p["norm"], m, order)
    mon.event("real_fits" if real else "fits")
    mon.event("renamed", len(m))
    mon.event("permuted", int(order != list(p["defdict"])))
    ex = [s for s in (p["tau"], p["omega"], p["norm"]) if isinstance(s, str) and not s.isidentifier()]
    mon.event("expressions", len(ex))
    # the same fit by dict or function definition, independent of the original
    q["func"] = p["func"] if rng.random() < 0.6 else not p["func"]
    if any(not k.isidentifier() for k in m.values()):
        raise AssertionError
    A, B = F.make(p), F.make(q)
    refA = F.Ref(p, p["df"].sort_index(kind="stable"))
    oA = [k for k in p["defdict"] if p["kinds"][k] == "fit"]
    st = int(rng.integers(2**31))
    vals = {}
    r = np.random.default_rng(st)
    for k in oA:
        lo, hi = p["defdict"][k][3]
        vals[k] = lo[0] + (hi[0] - lo[0]) * r.uniform(0.15, 0.85, refA.ngroups[k])
    inv = {b: a for a, b in m.items()}
    rec = {}

    def choose(tag):
        def f(call):
            fit = A if tag == "A" else B
            names = [k if tag == "A" else inv.get(k, k) for k in fit._startvaldict]
            x = np.concatenate([vals[k] for k in names])
            rec[tag] = dict(names=names, fun=np.array(call.fun(x.copy()), float), jac=dense(call.jac(x.copy())) if callable(call.jac) else None,
                            x0=np.array(call.x0), lo=call.lohi()[0], hi=call.lohi()[1])
            return x
        return f

    if real:
        for tag, fit in (("A", A), ("B", B)):
            fit.performfit()
        res = {inv.get(k, k): np.asarray(v) for k, v in B.res_dict.items()}
        mon.equal(sorted(res), sorted(A.res_dict), "renamed-result-names")
        for k in A.res_dict:
            mon.close(res[k], A.res_dict[k], "renamed-fitted-value", rtol=2e-2, atol=2e-3, msg=k)
        ta, tb = A.calc_model(return_components=True), B.calc_model(return_components=True)
        ok = np.isfinite(ta.values)
        mon.close(tb.values[ok], ta.values[ok], "renamed-fitted-model", rtol=2e-2, atol=2e-3)
        return
    for tag, fit in (("A", A), ("B", B)):
        with hooks.capture(choose=choose(tag)):
            fit.performfit()
    a, b = rec["A"], rec["B"]
    n = {k: refA.ngroups[k] for k in oA}

    def blocks(names):
        out, pos = {}, 0
        for k in names:
            out[k] = slice(pos, pos + n[k])
            pos += n[k]
        return out

    if not mon.equal(sorted(b["names"]), sorted(a["names"]), "renamed-optimised-parameters"):
        return
    ba, bb = blocks(a["names"]), blocks(b["names"])
    # the order of rows with equal dates may differ between identical datasets only if the input order differs (it does not)
    fin = np.isfinite(a["fun"])
    mon.close(b["fun"][fin], a["fun"][fin], "renamed-residual", rtol=1e-6, atol=1e-6)
    for k in oA:
        mon.close(b["x0"][bb[k]], a["x0"][ba[k]], "renamed-start", rtol=1e-12, msg=k)
        mon.close(b["lo"][bb[k]], a["lo"][ba[k]], "renamed-bounds", rtol=1e-12, msg=k)
        mon.close(b["hi"][bb[k]], a["hi"][ba[k]], "renamed-bounds", rtol=1e-12, msg=k)
        if a["jac"] is not None and b["jac"] is not None:
            mon.event("jacobians")
            x, y = b["jac"][:, bb[k]], a["jac"][:, ba[k]]
            okj = np.isfinite(y)
            mon.close(x[okj], y[okj], "renamed-fit-jacobian", rtol=1e-6, atol=1e-6, msg=f"d/d{m.get(k, k)}")
        mon.close(B.res_dict[m.get(k, k)], A.res_dict[k], "renamed-result", rtol=1e-12, msg=k)
        mon.close(B.res_df[m.get(k, k)].values, A.res_df[k].values, "renamed-res_df", rtol=1e-9, atol=1e-12, msg=k)
    ta, tb = A.calc_model(return_components=True), B.calc_model(return_components=True)
    ok = np.isfinite(ta.values)
    mon.close(tb.values[ok], ta.values[ok], "renamed-model", rtol=1e-6, atol=1e-6)
    # explicit evaluation, values handed over in any order
    inc = np.array([0.35, 0.77])
    par = {k: 0.21 + 0.02 * i for i, k in enumerate(oA)}
    fx = {k: 0.3 for k, kd in p["kinds"].items() if kd == "aux"}
    ca = np.asarray(A.calc(par, inc, fixed_param=fx or None))
    ren = {m.get(k, k): v for k, v in par.items()}
    ren = {str(k): ren[str(k)] for k in rng.permutation(list(ren))}
    cb = np.asarray(B.calc(ren, inc, fixed_param={m.get(k, k): v for k, v in fx.items()} or None))
    ok = np.isfinite(ca)
    mon.close(cb[ok], ca[ok], "renamed-calc", rtol=1e-6, atol=1e-6)


def fits_plain(rng, mon, tier):
    fits(rng, mon, tier, int_Q=False)


def fits_inter(rng, mon, tier):
    fits(rng, mon, tier, int_Q=True)


def fits_real(rng, mon, tier):
    fits(rng, mon, tier, real=True, int_Q=bool(rng.random() < 0.2))


SCENARIOS = [
    S("model", model, 90, 1500),
    S("fits", fits_plain, 90, 1500),
    S("fits_inter", fits_inter, 20, 300),
    S("fits_real", fits_real, 16, 250),
]
