"""P08: compilation backend, coefficient re-use and parametrisation are interchangeable."""
import numpy as np

from . import models as M
from .core import S, Skip

ID = "P08"
LEVEL = "exploration"
RULE = (
    "Random complete models are evaluated in pairs that differ only in how they are compiled or parametrised (sympy/symengine, fn_input / "
    "_fnevals_input of another object with the same scattering functions, every subset of parameters as symbols, scalar/array values, permuted "
    "dictionaries); all contributions and derivatives must agree.  Distinct by model, pairing and parameter subset."
)
MIN_EVENTS = {"backend_pair": 40, "reuse_fn": 25, "reuse_fnevals": 25, "number_vs_symbol": 40, "elementwise": 30, "dict_order": 30}
NAMES = ("total", "surface", "volume", "interaction")
BACKENDS = ["sympy", "symengine"]


def _cmp(mon, a, b, key, rtol=1e-9):
    for nm, g, w in zip(NAMES, a, b):
        w = np.asarray(w, float)
        mon.close(g, w, f"{key}-{nm}", rtol=rtol, atol=1e-14, scale=np.abs(w) + 1e-5 * np.abs(np.asarray(b[0])))


def _geom(rng):
    return "mono" if rng.random() < 0.5 else ("vvvv" if rng.random() < 0.5 else "".join(rng.choice(["f", "v"], 4)))


def _plist(rng, c):
    p = ["omega", "tau", "NormBRDF", "bsf"] + list(c["pd"])
    return [str(x) for x in rng.permutation(p)]


def _cmp_jac(rng, mon, A, B, plist, key):
    dB, sig0 = bool(rng.integers(2)), bool(rng.integers(2))
    ja, jb = A.jacobian(dB=dB, sig0=sig0, param_list=plist), B.jacobian(dB=dB, sig0=sig0, param_list=plist)
    for p, x, y in zip(plist, ja, jb):
        x, y = np.broadcast_arrays(x, y)
        mon.close(x, y, f"{key}-jacobian", rtol=1e-9, atol=1e-10, msg=p)


def backend(rng, mon, tier):
    c = M.gen_cfg(rng, _geom(rng), comb=0.3, nmax=4, sym=0.7)
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["t0"], list(c["pd"]))
    A, B = (M.make(c, lambda_backend=b) for b in BACKENDS)
    _cmp(mon, A.calc(), B.calc(), "backend")
    _cmp_jac(rng, mon, A, B, _plist(rng, c), "backend")
    mon.event("backend_pair")
    mon.event("backend_symbols", len(c["pd"]))


def reuse(rng, mon, tier):
    """coefficients only depend on the scattering functions and the declared geometry"""
    g = "mono" if rng.random() < 0.5 else "vvvv"
    c = M.gen_cfg(rng, g, comb=0.25, nmax=3, sym=0.6)
    d = M.gen_cfg(rng, g, comb=0.0, nmax=1, n=int(rng.integers(1, 5)))
    d.update(V=c["V"], SRF=c["SRF"], pd={})
    ks = [str(k) for k in rng.permutation(list(c["pd"]))] if c["pd"] else []
    for k in ks:
        v = float(np.mean(c["pd"][k])) * rng.uniform(0.8, 1.1)
        d["pd"][k] = v if rng.random() < 0.5 else np.full(d["t0"].shape, v)
    if g == "mono":
        d["p0"] = c["p0"]  # phi_0 is a constant of the monostatic coefficients
    b = BACKENDS[rng.integers(2)]
    mon.note(src=M.show(c), **M.show(d), backend=b)
    mon.distinct(c["V"], c["SRF"], d["t0"], list(d["pd"]))
    A = M.make(c, lambda_backend=b)
    fresh = M.make(d, lambda_backend=b).calc()
    if rng.random() < 0.5:
        A.calc()
    B = M.make(d, lambda_backend=BACKENDS[rng.integers(2)], fn_input=A.fn)
    _cmp(mon, B.calc(), fresh, "reuse-fn")
    mon.event("reuse_fn")
    C = M.make(d, lambda_backend=b, _fnevals_input=A._fnevals)
    _cmp(mon, C.calc(), fresh, "reuse-fnevals")
    mon.event("reuse_fnevals")
    # the object the coefficients were taken from is not affected
    _cmp(mon, A.calc(), M.make(c, lambda_backend=b).calc(), "reuse-source")


def number_vs_symbol(rng, mon, tier):
    c = M.gen_cfg(rng, _geom(rng), comb=0.3, nmax=3, sym=0.9, array_pars=0.2)
    if not c["pd"]:
        raise Skip("no symbols")
    # scalar values -> can be inserted as numbers
    c["pd"] = {k: float(np.mean(v)) for k, v in c["pd"].items()}
    sub = [k for k in c["pd"] if rng.random() < 0.6] or list(c["pd"])[:1]
    d = dict(c)
    part = {k: c["pd"][k] for k in sub}
    d["V"], d["SRF"] = M.substitute(c["V"], part), M.substitute(c["SRF"], part)
    d["pd"] = {k: v for k, v in c["pd"].items() if k not in sub}
    b = BACKENDS[rng.integers(2)]
    mon.note(inserted=sub, **M.show(c))
    mon.distinct(c["V"], c["SRF"], sub, c["t0"])
    A, B = M.make(c, lambda_backend=b), M.make(d, lambda_backend=b)
    _cmp(mon, A.calc(), B.calc(), "number-vs-symbol", rtol=1e-8)
    _cmp_jac(rng, mon, A, B, _plist(rng, d), "number-vs-symbol")
    mon.event("number_vs_symbol")
    # a constant array is the same as the scalar
    e = dict(c, pd={k: np.full(c["t0"].shape, v) for k, v in c["pd"].items()})
    _cmp(mon, M.make(e, lambda_backend=b).calc(), A.calc(), "scalar-vs-array", rtol=1e-9)


def elementwise(rng, mon, tier):
    n = int(rng.integers(2, 5))
    c = M.gen_cfg(rng, "mono" if rng.random() < 0.5 else "vvvv", comb=0.3, nmax=3, sym=0.8, n=n)
    c["pd"] = {k: np.asarray(v) * np.round(rng.uniform(0.7, 1.1, n), 3) if rng.random() < 0.8 else float(np.mean(v)) for k, v in c["pd"].items()}
    b = BACKENDS[rng.integers(2)]
    mon.note(**M.show(c), backend=b)
    mon.distinct(c["V"], c["SRF"], c["t0"], c["pd"])
    R = M.make(c, lambda_backend=b)
    res = R.calc()
    plist = _plist(rng, c)
    jac = R.jacobian(param_list=plist)

    def pick(v, i):
        v = np.asarray(v)
        return float(v.ravel()[i]) if v.size == n and v.ndim else float(v.ravel()[0])

    for i in range(n):
        d = dict(c)
        for k in ("tau", "omega", "norm", "bsf"):
            d[k] = pick(c[k], i)
        for k in ("t0", "tex", "p0", "pex"):
            d[k] = np.array([pick(c[k], i)])
        if c["geometry"] == "mono":
            d["p0"] = c["p0"]
        d["pd"] = {k: pick(v, i) for k, v in c["pd"].items()}
        Q = M.make(d, lambda_backend=b)
        single = Q.calc()
        for nm, g, w in zip(NAMES, res, single):
            mon.close(np.asarray(g).ravel()[i], np.asarray(w).ravel()[0], f"elementwise-{nm}", rtol=1e-9, atol=1e-14, scale=np.abs(single[0]).max())
        for p, g, w in zip(plist, jac, Q.jacobian(param_list=plist)):
            mon.close(np.broadcast_to(g, (n,))[i], np.asarray(w).ravel()[0], "elementwise-jacobian", rtol=1e-9, atol=1e-12, msg=p)
    mon.event("elementwise")
    mon.event("elements", n)


def dict_order(rng, mon, tier):
    c = M.gen_cfg(rng, _geom(rng), comb=0.7, nmax=3, sym=0.9)
    if len(c["pd"]) < 2:
        raise Skip("fewer than two symbols")
    ks = list(c["pd"])
    perm = [ks[i] for i in rng.permutation(len(ks))]
    if perm == ks:
        perm = ks[::-1]
    d = dict(c, pd={k: c["pd"][k] for k in perm})
    b = BACKENDS[rng.integers(2)]
    mon.note(orders=(ks, perm), **M.show(c), backend=b)
    mon.distinct(c["V"], c["SRF"], ks, perm, c["t0"])
    A, B = M.make(c, lambda_backend=b), M.make(d, lambda_backend=b)
    ra = A.calc()
    _cmp(mon, B.calc(), ra, "dict-order")
    _cmp_jac(rng, mon, A, B, _plist(rng, c), "dict-order")
    # values handed over after the functions have been generated
    A.param_dict = {k: c["pd"][k] for k in perm}
    _cmp(mon, A.calc(), ra, "dict-order-later")
    # compiled functions of one are valid for the other
    if "f" not in c["geometry"]:
        C = M.make(d, lambda_backend=b, _fnevals_input=A._fnevals)
        _cmp(mon, C.calc(), ra, "dict-order-fnevals")
    mon.event("dict_order")


SCENARIOS = [
    S("backend", backend, 60, 900),
    S("reuse", reuse, 40, 600),
    S("number_vs_symbol", number_vs_symbol, 60, 900),
    S("elementwise", elementwise, 40, 600),
    S("dict_order", dict_order, 60, 900),
]
