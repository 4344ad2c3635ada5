"""P07: evaluation-geometry declarations and reciprocity."""
import numpy as np

from . import models as M
from .core import S

ID = "P07"
LEVEL = "exploration"
RULE = (
    "Random models: every admissible 4-character geometry declaration (all 16 combinations, and mono vs. bistatic at the same angles) is compared "
    "with the all-variable evaluation of the same object; inadmissible declarations must be refused; interchanging source and receiver must leave "
    "every contribution / cos(incidence) unchanged.  Distinct by model, geometry and angles."
)
MIN_EVENTS = {"declaration_compared": 120, "mono_compared": 30, "refused": 60, "reciprocity": 40}
NAMES = ("total", "surface", "volume", "interaction")


def _cmp(mon, a, b, key, rtol=1e-8, f=1.0):
    for nm, g, w in zip(NAMES, a, b):
        g, w = np.broadcast_arrays(np.asarray(g), np.asarray(w) * f)
        mon.close(g, w, f"{key}-{nm}", rtol=rtol, atol=1e-14, scale=np.abs(w) + 1e-6 * np.abs(np.asarray(b[0]) * f), shape=False)


def declarations(rng, mon, tier):
    n = int(rng.integers(1, 4))
    c = M.gen_cfg(rng, "vvvv", comb=0.15, nmax=3, n=n, sym=0.5 if rng.random() < 0.3 else 0.0, array_pars=0.2)
    fixed = rng.random(4) < 0.6
    ang = ["t0", "tex", "p0", "pex"]
    for k, f in zip(ang, fixed):
        if f or n == 1:
            c[k] = np.full(n, c[k].ravel()[0]) if rng.random() < 0.7 else np.array([c[k].ravel()[0]])
    fixable = [np.unique(c[k]).size == 1 for k in ang]
    mon.note(fixable=fixable, **M.show(c))
    mon.distinct(c["V"], c["SRF"], fixable, c["t0"])
    kw = dict(lambda_backend=str(rng.choice(["sympy", "symengine"])))
    base = M.make(c, **kw).calc()
    strings = ["".join(s) for s in np.array(np.meshgrid(*[["f", "v"] if f else ["v"] for f in fixable])).reshape(4, -1).T]
    for i in rng.permutation(len(strings))[: 5 if tier == "quick" else 16]:
        g = strings[i]
        if g == "vvvv":
            continue
        _cmp(mon, M.make(c, geometry=g, **kw).calc(), base, f"declaration")
        mon.event("declaration_compared")
        mon.event("fully_fixed", g == "ffff")


def mono(rng, mon, tier):
    c = M.gen_cfg(rng, "mono", comb=0.2, nmax=3, n=int(rng.integers(1, 4)), array_pars=0.2)
    junk = dict(c, tex=M.angles(rng, c["t0"].shape), pex=np.array([M.r(rng.uniform(-3, 3))]))
    b = dict(c, geometry="vvvv", tex=c["t0"], p0=np.full(c["t0"].shape, c["p0"][0]), pex=np.full(c["t0"].shape, c["p0"][0] + np.pi))
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["t0"])
    r1, r2 = M.make(c).calc(), M.make(b).calc()
    _cmp(mon, r1, r2, "mono-vs-bistatic")
    _cmp(mon, M.make(junk).calc(), r1, "mono-ignores-exit-angles", rtol=1e-13)
    mon.event("mono_compared")


def refused(rng, mon, tier):
    """angles that are declared fixed but are not"""
    c = M.gen_cfg(rng, "vvvv", comb=0.1, nmax=2, n=3, array_pars=0.0)
    ang = ["t0", "tex", "p0", "pex"]
    what = int(rng.integers(6))
    geo = None
    if what < 4:
        for j, k in enumerate(ang):
            if j != what:
                c[k] = np.full(3, c[k][0])
        geo = "".join("f" if j == what or rng.random() < 0.5 else "v" for j in range(4))
    elif what == 4:
        geo = "mono"
    else:
        geo = str(rng.choice(["", "vvv", "vvvvv", "mon", "xvvv", "vvvx", "fvFv", "vv v", "MONO"]))
        for k in ang:
            c[k] = np.full(3, c[k][0])
    mon.note(what=what, geo=geo, **M.show(c))
    mon.distinct(c["V"], c["SRF"], what, geo)
    try:
        res = M.make(c, geometry=geo).calc()
    except Exception:
        res = None
    mon.check(res is None, "inadmissible-geometry-accepted", f"geometry={geo!r} with {c['t0']}, {c['tex']}, {c['p0']}, {c['pex']} -> {res}")
    mon.event("refused")
    if what < 4:
        # derivatives of the functions refuse the same declarations
        for kind, meth in (("V", "p_theta_diff"), ("SRF", "brdf_theta_diff")):
            try:
                res = getattr(M.build(c[kind]), meth)(c["t0"], c["tex"], c["p0"], c["pex"], geo)
            except Exception:
                res = None
            mon.check(res is None, "inadmissible-geometry-accepted-diff", f"{meth} geometry={geo!r}")


def reciprocity(rng, mon, tier):
    g = "vvvv" if rng.random() < 0.6 else "".join(rng.choice(["f", "v"], 4))
    c = M.gen_cfg(rng, g, comb=0.2, nmax=3, n=int(rng.integers(1, 4)), sym=0.5 if rng.random() < 0.3 else 0.0, array_pars=0.2)
    d = dict(c, t0=c["tex"], tex=c["t0"], p0=c["pex"], pex=c["p0"], geometry="".join(g[i] for i in (1, 0, 3, 2)))
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], g, c["t0"])
    _cmp(mon, M.make(d).calc(), M.make(c).calc(), "reciprocity", f=np.cos(c["tex"]) / np.cos(c["t0"]))
    mon.event("reciprocity")


SCENARIOS = [
    S("declarations", declarations, 60, 800),
    S("mono", mono, 50, 700),
    S("refused", refused, 90, 900),
    S("reciprocity", reciprocity, 60, 900),
]
