"""P06: linear combinations equal the weighted sum of their components (metamorphic: combination vs. separately built objects)."""
import numpy as np

from . import models as M
from .core import S

ID = "P06"
LEVEL = "exploration"
RULE = (
    "Random combined phase functions / BRDFs (1-4 components, random order, shared and different scattering-angle parameters, mixed series lengths, "
    "numeric/symbolic/array weights) are compared with weighted sums of separately created component objects: values, zenith derivatives, symbolic "
    "expansions, slopes, parameter derivatives and the complete model including the (bilinear) interaction; permutation, splitting and "
    "zero-weight components change nothing.  Distinct by combination."
)
MIN_EVENTS = {"function_sum": 60, "expansion_sum": 40, "model_sum": 40, "interaction_sum": 40, "permuted": 20}


def _comb(rng, kind, nmax=4, n=None, equal_len=True):
    s = M.gen_lincomb(rng, kind, nmax, n=int(rng.integers(1, 5)) if n is None else n)
    if equal_len:
        L = M.series_lengths(s)
        for (w, q), k in zip(s["choices"], L):
            if "ncoefs" in q:
                q["ncoefs"] = int(k)
    return s


def _sym(rng, spec, names):
    raw, pd = M.symbolize(spec, rng, names, 0.7)
    return raw, {str(k): pd[str(k)] for k in rng.permutation(list(pd))} if pd else {}


def functions(rng, mon, tier):
    kind = "V" if rng.random() < 0.5 else "SRF"
    spec = _comb(rng, kind)
    raw, pd = _sym(rng, spec, ["ta", "wb", "wa", "tb", "wc", "tc"])
    geo = "mono" if rng.random() < 0.4 else "vvvv"
    n = 4
    t0, tex = M.angles(rng, n), M.angles(rng, n)
    p0, pex = (np.full(n, 0.3), None) if geo == "mono" else (np.round(rng.uniform(-3, 3, n), 3), np.round(rng.uniform(-3, 6, n), 3))
    if geo == "mono":
        tex, pex = t0, p0 + np.pi
    if pd and rng.random() < 0.4:
        pd = {k: np.round(v * rng.uniform(0.7, 1.2, n), 4) for k, v in pd.items()}
    mon.note(kind=kind, spec=raw, pd=pd)
    mon.distinct(raw, pd, geo)
    X = M.build(raw)
    ref = M.substitute(raw, pd)
    parts = [(w, M.build(s)) for w, s in M.components(spec)]
    wts = [w for w, _ in ref["choices"]]
    raws = [M.build(s) for _, s in raw["choices"]]
    f = (lambda o: o.p) if kind == "V" else (lambda o: o.brdf)
    d = (lambda o: o.p_theta_diff) if kind == "V" else (lambda o: o.brdf_theta_diff)
    full = lambda x: np.broadcast_to(x, (n,))
    want = sum(w * full(f(o)(t0, tex, p0, pex, param_dict=pd)) for w, o in zip(wts, raws))
    mon.close(full(f(X)(t0, tex, p0, pex, param_dict=pd)), want, f"value-sum-{kind}", rtol=1e-10, atol=1e-14)
    if not any(np.size(v) > 1 for v in pd.values()) or True:
        for k in (1, 2):
            want = sum(w * full(d(o)(t0, tex, p0, pex, geo, param_dict=pd, n=k)) for w, o in zip(wts, raws))
            got = d(X)(t0, tex, p0, pex, geo, param_dict=pd, n=k)
            mon.close(full(got), want, f"derivative-sum-{kind}", rtol=1e-8, atol=1e-11)
    mon.event("function_sum")


def _series(X, spec, pd, kind, ang, ts, ps):
    import sympy as sp

    e = sp.sympify(X.legexpansion(*(np.array([a]) for a in ang), "vvvv").doit())
    sub = dict(zip(["theta_0", "theta_ex", "phi_0", "phi_ex"], ang))
    sub.update(theta_s=ts, phi_s=ps)
    return float(sp.N(e.subs({sp.Symbol(k): v for k, v in {**sub, **pd}.items()})))


def expansion(rng, mon, tier):
    kind = "V" if rng.random() < 0.5 else "SRF"
    same = rng.random() < 0.6
    spec = _comb(rng, kind, equal_len=same)
    raw, pd = _sym(rng, spec, ["ta", "wb", "wa", "tb", "wc", "tc"])
    ang = [float(np.round(rng.uniform(*q), 3)) for q in ((0.05, 1.5), (0.05, 1.5), (-3, 3), (-3, 6))]
    ts, ps = float(np.round(rng.uniform(0.05, 1.5), 3)), float(np.round(rng.uniform(-3, 3), 3))
    mon.note(kind=kind, spec=raw, pd=pd, same_length=same)
    mon.distinct(raw, pd)
    got = _series(M.build(raw), raw, pd, kind, ang, ts, ps)
    args = (np.pi - ang[0], ts, ang[2], ps) if kind == "V" else (ts, ang[1], ps, ang[3])
    mon.close(got, float(M.series(spec, *args)), f"expansion-{kind}", rtol=1e-9, atol=1e-11)
    if same:
        want = sum(w * _series(M.build(s), s, {}, kind, ang, ts, ps) for w, s in spec["choices"])
        mon.close(got, want, f"expansion-sum-{kind}", rtol=1e-9, atol=1e-11)
    mon.event("expansion_sum")
    mon.equal(M.build(raw).ncoefs, M.max_ncoefs(spec), "combined-ncoefs")


def model(rng, mon, tier):
    """complete model: bilinear in the two functions"""
    nmax = 3
    c = M.gen_cfg(rng, "mono" if rng.random() < 0.7 else "vvvv", comb=0.0, nmax=nmax, n=int(rng.integers(1, 4)), array_pars=0.15)
    both = rng.random()
    if both < 0.7:
        c["V"] = _comb(rng, "V", nmax, n=int(rng.integers(1, 4)))
    if both > 0.35:
        c["SRF"] = _comb(rng, "SRF", nmax, n=int(rng.integers(1, 4)))
    # the same series length everywhere: components and combination use identical expansions
    raw = dict(c)
    names = [str(x) for x in rng.permutation(["ta", "wb", "wa", "tb", "wc", "tc"])]
    if rng.random() < 0.5:
        raw["V"], d1 = M.symbolize(c["V"], rng, names, 0.7)
        raw["SRF"], d2 = M.symbolize(c["SRF"], rng, names, 0.7)
        raw["pd"] = {**d2, **d1}
    mon.note(**M.show(raw))
    mon.distinct(raw["V"], raw["SRF"], c["tau"])
    got = M.make(raw).calc()
    want = [0, 0, 0, 0]
    for wv, v in M.components(c["V"]):
        for ws, s in M.components(c["SRF"]):
            r = M.make(dict(c, V=v, SRF=s)).calc()
            want[3] = want[3] + wv * ws * r[3]
    for wv, v in M.components(c["V"]):
        want[2] = want[2] + wv * M.make(dict(c, V=v, SRF=dict(kind="SRF", type="Isotropic", a=[1.0, 1.0, 1.0])), int_Q=False).calc()[2]
    for ws, s in M.components(c["SRF"]):
        want[1] = want[1] + ws * M.make(dict(c, SRF=s, V=dict(kind="V", type="Rayleigh", a=[-1.0, 1.0, 1.0])), int_Q=False).calc()[1]
    want[0] = want[1] + want[2] + want[3]
    for nm, g, w in zip(("total", "surface", "volume", "interaction"), got, want):
        sc = np.abs(w) + 1e-6 * np.abs(got[0])
        mon.close(g, np.broadcast_to(w, np.shape(g)), f"model-sum-{nm}", rtol=1e-8, atol=1e-14, scale=sc)
    mon.event("model_sum")
    mon.event("interaction_sum")


def invariances(rng, mon, tier):
    """order, splitting, zero weights, combination of one"""
    c = M.gen_cfg(rng, "mono", comb=0.0, nmax=3, n=2, array_pars=0.0)
    kind = "V" if rng.random() < 0.5 else "SRF"
    c[kind] = _comb(rng, kind, 3, n=int(rng.integers(1, 4)))
    base = M.make(c).calc()
    ch = list(c[kind]["choices"])
    what = int(rng.integers(4))
    if what == 0:
        new = [ch[i] for i in rng.permutation(len(ch))]
    elif what == 1:
        i = int(rng.integers(len(ch)))
        f = M.r(rng.uniform(0.1, 0.9))
        new = ch[:i] + [(ch[i][0] * f, dict(ch[i][1]))] + ch[i + 1:] + [(ch[i][0] * (1 - f), dict(ch[i][1]))]
    elif what == 2:
        extra = M.gen_single(rng, kind, 3, True, types=["HenyeyGreenstein", "HGRayleigh"] if kind == "V" else None)
        for q in [s for _, s in ch]:
            if list(M.default_a(q)) == list(M.default_a(extra)) and "ncoefs" in extra:
                # a longer series in the same group would legitimately extend the others
                extra["ncoefs"] = 1
        new = ch + [(0.0, extra)]
        new = [new[i] for i in rng.permutation(len(new))]
    else:
        i = int(rng.integers(len(ch)))
        c = dict(c, **{kind: ch[i][1]})
        base = M.make(c).calc()
        new = [(1.0, ch[i][1])]
    d = dict(c, **{kind: dict(kind=kind, type="LinComb", choices=new)})
    mon.note(what=what, base=c[kind], new=d[kind])
    mon.distinct(c[kind], what, new)
    R = M.make(d)
    got = R.calc()
    for nm, g, w in zip(("total", "surface", "volume", "interaction"), got, base):
        mon.close(g, w, f"invariance-{('order', 'splitting', 'zero-weight', 'single')[what]}-{nm}", rtol=1e-8, atol=1e-14, scale=np.abs(w) + 1e-6 * np.abs(base[0]))
    B = M.make(c)
    for m in ("tot_slope", "tot_curv"):
        mon.close(getattr(R, m)(), getattr(B, m)(), f"invariance-{m}", rtol=1e-7, atol=1e-10)
    mon.event("permuted")
    # objects used in a combination are unchanged by it
    objs = [M.build(s) for _, s in ch]
    from rt1 import surface as rs, volume as rv

    before = [(o.ncoefs, list(o.a), repr(o.legcoefs), repr(o._func) if hasattr(o, "_func") else "") for o in objs]
    lst = [[w, o] for (w, _), o in zip(ch, objs)]
    comb = rv.LinCombV(Vchoices=lst, tau=0.3, omega=0.2) if kind == "V" else rs.LinCombSRF(SRFchoices=lst, NormBRDF=0.3)
    (comb.p if kind == "V" else comb.brdf)(0.2, 0.3, 0.1, 0.2)
    after = [(o.ncoefs, list(o.a), repr(o.legcoefs), repr(o._func) if hasattr(o, "_func") else "") for o in objs]
    mon.equal(after, before, "components-unchanged")


SCENARIOS = [
    S("functions", functions, 90, 1500),
    S("expansion", expansion, 80, 1200),
    S("model", model, 100, 1500),
    S("invariances", invariances, 60, 800),
]
