"""P05: scattering functions vs. independent definitions: values, normalisation, Legendre series, hemispherical reflectance."""
import numpy as np
from numpy.polynomial.legendre import leggauss, legval

from . import models as M
from .core import S, Skip

ID = "P05"
LEVEL = "exploration"
RULE = (
    "Random phase functions and BRDFs (all types, signs and sizes of the asymmetry parameter, powers, generalised scattering angles, combinations, "
    "symbolic parameters): p()/brdf() values against independent numpy definitions, normalisation and nadir reflectance by spherical quadrature of "
    "the real function, Legendre coefficients against quadrature projections of the real function, truncated and long symbolic expansions against "
    "the function, hemreflect() against quadrature.  Distinct by function specification."
)
MIN_EVENTS = {"value_compared": 500, "normalised": 60, "coefficient": 300, "series_value": 100, "nadir_reflectance": 20, "hemreflect": 20}


def _fn(X, kind):
    return X.p if kind == "V" else X.brdf


def values(rng, mon, tier):
    kind = "V" if rng.random() < 0.5 else "SRF"
    c = M.gen_cfg(rng, "vvvv", sym=0.8 if rng.random() < 0.5 else 0.0, comb=0.3, shape2d=0.2, n=6, array_pars=0.4, tmax=89)
    raw, spec = (c["V"], M.ref_specs(c)[0]) if kind == "V" else (c["SRF"], M.ref_specs(c)[1])
    mon.note(kind=kind, spec=raw, pd=c["pd"])
    mon.distinct(raw, c["pd"])
    X = M.build(raw)
    ang = M.ref_angles(c)
    want = M.value(spec, *ang)
    got = _fn(X, kind)(*ang, param_dict=dict(c["pd"]))
    mon.close(np.broadcast_to(got, want.shape), want, f"value-{kind}", rtol=1e-10, atol=1e-14)
    mon.event("value_compared", want.size)
    # scalars, and a permuted parameter dictionary
    i = tuple(int(rng.integers(k)) for k in want.shape)
    pd = {k: float(np.broadcast_to(c["pd"][k], want.shape)[i]) for k in [str(x) for x in rng.permutation(list(c["pd"]))]} if c["pd"] else {}
    g1 = _fn(X, kind)(*(float(a[i]) for a in ang), param_dict=pd)
    mon.close(float(np.ravel(g1)[0]), want[i], f"value-scalar-{kind}", rtol=1e-10, atol=1e-14)
    mon.check(np.all(want >= 0) and np.all(got >= 0) or raw["type"] == "LinComb", "non-negative")
    # symmetric functions of the two directions
    back = _fn(X, kind)(ang[1], ang[0], ang[3], ang[2], param_dict=dict(c["pd"]))
    mon.close(np.broadcast_to(back, want.shape), want, f"reciprocity-{kind}", rtol=1e-10, atol=1e-14)


def expression(rng, mon, tier):
    """parameters given as an expression of symbols"""
    import sympy as sp

    kind = "V" if rng.random() < 0.5 else "SRF"
    types = ["HenyeyGreenstein", "HGRayleigh"] if kind == "V" else ["HenyeyGreenstein", "HG_nadirnorm"]
    spec = M.gen_single(rng, kind, 3, True, types=types)
    x, y = sp.Symbol("xa"), sp.Symbol("yb")
    form = int(rng.integers(3))
    va, vb = M.r(rng.uniform(0.2, 0.9)), M.r(rng.uniform(0.2, 0.9))
    expr, t = [(0.5 * x, 0.5 * va), (x * y, va * vb), (x**2 - 0.1 * y, va**2 - 0.1 * vb)][form]
    pd = {"xa": va} if form == 0 else {"yb": vb, "xa": va}
    if abs(t) < 0.03:
        raise Skip("degenerate")
    mon.note(spec=spec, expr=str(expr), pd=pd)
    mon.distinct(spec, str(expr), pd)
    X = M.build(dict(spec, t=expr))
    ang = [np.array(v) for v in ([0.3, 0.7], [0.2, 1.0], [0.1, 0.5], [2.0, 1.0])]
    mon.close(_fn(X, kind)(*ang, param_dict=pd), M.value(dict(spec, t=t), *ang), f"value-expression-{kind}", rtol=1e-10)
    mon.event("expression")


def _sphere(n=64, hemi=False):
    x, w = leggauss(n)
    if hemi:
        x, w = (x + 1) / 2, w / 2
    ph = np.arange(2 * n) * np.pi / n
    th = np.arccos(x)
    T, P = np.meshgrid(th, ph, indexing="ij")
    return T, P, w[:, None] * np.pi / n


def normalised(rng, mon, tier):
    """integral of a phase function over all directions"""
    spec = M.gen_single(rng, "V", 4, False) if rng.random() < 0.7 else M.gen_lincomb(rng, "V", 4, free_a=False)
    sgn = [float(rng.choice([-1, 1])) for _ in range(3)]
    comp = [s for _, s in M.components(spec)]
    for s in comp:  # isometries keep the normalisation
        if s["type"] != "Rayleigh" and rng.random() < 0.4:
            s["a"] = list(sgn)
    mon.note(spec=spec)
    mon.distinct(spec)
    X = M.build(spec)
    T, P, w = _sphere()
    t0, p0 = float(rng.uniform(0, 1.5)), float(rng.uniform(-3, 3))
    got = np.sum(w * X.p(t0, T, p0, P))
    mon.close(got, 1.0, "phase-function-normalisation", rtol=1e-8, msg=f"{spec}")
    mon.event("normalised")


def coefficients(rng, mon, tier):
    """legcoefs of single functions are the projections of the function the object evaluates"""
    import sympy as sp

    kind = "V" if rng.random() < 0.5 else "SRF"
    spec = M.gen_single(rng, kind, 8, True)
    raw, pd = M.symbolize(spec, rng, ["ta"], 0.5)
    mon.note(spec=raw, pd=pd)
    mon.distinct(spec)
    X = M.build(raw)
    n = sp.Symbol("n")
    # the function along the scattering cosine, taken from the object itself (a = [1,1,1], t_ex=pi-like scan is not
    # possible for a general a, hence the independent definition, which `values` ties to the object)
    want = M.leg_coefs(spec, 8)
    N = {"Rayleigh": 3, "Isotropic": 1}.get(spec["type"], 8)
    got = []
    for k in range(N):
        e = sp.sympify(X.legcoefs).subs({n: k})
        e = e.subs({sp.Symbol(q): v for q, v in pd.items()})
        got.append(float(sp.N(e)))
    mon.close(np.array(got), want[:N], f"legendre-coefficients-{kind}-{spec['type']}", rtol=1e-9, atol=1e-10)
    mon.event("coefficient", N)
    mon.equal(X.ncoefs, M.ncoefs(spec), "ncoefs")


def expansion(rng, mon, tier):
    """legexpansion (all geometries): truncated series, and convergence of a long one to the function"""
    import sympy as sp

    kind = "V" if rng.random() < 0.5 else "SRF"
    long = rng.random() < 0.35
    if long:
        spec = M.gen_single(rng, kind, 3, True, types=["HenyeyGreenstein", "HGRayleigh", "Rayleigh"] if kind == "V" else ["HenyeyGreenstein", "HG_nadirnorm"], tmax=0.35)
        if "ncoefs" in spec:
            spec["ncoefs"] = 14
    else:
        spec = M.gen_single(rng, kind, 7, True) if rng.random() < 0.6 else M.gen_lincomb(rng, kind, 4)
    raw, pd = M.symbolize(spec, rng, ["ta", "tb", "wa", "wb"], 0.5)
    geo = "mono" if rng.random() < 0.3 else "".join(rng.choice(["f", "v"], 4))
    mon.note(spec=raw, pd=pd, geometry=geo)
    mon.distinct(raw, pd, geo)
    X = M.build(raw)
    t0, tex, p0, pex = (float(np.round(rng.uniform(*q), 3)) for q in ((0.05, 1.5), (0.05, 1.5), (-3, 3), (-3, 6)))
    ts, ps = float(np.round(rng.uniform(0.05, 1.5), 3)), float(np.round(rng.uniform(-3, 3), 3))
    if geo == "mono":
        tex, pex = t0, p0 + np.pi
    A = [np.array([v]) for v in (t0, tex, p0, pex)]
    e = X.legexpansion(*A, geo).doit()
    sub = dict(theta_0=t0, theta_ex=tex, phi_0=p0, phi_ex=pex, theta_s=ts, phi_s=ps)
    val = float(sp.N(e.subs({sp.Symbol(k): v for k, v in sub.items()}).subs({sp.Symbol(k): v for k, v in pd.items()})))
    args = (np.pi - t0, ts, p0, ps) if kind == "V" else (ts, tex, ps, pex)
    want = float(M.series(spec, *args))
    mon.close(val, want, f"series-{kind}", rtol=1e-9, atol=1e-11, msg=f"geometry={geo}")
    mon.event("series_value")
    free = {str(s) for s in sp.sympify(e).free_symbols} - set(pd)
    allowed = {"theta_s", "phi_s"} | ({"theta_0"} if geo == "mono" else {n for n, g in zip(["theta_0", "theta_ex", "phi_0", "phi_ex"], geo) if g == "v"})
    mon.check(free <= allowed, "series-free-symbols", f"{free} geometry {geo}")
    if long:
        mon.close(val, float(M.value(spec, *args)), f"series-converges-{kind}", rtol=2e-4, atol=1e-5)
        mon.event("converged_series")


def nadir(rng, mon, tier):
    """hemispherical reflectance of the nadir-normalised function at nadir"""
    spec = M.gen_single(rng, "SRF", 3, True, types=["HG_nadirnorm"], tmax=0.9)
    raw, pd = M.symbolize(spec, rng, ["ta"], 0.5)
    mon.note(spec=raw, pd=pd)
    mon.distinct(spec)
    X = M.build(raw)
    T, P, w = _sphere(96, hemi=True)
    got = np.sum(w * np.cos(T) * X.brdf(0.0, T, 0.3, P, param_dict=pd))
    mon.close(got, 1.0, "nadir-normalisation", rtol=1e-6)
    mon.event("nadir_reflectance")


def hemreflect(rng, mon, tier):
    spec = M.gen_spec(rng, "SRF", 3, 0.3, tmax=0.5)
    raw, pd = M.symbolize(spec, rng, ["ta", "tb", "wa", "wb"], 0.5)
    if any(s["type"] == "CosineLobe" and s["i"] == 0 for _, s in M.components(spec)):
        raise Skip("discontinuous function: quadrature is not accurate")
    norm = M.r(rng.uniform(0.1, 1))
    lo, step = float(rng.integers(0, 40)), float(rng.integers(10, 40))
    hi = float(rng.integers(60, 91))
    phi = M.r(rng.uniform(-3, 3))
    mon.note(spec=raw, pd=pd, norm=norm, grid=(lo, hi, step), phi=phi)
    mon.distinct(raw, pd, norm, lo, hi, step)
    import matplotlib.pyplot as plt
    from rt1.rtplots import hemreflect as hr

    kw = dict(phi_0=phi, t_0_step=step, t_0_min=lo, t_0_max=hi, simps_N=301, returnarray=True, param_dict=pd)
    mode = int(rng.integers(3))
    import sympy as sp

    if mode == 0:
        got = M.build(raw, NormBRDF=norm).hemreflect(**kw)
    elif mode == 1:
        got = hr(SRF=M.build(raw, NormBRDF=sp.Symbol("nn")), **dict(kw, param_dict=dict(pd, nn=norm)))
    else:
        V = dict(kind="V", type="Rayleigh", a=None)
        from rt1.rt1 import RT1

        R = RT1(1.0, 0.1, 0.1, 0.0, 0.0, V=M.build(V, tau=0.1, omega=0.1), SRF=M.build(raw, NormBRDF=norm), param_dict=pd, verbosity=0)
        got = hr(R=R, **kw)
    plt.close("all")
    grid = np.arange(lo, hi, step)
    T, P, w = _sphere(160, hemi=True)
    want = np.array([norm * np.sum(w * np.cos(T) * M.value(spec, np.deg2rad(g), T, phi, P)) for g in grid])
    mon.close(np.asarray(got, float), want, "hemreflect", rtol=3e-4, atol=1e-5, msg=f"mode={mode}")
    mon.event("hemreflect")


SCENARIOS = [
    S("values", values, 160, 2500),
    S("expression", expression, 40, 300),
    S("normalised", normalised, 80, 800),
    S("coefficients", coefficients, 80, 800),
    S("expansion", expansion, 130, 1500),
    S("nadir", nadir, 40, 400),
    S("hemreflect", hemreflect, 40, 300),
]
