"""P01: interaction term == double integral (independent 2-D quadrature of the same series)."""
import numpy as np

from . import models as M
from .core import S

ID = "P01"
RULE = (
    "Random volume/surface functions (all types, combinations, generalised scattering angles, series lengths, numeric or symbolic "
    "parameters), optical depths 1e-6..40, scalar/1-D/2-D angles, mono- and bistatic geometry are evaluated with the real RT1 class; "
    "every interaction value is compared with a two-dimensional Gauss/trapezoid quadrature of the defining integral that shares no code "
    "with rt1.  Non-trivial: interaction value > 0 (i.e. not a trivial zero); distinct by model specification and geometry."
)
MIN_EVENTS = {"integral_compared": 60}
LEVEL = "exploration"

RTOL, ATOL = 1e-8, 1e-13


def _model(rng, nmax_v, nmax_s, comb, free_a=True, sym=0.0):
    V = M.gen_spec(rng, "V", nmax_v, comb, free_a)
    S_ = M.gen_spec(rng, "SRF", nmax_s, comb, free_a)
    return V, S_


def _compare(rng, mon, V, SRF, t0, tex, p0, pex, geometry, symprob=0.0, **kw):
    from rt1.rt1 import RT1

    tau, omega, norm = M.gen_tau(rng), M.r(rng.uniform(0.02, 0.9)), M.r(rng.uniform(0.02, 1.0))
    bsf = M.r(rng.uniform(0, 0.9)) if rng.random() < 0.4 else 0.0
    I0 = M.r(rng.uniform(0.2, 3)) if rng.random() < 0.4 else 1.0
    pd = {}
    vV, vS = V, SRF
    if symprob:
        names = list(rng.permutation(["ta", "tb", "wa", "wb", "tc", "wc"]))
        vV, d1 = M.symbolize(V, rng, names, symprob)
        vS, d2 = M.symbolize(SRF, rng, names, symprob)
        pd = {**d1, **d2}
        if rng.random() < 0.5 and np.size(t0) > 1 and np.ndim(t0) == 1:
            # element-wise values
            pd = {k: np.round(v * rng.uniform(0.7, 1.2, np.size(t0)), 4) for k, v in pd.items()}
        keys = list(rng.permutation(list(pd))) if pd else []
        pd = {str(k): pd[k] for k in keys}
    mon.note(V=vV, SRF=vS, tau=tau, omega=omega, norm=norm, bsf=bsf, I0=I0, geometry=geometry, t0=t0, tex=tex, p0=p0, pex=pex, param_dict=pd, **kw)
    mon.distinct(vV, vS, geometry, tau)
    R = RT1(I0, t0, tex, p0, pex, V=M.build(vV, tau=tau, omega=omega), SRF=M.build(vS, NormBRDF=norm),
            geometry=geometry, bsf=bsf, param_dict=pd, verbosity=0, **kw)
    tot, surf, vol, inter = R.calc()
    if geometry == "mono":
        tex, pex = t0, np.asarray(p0) + np.pi
    rv, rs = (M.substitute(vV, pd), M.substitute(vS, pd)) if pd else (V, SRF)
    want = M.interaction(rv, rs, t0, tex, p0, pex, tau, omega, norm, I0, bsf)
    want = np.atleast_1d(want)
    mon.event("integral_compared", want.size)
    mon.event("positive_values", int((want > 0).sum()))
    if max(M.max_ncoefs(V), M.max_ncoefs(SRF)) > 6:
        mon.event("long_series", want.size)
    if pd:
        mon.event("symbolic_parameters", want.size)
    # scale: magnitude of the individual terms (series may cancel)
    scale = np.abs(want) + 1e-3 * norm * omega * I0 * (1 - bsf) * np.exp(-tau)
    mon.check(np.all(np.isfinite(inter)), "interaction-finite", f"{inter}")
    mon.close(inter, want, "interaction-integral", rtol=RTOL, atol=ATOL, scale=scale, msg="interaction")
    mon.close(tot, np.asarray(surf) + vol + inter, "total-sum", rtol=1e-12)
    mon.close(R.interaction(), inter, "interaction-repeat", rtol=1e-12)
    return R


def mono(rng, mon, tier):
    big = tier == "thorough" and rng.random() < 0.2
    V, SRF = _model(rng, 10 if big else 6, 10 if big else 6, 0.25)
    n = int(rng.integers(1, 5))
    t0 = M.angles(rng, n)
    p0 = 0.0 if rng.random() < 0.5 else M.r(rng.uniform(-3, 3))
    _compare(rng, mon, V, SRF, t0, t0, p0, p0, "mono")


def mono_long(rng, mon, tier):
    V = M.gen_single(rng, "V", 10, True, types=["HenyeyGreenstein", "HGRayleigh"])
    SRF = M.gen_single(rng, "SRF", 10, True, types=["HenyeyGreenstein", "CosineLobe", "HG_nadirnorm"])
    V["ncoefs"], SRF["ncoefs"] = int(rng.integers(7, 11)), int(rng.integers(7, 11))
    t0 = M.angles(rng, 3)
    _compare(rng, mon, V, SRF, t0, t0, 0.0, 0.0, "mono")


def mono_2d(rng, mon, tier):
    V, SRF = _model(rng, 4, 4, 0.2)
    shp = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    t0 = M.angles(rng, shp)
    _compare(rng, mon, V, SRF, t0, t0, np.zeros(shp), np.zeros(shp), "mono")


def mono_symbolic(rng, mon, tier):
    V, SRF = _model(rng, 5, 5, 0.4)
    t0 = M.angles(rng, int(rng.integers(1, 4)))
    _compare(rng, mon, V, SRF, t0, t0, 0.0, 0.0, "mono", symprob=0.9, lambda_backend=str(rng.choice(["sympy", "symengine"])))


def bistatic(rng, mon, tier):
    V, SRF = _model(rng, 3, 3, 0.15)
    n = int(rng.integers(1, 4))
    t0, tex = M.angles(rng, n), M.angles(rng, n)
    if rng.random() < 0.2:
        tex = t0.copy()
    p0, pex = np.round(rng.uniform(-3, 3, n), 3), np.round(rng.uniform(-3, 6, n), 3)
    if rng.random() < 0.3:
        p0 = float(p0[0])
    if n > 1 and rng.random() < 0.2:
        t0 = float(t0[0])
    _compare(rng, mon, V, SRF, t0, tex, p0, pex, "vvvv", symprob=0.9 if rng.random() < 0.3 else 0.0)


def nadir(rng, mon, tier):
    """vertical incidence / exit is part of the domain"""
    V, SRF = _model(rng, 4, 3, 0.2)
    if rng.random() < 0.6:
        t0 = np.array([0.0, 0.3, 0.6])[: int(rng.integers(1, 4))]
        _compare(rng, mon, V, SRF, t0, t0, 0.0, 0.0, "mono")
    else:
        V, SRF = _model(rng, 3, 2, 0.0)
        t0, tex = np.array([0.0, 0.4, 0.0]), np.array([0.5, 0.0, 0.0])
        _compare(rng, mon, V, SRF, t0, tex, 0.2, 1.0, "vvvv")
    mon.event("nadir")


def converged(rng, mon, tier):
    """with long series the interaction converges to the integral over the exact functions"""
    from rt1.rt1 import RT1

    V = M.gen_single(rng, "V", 10, False, types=["HenyeyGreenstein", "HGRayleigh", "Rayleigh"], tmax=0.25)
    SRF = M.gen_single(rng, "SRF", 10, False, types=["HenyeyGreenstein", "HG_nadirnorm", "Isotropic"], tmax=0.25)
    for s in (V, SRF):
        if "ncoefs" in s:
            s["ncoefs"] = 10
    tau, omega, norm = M.gen_tau(rng), 0.3, 0.4
    t0 = M.angles(rng, 2, 65)
    mon.note(V=V, SRF=SRF, tau=tau, t0=t0)
    mon.distinct(V, SRF, tau)
    R = RT1(1.0, t0, t0, 0.0, 0.0, V=M.build(V, tau=tau, omega=omega), SRF=M.build(SRF, NormBRDF=norm), verbosity=0)
    want = M.interaction(V, SRF, t0, t0, 0.0, np.pi, tau, omega, norm, exact=True, nphi=96)
    mon.event("exact_function_compared", 2)
    mon.close(R.calc()[3], want, "interaction-exact-function", rtol=2e-4, atol=1e-12)


def thick(rng, mon, tier):
    """very thick and very thin layers and grazing angles: finite and equal to the integral"""
    V, SRF = _model(rng, 3, 3, 0.1)
    n = 3
    c = dict(V=V, SRF=SRF, geometry="mono" if rng.random() < 0.5 else "vvvv", tau=float("%.4g" % 10 ** rng.uniform(-6, 1.6)), omega=0.4, norm=0.5, bsf=0.0, I0=1.0, pd={},
             t0=np.deg2rad(np.array([rng.uniform(1, 80), 90 - 10 ** rng.uniform(-2, 1), 90 - 10 ** rng.uniform(-2, 1)])),
             tex=np.deg2rad(np.array([90 - 10 ** rng.uniform(-2, 1), rng.uniform(1, 80), 90 - 10 ** rng.uniform(-2, 1)])), p0=np.zeros(n), pex=np.zeros(n) + 1.3)
    mon.note(**M.show(c))
    mon.distinct(V, SRF, c["tau"])
    got = M.make(c).calc()[3]
    want = M.ref_interaction(c)
    mon.event("integral_compared", n)
    mon.event("grazing", 2)
    mon.check(np.all(np.isfinite(got)), "interaction-finite", f"{got}")
    mon.close(got, want, "interaction-thick", rtol=1e-6, atol=1e-250, scale=np.abs(want) + 1e-6 * want.max())


SCENARIOS = [
    S("mono", mono, 60, 700),
    S("mono_long", mono_long, 12, 120),
    S("mono_2d", mono_2d, 10, 100),
    S("mono_symbolic", mono_symbolic, 30, 300),
    S("bistatic", bistatic, 24, 300),
    S("nadir", nadir, 16, 120),
    S("converged", converged, 8, 80),
    S("thick", thick, 40, 800),
]
