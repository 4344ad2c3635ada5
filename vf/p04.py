"""P04: angular slope / curvature against complex-step derivatives of the closed forms."""
import numpy as np

from . import fitmodels as F
from . import hooks
from . import models as M
from .core import S, Skip

ID = "P04"
LEVEL = "exploration"
RULE = (
    "Random monostatic models: slope and curvature of surface, volume and total for all unit settings are compared with complex-step (first) and "
    "Richardson-extrapolated complex-step (second) derivatives of independent closed forms with respect to the incidence angle; brdf_theta_diff / "
    "p_theta_diff are compared the same way for random 4-character geometry specifications.  "
    "The slopes and curvatures of fits (single values for several observations, interpolated and shared parameters) are compared with differences of the same fit at shifted incidence angles.  Distinct by model, units, geometry."
)
MIN_EVENTS = {"slope": 200, "curvature": 200, "function_derivative": 150, "fixed_exit_angle": 10, "fit-slopes": 500}
H = 1e-30
UNITS = [(False, False), (True, False), (False, True), (True, True)]


def deriv(f, x, n):
    d1 = lambda y: np.imag(f(y + 1j * H)) / H
    if n == 1:
        return d1(x)
    out = []
    for h in (2e-3, 1e-3, 5e-4):
        out.append((d1(x + h) - d1(x - h)) / (2 * h))
    a, b = (4 * out[1] - out[0]) / 3, (4 * out[2] - out[1]) / 3
    return (16 * b - a) / 15


def kink(spec, ta, tb, pa, pb):
    return any(
        s["type"] == "CosineLobe" and np.any(np.abs(M.scat_cos(ta, tb, pa, pb, M.default_a(s))) < 0.02)
        for _, s in M.components(spec)
    )


def slopes(rng, mon, tier):
    c = M.gen_cfg(rng, "mono", sym=0.8 if rng.random() < 0.3 else 0.0, comb=0.3, nmax=2, shape2d=0.1, tmax=75)
    t0, tex, p0, pex = M.ref_angles(c)
    if kink(c["SRF"], t0, tex, p0, pex):
        raise Skip("angle at the edge of a cosine lobe")
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["tau"])
    # the parameters are element-wise constants, so each element is a function of its own angle
    parts = {"surface": M.ref_surface, "volume": M.ref_volume, "tot": lambda d: M.ref_surface(d) + M.ref_volume(d)}
    R = M.make(c)
    for name, fn in parts.items():
        for dB, sig0 in UNITS:
            def f(th):
                v = fn(dict(c, t0=th))
                if sig0:
                    v = v * 4 * np.pi * np.cos(th)
                return 10 / np.log(10) * np.log(v) if dB else v

            for n, what in ((1, "slope"), (2, "curv")):
                got = getattr(R, f"{name}_{what}")(dB=dB, sig0=sig0)
                want = deriv(f, c["t0"], n)
                shp = np.broadcast_shapes(np.shape(got), np.shape(want))
                want = np.broadcast_to(want, shp)
                mon.close(np.broadcast_to(got, shp), want, f"{name}_{what}", rtol=1e-7, atol=1e-9,
                          scale=np.abs(want) + (1.0 if dB else 1e-2), msg=f"dB={dB} sig0={sig0}")
                mon.event("slope" if n == 1 else "curvature", want.size)


def functions(rng, mon, tier):
    """derivatives offered by the scattering functions, any geometry specification"""
    kind = "V" if rng.random() < 0.5 else "SRF"
    geo = "mono" if rng.random() < 0.2 else "".join(rng.choice(["f", "v"], 4))
    c = M.gen_cfg(rng, geo, sym=0.6 if rng.random() < 0.4 else 0.0, comb=0.3, nmax=2, array_pars=0.0, tmax=75)
    spec = M.ref_specs(c)[0 if kind == "V" else 1]
    t0, tex, p0, pex = M.ref_angles(c)
    if kink(spec, t0, tex, p0, pex):
        raise Skip("angle at the edge of a cosine lobe")
    mon.note(kind=kind, **M.show(c))
    mon.distinct(spec, geo)
    X = M.build(c[kind])
    fn = X.p_theta_diff if kind == "V" else X.brdf_theta_diff
    pdict = dict(c["pd"])
    for n in (1, 2):
        got = fn(c["t0"], c["tex"], c["p0"], c["pex"], geo, param_dict=pdict, n=n)
        if geo == "mono":
            f = lambda th: M.value(spec, th, th, p0, pex)
            want = deriv(f, t0, n)
        elif geo[1] == "f":
            want = np.zeros(np.shape(t0))
            mon.event("fixed_exit_angle")
        else:
            f = lambda th: M.value(spec, t0, th, p0, pex)
            want = deriv(f, tex, n)
        shp = np.broadcast_shapes(np.shape(got), np.shape(want))
        mon.close(np.broadcast_to(got, shp), np.broadcast_to(want, shp), f"theta_diff-{kind}", rtol=1e-7, atol=1e-8, msg=f"n={n} geometry={geo}")
        mon.event("function_derivative")
        # symbolic and numeric variants agree
        import sympy as sp

        expr = fn(c["t0"], c["tex"], c["p0"], c["pex"], geo, param_dict=pdict, n=n, return_symbolic=True)
        i = int(rng.integers(np.size(t0)))
        el = lambda x: float(np.broadcast_to(x, np.shape(t0)).ravel()[i])
        val = sp.sympify(expr).subs({sp.Symbol("theta_0"): el(t0), sp.Symbol("theta_ex"): el(tex), sp.Symbol("phi_0"): el(p0), sp.Symbol("phi_ex"): el(pex),
                                     **{sp.Symbol(k): float(v) for k, v in pdict.items()}})
        mon.close(float(sp.N(val)), np.broadcast_to(got, shp).ravel()[i], "theta_diff-symbolic", rtol=1e-9, atol=1e-12)


def fits(rng, mon, tier):
    """slopes of fitted models compared with the same fit at shifted incidence-angles"""
    p = F.gen_problem(rng, int_Q=False, nmax=2, max_obs=2)
    if p is None:
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    for _, s in M.components(p["SRF"]):
        if s["type"] == "CosineLobe":
            raise Skip("cosine lobe")
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], len(p["df"]))
    fit = F.make(p)
    r2 = np.random.default_rng(int(rng.integers(2**31)))
    with hooks.capture(choose=lambda c: F.draw(r2, c)):
        fit.performfit()
    if rng.random() < 0.3:
        import cloudpickle, pickle

        fit = pickle.loads(cloudpickle.dumps(fit))
    mask = ~np.asarray(fit.mask)
    rows = np.asarray(fit.inc).shape
    comp = bool(rng.random() < 0.6)
    out = fit._calc_slope_curv(return_components=comp)
    names = ["tot", "surf", "vol"] if comp else ["tot"]

    def model(h):
        q = fit.reinit_object(dataset=fit.dataset.assign(inc=fit.dataset.inc + h))
        q.res_dict = {k: list(v) for k, v in fit.res_dict.items()}
        v = q._calc_model(return_components=True)
        return np.array([np.broadcast_to(v[k], rows) for k in range(len(names))])

    m = {k: model(k * 2e-3) for k in (-4, -2, -1, 0, 1, 2, 4)}
    d1 = [(m[k] - m[-k]) / (2 * k * 2e-3) for k in (1, 2, 4)]
    d2 = [(m[k] - 2 * m[0] + m[-k]) / (k * 2e-3) ** 2 for k in (1, 2, 4)]
    for what, d, tol in (("slope", d1, 1e-5), ("curv", d2, 1e-4)):
        a, b = (4 * d[0] - d[1]) / 3, (4 * d[1] - d[2]) / 3
        want, err = (16 * a - b) / 15, np.abs(a - b)
        got = np.asarray([out[what]] if not comp else out[what])
        for k, nm in enumerate(names):
            g = np.broadcast_to(got[k], rows)
            ok = mask & np.isfinite(want[k])
            sc = np.abs(want[k]) + np.abs(m[0][k]) * (1 if not fit.dB else 0.1) + (1.0 if fit.dB else 0.0)
            bad = ok & (np.abs(g - want[k]) > tol * sc + 2 * err[k])
            mon.check(not bad.any(), f"fit-{what}-{nm}", f"{g[bad][:3]} instead of {want[k][bad][:3]}")
            mon.event("fit-slopes", int(ok.sum()))


SCENARIOS = [S("fits", fits, 60, 800), S("slopes", slopes, 120, 2000), S("functions", functions, 160, 2500)]
