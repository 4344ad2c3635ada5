"""P03: RT1.jacobian == derivative of (surface + volume), by complex-step differentiation of an independent model."""
import numpy as np

from . import models as M
from .core import S

ID = "P03"
LEVEL = "exploration"
RULE = (
    "Random complete models (symbolic parameters inside functions and weights, array parameters, mono- and bistatic) ; RT1.jacobian for random "
    "parameter lists and all four unit settings is compared with the complex-step derivative of independent closed forms, and with central "
    "differences of the real surface()+volume().  Distinct by model, parameter list and units."
)
MIN_EVENTS = {"derivative_omega": 60, "derivative_tau": 60, "derivative_NormBRDF": 60, "derivative_bsf": 60, "derivative_symbol": 80, "units_dB": 60, "units_sig0": 60}

H = 1e-30


def _model(c):
    return M.ref_surface(c) + M.ref_volume(c)


def _perturbed(c, key):
    d = dict(c)
    if key in c["pd"]:
        d["pd"] = {k: (np.asarray(v) + 1j * H if k == key else v) for k, v in c["pd"].items()}
    else:
        nm = {"NormBRDF": "norm"}.get(key, key)
        d[nm] = np.asarray(c[nm]) + 1j * H
    return d


def _norm(c, dB, sig0):
    if dB:
        return 10 / np.log(10) / _model(c)
    return 4 * np.pi * np.cos(c["t0"]) if sig0 else 1.0


def _known_wrong_tau(c):
    """value of the documented defect of the volume derivative (finding of P03)"""
    t0, tex, p0, pex = M.ref_angles(c)
    m0, me = np.cos(t0), np.cos(tex)
    v, s = M.ref_specs(c)
    att = np.exp(-np.asarray(c["tau"]) / m0 - np.asarray(c["tau"]) / me)
    dv = (1 - np.asarray(c["bsf"])) * c["I0"] * c["omega"] * m0 / (m0 + me) * (1 / m0 + me) * att * M.value(v, t0, tex, p0, pex)
    ds = -c["norm"] * (1 - np.asarray(c["bsf"])) * c["I0"] * m0 * (1 / m0 + 1 / me) * att * M.value(s, t0, tex, p0, pex)
    return dv + ds


def _check(rng, mon, c, R, plist, dB, sig0):
    got = R.jacobian(dB=dB, sig0=sig0, param_list=list(plist))
    mon.equal(len(got), len(plist), "jacobian-length", "number of derivatives")
    nrm = _norm(c, dB, sig0)
    for key, g in zip(plist, got):
        want = np.imag(_model(_perturbed(c, key))) / H * nrm
        kind = key if key in ("omega", "tau", "NormBRDF", "bsf") else "symbol"
        mon.event("derivative_" + kind)
        shp = np.broadcast_shapes(np.shape(g), np.shape(want))
        g, want = np.broadcast_to(g, shp), np.broadcast_to(want, shp)
        scale = np.abs(want) + 1e-3 * np.abs(nrm)
        if kind == "tau":
            wrong = np.broadcast_to(_known_wrong_tau(c) * nrm, shp)
            if not np.allclose(g, want, rtol=1e-8, atol=1e-12) and np.all(np.abs(g - wrong) <= 1e-9 * scale):
                mon.event("checks")
                mon.fail("dvolume_dtau-mu_ex", "d(volume)/d(tau) uses (1/mu_0 + mu_ex) instead of (1/mu_0 + 1/mu_ex)")
                continue
        mon.close(g, want, "jacobian-" + kind, rtol=1e-8, atol=1e-14, scale=scale, msg=f"d/d{key} dB={dB} sig0={sig0}")
    mon.event("units_dB", int(dB))
    mon.event("units_sig0", int(sig0))


def jac(rng, mon, tier):
    geo = "mono" if rng.random() < 0.6 else "vvvv"
    c = M.gen_cfg(rng, geo, sym=0.85, comb=0.4, shape2d=0.1, nmax=3)
    if not np.any(c["bsf"]) and rng.random() < 0.5:
        c["bsf"] = M.r(rng.uniform(0.05, 0.9))
    plist = ["omega", "tau", "NormBRDF", "bsf"] + list(c["pd"])
    plist = [str(x) for x in rng.permutation(plist)][: int(rng.integers(1, len(plist) + 1))]
    if rng.random() < 0.1:
        plist.append(plist[0])
    mon.note(plist=plist, **M.show(c))
    mon.distinct(c["V"], c["SRF"], plist, geo)
    R = M.make(c)
    for dB, sig0 in [(False, False), (True, False), (False, True), (True, True)]:
        _check(rng, mon, c, R, plist, dB, sig0)
    # the default list of parameters
    a, b = R.jacobian(), R.jacobian(param_list=["omega", "tau", "NormBRDF"])
    for x, y in zip(a, b):
        mon.close(x, y, "default-param-list", rtol=0, atol=0)


def after_change(rng, mon, tier):
    """derivatives follow changed parameter values / units of the same object"""
    c = M.gen_cfg(rng, "mono", sym=0.9, comb=0.5, nmax=2, n=3, array_pars=0.2)
    R = M.make(c)
    plist = ["omega", "tau", "NormBRDF", "bsf"] + list(c["pd"])
    _check(rng, mon, c, R, plist, False, False)
    for _ in range(3):
        c = dict(c)
        c["pd"] = {k: np.round(np.asarray(v) * rng.uniform(0.7, 1.1), 4) if rng.random() < 0.7 else v for k, v in c["pd"].items()}
        if c["pd"]:
            ks = list(rng.permutation(list(c["pd"])))
            R.param_dict = {str(k): c["pd"][str(k)] for k in ks}
        c["tau"], c["omega"], c["norm"], c["bsf"] = (M.r(rng.uniform(0.05, 0.9)) for _ in range(4))
        R.V.tau, R.V.omega, R.SRF.NormBRDF, R.bsf = c["tau"], c["omega"], c["norm"], c["bsf"]
        c["t0"] = M.angles(rng, 3)
        c["tex"] = c["t0"]
        R.t_0 = c["t0"]
        pl = [str(x) for x in rng.permutation(plist)]
        _check(rng, mon, c, R, pl, bool(rng.random() < 0.5), bool(rng.random() < 0.5))
        mon.event("after_change")
    mon.note(plist=plist, **M.show(c))
    mon.distinct(c["V"], c["SRF"], c["tau"])


def self_consistent(rng, mon, tier):
    """against central differences of the real code (no reference model involved)"""
    c = M.gen_cfg(rng, "mono" if rng.random() < 0.5 else "vvvv", sym=0.9, comb=0.3, nmax=2, n=2, array_pars=0.0)
    plist = ["omega", "NormBRDF", "bsf"] + list(c["pd"])
    mon.note(plist=plist, **M.show(c))
    mon.distinct(c["V"], c["SRF"], c["omega"])
    got = M.make(c).jacobian(param_list=plist)
    for key, g in zip(plist, got):
        def f(h):
            d = dict(c)
            if key in c["pd"]:
                d["pd"] = {k: v + h * (k == key) for k, v in c["pd"].items()}
            else:
                nm = {"NormBRDF": "norm"}.get(key, key)
                d[nm] = c[nm] + h
            R = M.make(d, int_Q=False)
            return R.surface() + R.volume()

        h = 1e-3
        d1 = (f(h) - f(-h)) / (2 * h)
        d2 = (f(2 * h) - f(-2 * h)) / (4 * h)
        want = (4 * d1 - d2) / 3
        mon.close(np.broadcast_to(g, want.shape), want, "jacobian-vs-model-differences", rtol=1e-5, atol=1e-7, msg=key)
        mon.event("finite_difference")


SCENARIOS = [
    S("jac", jac, 120, 2000),
    S("after_change", after_change, 40, 500),
    S("self_consistent", self_consistent, 30, 300),
]
