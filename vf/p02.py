"""P02: surface / volume / total contributions: closed forms, limits, linearity, shapes."""
import numpy as np

from . import models as M
from .core import S

ID = "P02"
LEVEL = "exploration"
RULE = (
    "Random complete models (all function types, combinations, numeric/symbolic/array parameters, bare-soil fraction, incident intensity, "
    "scalar/1-D/2-D angles, all-variable and monostatic geometry) are evaluated with RT1; surface and volume are compared with independent "
    "closed forms, the total with the sum of the returned parts, shapes with numpy broadcasting; tau=0 / omega=0 / bsf=1 limits and linearity "
    "in intensity and reflectance factor are evaluated on the real code.  Distinct by model and geometry."
)
MIN_EVENTS = {"surface_compared": 200, "volume_compared": 200, "limit_zero": 60, "linearity": 30, "int_Q_off": 20, "extremes": 100}


def _bshape(c):
    return np.broadcast_shapes(*(np.shape(np.atleast_1d(x)) for x in (*M.ref_angles(c), c["tau"], c["omega"], c["norm"], c["bsf"], c["I0"], *c["pd"].values())))


def _eval(mon, c, int_Q=True, rtol=1e-10, **kw):
    R = M.make(c, int_Q=int_Q, **kw)
    res = R.calc()
    mon.equal(len(res), 4 if int_Q else 3, "number-of-parts")
    tot, surf, vol = res[:3]
    shp = _bshape(c)
    ws, wv = M.ref_surface(c), M.ref_volume(c)
    mon.close(np.broadcast_to(surf, shp), np.broadcast_to(ws, shp), "surface-closed-form", rtol=rtol, atol=min(1e-15, rtol * 1e-7), msg="surface")
    mon.close(np.broadcast_to(vol, shp), np.broadcast_to(wv, shp), "volume-closed-form", rtol=rtol, atol=min(1e-15, rtol * 1e-7), msg="volume")
    mon.event("surface_compared", int(np.prod(shp)))
    mon.event("volume_compared", int(np.prod(shp)))
    mon.equal(np.shape(tot), shp, "total-shape", "shape of the total")
    mon.close(tot, np.broadcast_to(sum(res[1:]), shp), "total-is-sum", rtol=1e-13, atol=1e-300)
    mon.check(np.all(np.isfinite(tot)), "finite", f"{tot}")
    # single-contribution methods return the same numbers
    mon.close(R.surface(), surf, "surface-method", rtol=1e-13)
    mon.close(R.volume(), vol, "volume-method", rtol=1e-13)
    return R, res, shp


def _geom(rng):
    return "mono" if rng.random() < 0.6 else "vvvv"


def general(rng, mon, tier):
    c = M.gen_cfg(rng, _geom(rng), sym=0.8 if rng.random() < 0.4 else 0.0, shape2d=0.2, comb=0.3)
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["geometry"], c["tau"])
    int_Q = bool(rng.random() < 0.4)
    mon.event("int_Q_off", not int_Q)
    R, res, shp = _eval(mon, c, int_Q)
    # same result without array evaluation: element by element (no cross-talk)
    if len(shp) == 1 and shp[0] > 1:
        i = int(rng.integers(shp[0]))
        pick = lambda x: x if np.size(x) == 1 else np.asarray(x)[i]
        d = {k: (pick(v) if k in ("t0", "tex", "p0", "pex", "tau", "omega", "norm", "bsf", "I0") else v) for k, v in c.items()}
        for k in ("t0", "tex", "p0", "pex"):
            d[k] = np.array([float(np.ravel(d[k])[0])])
        for k in ("tau", "omega", "norm", "bsf"):
            d[k] = float(np.ravel(d[k])[0])
        d["pd"] = {k: float(np.ravel(pick(v))[0]) for k, v in c["pd"].items()}
        one = M.make(d, int_Q=int_Q).calc()
        mon.event("element_alone")
        for nm, a, b in zip(("total", "surface", "volume", "interaction"), one, res):
            mon.close(np.ravel(a)[0], np.broadcast_to(b, shp)[i], "element-independent-of-array", rtol=1e-9, atol=1e-14, msg=nm)


def scalars(rng, mon, tier):
    """plain scalar angles and integer-valued inputs"""
    c = M.gen_cfg(rng, _geom(rng), n=1, array_pars=0.0, comb=0.2)
    for k in ("t0", "tex", "p0", "pex"):
        c[k] = float(np.ravel(c[k])[0])
    if c["geometry"] == "mono":
        c["tex"], c["pex"] = c["t0"], c["p0"]
    if rng.random() < 0.5:
        c["I0"] = int(rng.integers(1, 4))
    if rng.random() < 0.4:
        c["tau"] = int(rng.integers(1, 3))
    if rng.random() < 0.3:
        c["norm"] = 1
    if rng.random() < 0.3:
        c["omega"] = 1
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["geometry"], c["tau"], c["t0"])
    _eval(mon, c, bool(rng.random() < 0.5))


def extremes(rng, mon, tier):
    """very thin and very thick layers, weak scatterers, grazing and nadir angles, small reflectance factors and intensities"""
    c = M.gen_cfg(rng, _geom(rng), comb=0.2, array_pars=0.3)
    log = lambda lo, hi: float(f"{10 ** rng.uniform(lo, hi):.4g}")
    c["tau"] = log(-5, 1.7)
    for k, lo, hi in (("omega", -4, 0), ("norm", -4, 0), ("I0", -4, 3)):
        if rng.random() < 0.5:
            c[k] = log(lo, hi)
    if rng.random() < 0.3:
        c["bsf"] = [1e-4, 0.999, 0.0, 0.5][rng.integers(4)]
    m = rng.random()
    if m < 0.6:
        g = np.ravel(c["t0"]).copy()
        g[rng.integers(len(g))] = np.deg2rad([0.0, 1e-3, 0.5, 85, 88, 89.5][rng.integers(6)])
        c["t0"] = g.reshape(np.shape(c["t0"]))
        if c["geometry"] == "mono":
            c["tex"] = c["t0"]
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], c["geometry"], c["tau"], c["t0"])
    mon.event("extremes")
    _eval(mon, c, False, rtol=1e-9)


def broadcast(rng, mon, tier):
    """angles and parameters of different but compatible shapes"""
    c = M.gen_cfg(rng, "mono", n=3, array_pars=0.0, comb=0.1, nmax=3)
    mode = int(rng.integers(3))
    if mode == 0:  # (n, 1) angles, (m,) parameters
        c["t0"] = c["t0"].ravel()[:, None]
    elif mode == 1:  # (1,) angles
        c["t0"] = c["t0"].ravel()[:1]
    else:
        c["t0"] = np.stack([c["t0"].ravel()] * 2)
    c["tex"] = c["t0"]
    c["p0"] = np.zeros(1)
    c["pex"] = c["p0"]
    for k in ("tau", "omega", "norm", "bsf"):
        if rng.random() < 0.7:
            c[k] = np.round(rng.uniform(0.05, 0.9, 3), 3)
    mon.note(**M.show(c))
    mon.distinct(c["V"], c["SRF"], mode, c["tau"])
    _eval(mon, c, True)
    mon.event("broadcast")


def limits(rng, mon, tier):
    """no vegetation / no scatterers / bare soil"""
    c = M.gen_cfg(rng, _geom(rng), comb=0.2, n=int(rng.integers(1, 5)), nmax=3)
    n = c["t0"].shape[-1]
    what = ["tau0", "tau0_array", "tau0_some", "tau0_int", "omega0", "omega0_array", "omega0_some", "bsf1"][int(rng.integers(8))]
    mask = np.ones(n, bool)
    if what == "tau0":
        c["tau"] = 0.0
    elif what == "tau0_int":
        c["tau"] = 0
    elif what == "tau0_array":
        c["tau"] = np.zeros(n)
    elif what == "tau0_some":
        mask = rng.random(n) < 0.5
        c["tau"] = np.where(mask, 0.0, np.round(rng.uniform(0.1, 1, n), 3))
    elif what == "omega0":
        c["omega"] = 0.0
    elif what == "omega0_array":
        c["omega"] = np.zeros(n)
    elif what == "omega0_some":
        mask = rng.random(n) < 0.5
        c["omega"] = np.where(mask, 0.0, np.round(rng.uniform(0.1, 0.9, n), 3))
    else:
        c["bsf"] = 1.0
    mon.note(what=what, **M.show(c))
    mon.distinct(c["V"], c["SRF"], what)
    R, res, shp = _eval(mon, c, True)
    for nm, part in (("volume", res[2]), ("interaction", res[3])):
        part = np.broadcast_to(part, shp)
        mon.check(np.all(part[..., mask] == 0), "limit-" + nm, f"{nm} does not vanish for {what}: {part}")
        mon.equal(np.shape(res[2 if nm == "volume" else 3]), shp, "part-shape", nm)
        # all other elements are the ordinary values
    if what in ("tau0_some",) and (~mask).any():
        want = M.ref_interaction(c)
        mon.close(np.broadcast_to(res[3], shp), np.broadcast_to(want, shp), "limit-other-elements", rtol=1e-7, atol=1e-13)
        mon.event("mixed_zero_tau")
    if what.startswith("tau0") and mask.all() or what == "bsf1":
        v, s = M.ref_specs(c)
        bare = c["norm"] * c["I0"] * np.cos(c["t0"]) * M.value(s, *M.ref_angles(c))
        mon.close(np.broadcast_to(res[1], shp), np.broadcast_to(bare, shp), "bare-surface", rtol=1e-10, atol=1e-15)
    mon.event("limit_zero")


def linear(rng, mon, tier):
    c = M.gen_cfg(rng, _geom(rng), comb=0.2, nmax=3)
    f = M.r(rng.uniform(0.1, 3))
    mon.note(f=f, **M.show(c))
    mon.distinct(c["V"], c["SRF"], f)
    base = M.make(c).calc()
    for nm, exps in (("I0", (1, 1, 1)), ("norm", (1, 0, 1))):
        d = dict(c)
        d[nm] = c[nm] * f
        got = M.make(d).calc()
        for part, g, b, e in zip(("surface", "volume", "interaction"), got[1:], base[1:], exps):
            mon.close(g, b * f**e, f"linear-in-{nm}-{part}", rtol=1e-11, atol=1e-300)
    mon.event("linearity")


SCENARIOS = [
    S("general", general, 200, 3000),
    S("scalars", scalars, 60, 600),
    S("extremes", extremes, 150, 2500),
    S("broadcast", broadcast, 60, 600),
    S("limits", limits, 150, 1500),
    S("linear", linear, 50, 500),
]
