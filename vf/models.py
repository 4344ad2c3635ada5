"""Independent numerical reference of the first-order model and random model generators.

Nothing in here calls rt1 except build_* (which create the objects under observation).
A scattering function is described by a plain dict ("spec").  The reference evaluates specs
with numpy / Gauss quadrature only.
"""
import numpy as np
from numpy.polynomial.legendre import leggauss, legval

VTYPES = ["Rayleigh", "HenyeyGreenstein", "HGRayleigh"]
STYPES = ["Isotropic", "CosineLobe", "HenyeyGreenstein", "HG_nadirnorm"]

_GX, _GW = leggauss(400)


# ---------------------------------------------------------------- reference functions
def phase(spec, x):
    """scattering function as a function of the (generalised) scattering cosine"""
    k, ty = spec["kind"], spec["type"]
    if ty == "Rayleigh":
        return 3.0 / (16 * np.pi) * (1 + x**2)
    if ty == "Isotropic":
        return np.full_like(np.asarray(x, float), 1 / np.pi)
    t = spec.get("t")
    if ty == "HenyeyGreenstein":
        n = 4 * np.pi if k == "V" else np.pi
        return (1 - t**2) / (n * (1 + t**2 - 2 * t * x) ** 1.5)
    if ty == "HGRayleigh":
        return 3 / (8 * np.pi) / (2 + t**2) * (1 + x**2) * (1 - t**2) / (1 + t**2 - 2 * t * x) ** 1.5
    if ty == "HG_nadirnorm":
        return hg_nadir(t, spec["a"][0]) * (1 - t**2) / (np.pi * (1 + t**2 - 2 * t * x) ** 1.5)
    if ty == "CosineLobe":
        if spec["i"] == 0:  # a lobe of power 0 is isotropic
            return np.full_like(np.asarray(x), 1 / np.pi)
        pos = np.real(x) > 0
        return np.where(pos, np.where(pos, x, 0.0) ** spec["i"], 0.0) / np.pi
    raise KeyError(ty)


def hg_nadir(t, a0):
    """1 / hemispherical reflectance of the Henyey-Greenstein brdf at nadir (by quadrature)"""
    mu = (_GX + 1) / 2
    t = np.asarray(t)[..., None]
    f = (1 - t**2) / (np.pi * (1 + t**2 - 2 * t * a0 * mu) ** 1.5)
    return 1.0 / (2 * np.pi * np.sum(_GW / 2 * f * mu, axis=-1))


def default_a(spec):
    if spec.get("a") is not None:
        return spec["a"]
    return [-1.0, 1.0, 1.0] if spec["kind"] == "V" else [1.0, 1.0, 1.0]


def scat_cos(ta, tb, pa, pb, a):
    return a[0] * np.cos(ta) * np.cos(tb) + np.sin(ta) * np.sin(tb) * (
        a[1] * np.cos(pa) * np.cos(pb) + a[2] * np.sin(pa) * np.sin(pb)
    )


def components(spec):
    """[(weight, single spec)]"""
    if spec["type"] == "LinComb":
        return [(w, s) for w, s in spec["choices"]]
    return [(1.0, spec)]


def value(spec, ta, tb, pa, pb):
    """numerical value of p / brdf (angles broadcast)"""
    return sum(
        w * phase(s, scat_cos(ta, tb, pa, pb, default_a(s))) for w, s in components(spec)
    )


def ncoefs(s):
    return {"Rayleigh": 3, "Isotropic": 1}.get(s["type"], s.get("ncoefs"))


def leg_coefs(s, n=None):
    """Legendre coefficients by quadrature of the function itself (independent of the code)"""
    n = ncoefs(s) if n is None else n
    x, w = _GX, _GW
    if s["type"] == "CosineLobe" and s["i"] > 0:  # polynomial on [0,1], zero below
        x, w = (x + 1) / 2, w / 2
    f = phase(s, x)
    return np.array(
        [(2 * k + 1) / 2 * np.sum(w * f * legval(x, np.eye(k + 1)[k])) for k in range(n)]
    )


def series_lengths(spec):
    """components that share the scattering-angle parameters use the longest of their series"""
    comp = [s for _, s in components(spec)]
    return [max(ncoefs(q) for q in comp if list(default_a(q)) == list(default_a(s))) for s in comp]


def series(spec, ta, tb, pa, pb):
    """value of the truncated Legendre series"""
    return sum(
        w * legval(scat_cos(ta, tb, pa, pb, default_a(s)), leg_coefs(s, n))
        for (w, s), n in zip(components(spec), series_lengths(spec))
    )


# quadrature nodes for mu in (0,1): geometric panels resolve the layer of exp(-tau/mu)
def _mu_nodes(npan=34, n=20):
    x, w = leggauss(n)
    mus, ws = [], []
    for k in range(npan):
        b, a = 2.0**-k, (2.0 ** -(k + 1) if k < npan - 1 else 0.0)
        mus.append(a + (b - a) * (x + 1) / 2)
        ws.append((b - a) / 2 * w)
    return np.concatenate(mus), np.concatenate(ws)


MU, WMU = _mu_nodes()


def kernel(mu1, tau):
    """mu/(mu1-mu) (exp(-tau/mu1) - exp(-tau/mu)), stable near mu = mu1"""
    with np.errstate(all="ignore"):
        d = mu1 - MU
        x = tau * d / (MU * mu1)
        near = np.abs(x) < 1e-3
        small = np.exp(-tau / mu1) * tau / mu1 * (1 - x / 2 + x**2 / 6 - x**3 / 24)
        direct = MU / np.where(d == 0, 1, d) * (np.exp(-tau / mu1) - np.exp(-tau / MU))
        mid = np.exp(-tau / mu1) * MU * -np.expm1(-x) / np.where(d == 0, 1, d)
    out = np.where(near, small, np.where(np.abs(x) < 1, mid, direct))
    return out


def fint(V, SRF, t1, p1, t2, p2, tau, exact=False, nphi=48):
    """scalar F_int by direct two-dimensional quadrature"""
    ph = np.arange(nphi) * 2 * np.pi / nphi
    TH = np.arccos(MU)[:, None]
    f = value if exact else series
    P = f(V, np.pi - t1, TH, p1, ph)
    B = f(SRF, TH, t2, ph, p2)
    k = kernel(np.cos(t1), tau)
    return np.sum(WMU * k * np.mean(P * B, axis=1)) * 2 * np.pi


def interaction(V, SRF, t0, tex, p0, pex, tau, omega, norm, I0=1.0, bsf=0.0, exact=False, nphi=48):
    args = np.broadcast_arrays(t0, tex, p0, pex, tau, omega, norm, I0, bsf)
    out = np.empty(args[0].shape)
    for i in np.ndindex(out.shape):
        a, b, c, d, ta, om, no, i0, bs = (float(x[i]) for x in args)
        v, s = sub_spec(V, i, out.shape), sub_spec(SRF, i, out.shape)
        if ta == 0:
            out[i] = 0.0
            continue
        f1 = fint(v, s, a, c, b, d, ta, exact, nphi)
        f2 = fint(v, s, b, d, a, c, ta, exact, nphi)
        out[i] = (
            no * (1 - bs) * i0 * np.cos(a) * om
            * (np.exp(-ta / np.cos(b)) * f1 + np.exp(-ta / np.cos(a)) * f2)
        )
    return out


def sub_spec(spec, i, shape):
    """pick element i of array-valued parameters"""
    out = {}
    for k, v in spec.items():
        if k == "choices":
            out[k] = [(float(np.broadcast_to(w, shape)[i]) if isinstance(w, np.ndarray) else w, sub_spec(s, i, shape)) for w, s in v]
        elif isinstance(v, np.ndarray):
            out[k] = float(np.broadcast_to(v, shape)[i])
        else:
            out[k] = v
    return out


def surface(SRF, t0, tex, p0, pex, tau, norm, I0=1.0, bsf=0.0):
    m0, me = np.cos(t0), np.cos(tex)
    return norm * I0 * m0 * value(SRF, t0, tex, p0, pex) * ((1 - bsf) * np.exp(-tau / m0 - tau / me) + bsf)


def volume(V, t0, tex, p0, pex, tau, omega, I0=1.0, bsf=0.0):
    m0, me = np.cos(t0), np.cos(tex)
    return (1 - bsf) * I0 * omega * m0 / (m0 + me) * -np.expm1(-tau / m0 - tau / me) * value(V, t0, tex, p0, pex)


# ---------------------------------------------------------------- generators
def r(x, n=3):
    return float(np.round(x, n))


def gen_a(rng, kind, free):
    base = [-1.0, 1.0, 1.0] if kind == "V" else [1.0, 1.0, 1.0]
    if not free or rng.random() < 0.5:
        return base
    m = rng.random()
    if m < 0.5:  # azimuthally symmetric
        q = r(rng.uniform(0.4, 1.0))
        return [base[0] * r(rng.uniform(0.4, 1.0)), q, q]
    return [base[0] * r(rng.uniform(0.4, 1.0)), r(rng.uniform(-0.9, 0.9)), r(rng.uniform(-0.9, 0.9))]


def gen_single(rng, kind, nmax=6, free_a=True, types=None, tmax=0.6):
    types = types or (VTYPES if kind == "V" else STYPES)
    ty = types[rng.integers(len(types))]
    s = dict(kind=kind, type=ty)
    if ty in ("Rayleigh", "Isotropic"):
        s["a"] = [-1.0, 1.0, 1.0] if kind == "V" else [1.0, 1.0, 1.0]
        return s
    s["a"] = gen_a(rng, kind, free_a)
    s["ncoefs"] = int(rng.integers(1, nmax + 1))
    if ty == "CosineLobe":
        s["i"] = int(rng.integers(0, 7))
    else:
        t = r(rng.uniform(0.05, tmax)) * (1 if rng.random() < 0.7 else -1)
        s["t"] = t
    return s


def gen_lincomb(rng, kind, nmax=4, n=None, free_a=True, tmax=0.6):
    n = int(rng.integers(1, 4)) if n is None else n
    ch = [gen_single(rng, kind, nmax, free_a, tmax=tmax) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:
        # let several components share the scattering-angle parameters
        for s in ch[1:]:
            if s["type"] not in ("Rayleigh", "Isotropic") and rng.random() < 0.7:
                src = ch[0]["a"]
                s["a"] = list(src)
                if free_a and rng.random() < 0.35:
                    # ... or let them differ in a single parameter only
                    k = int(rng.integers(3))
                    s["a"][k] = r(s["a"][k] * rng.uniform(0.3, 0.9))
    w = rng.uniform(0.1, 1, n)
    if kind == "V":
        w = w / w.sum()
    return dict(kind=kind, type="LinComb", choices=[(float(x), s) for x, s in zip(w, ch)])


def gen_spec(rng, kind, nmax=6, comb=0.2, free_a=True, tmax=0.6):
    if rng.random() < comb:
        return gen_lincomb(rng, kind, min(nmax, 4), free_a=free_a, tmax=tmax)
    return gen_single(rng, kind, nmax, free_a, tmax=tmax)


def max_ncoefs(spec):
    return max(ncoefs(s) for _, s in components(spec))


def build(spec, **kw):
    """create the rt1 object of a spec"""
    from rt1 import surface as rs
    from rt1 import volume as rv

    mod = rv if spec["kind"] == "V" else rs
    ty = spec["type"]
    if ty == "LinComb":
        if spec["kind"] == "V":
            return rv.LinCombV(Vchoices=[[w, build(s)] for w, s in spec["choices"]], **kw)
        return rs.LinCombSRF(SRFchoices=[[w, build(s)] for w, s in spec["choices"]], **kw)
    args = {}
    for k in ("t", "i", "ncoefs"):
        if k in spec:
            args[k] = spec[k]
    if ty not in ("Rayleigh", "Isotropic"):
        args["a"] = list(spec["a"])
    args.update(kw)
    return getattr(mod, ty)(**args)


def symbolize(spec, rng, names, prob=0.7):
    """replace numeric parameters by symbols; returns (spec for rt1, {name: value})"""
    import sympy as sp

    vals = {}

    def one(s):
        s = dict(s)
        if "t" in s and rng.random() < prob and names:
            nm = names.pop(0)
            vals[nm] = s["t"]
            s["t"] = sp.Symbol(nm)
        return s

    if spec["type"] == "LinComb":
        ch = []
        for w, s in spec["choices"]:
            s = one(s)
            if rng.random() < prob * 0.6 and names:
                nm = names.pop(0)
                vals[nm] = w
                w = sp.Symbol(nm)
            ch.append((w, s))
        return dict(spec, choices=ch), vals
    return one(spec), vals


def substitute(spec, vals):
    """reference spec with the (possibly array) values of the symbols"""
    def val(v):
        nm = str(v)
        return vals[nm] if nm in vals and not isinstance(v, (float, int)) else v

    out = {}
    for k, v in spec.items():
        if k == "choices":
            out[k] = [(val(w), substitute(s, vals)) for w, s in v]
        elif k == "t":
            out[k] = val(v)
        else:
            out[k] = v
    return out


def angles(rng, n, tmax=80.0, nadir=0.0):
    t = np.deg2rad(np.round(rng.uniform(0.5, tmax, n), 3))
    if nadir and rng.random() < nadir:
        t[rng.integers(n)] = 0.0
    return t


def gen_tau(rng):
    m = rng.random()
    if m < 0.15:
        return r(10 ** rng.uniform(-3, -1), 6)
    if m < 0.8:
        return r(rng.uniform(0.05, 2))
    return r(rng.uniform(2, 6))


# ---------------------------------------------------------------- complete model configurations
PNAMES = ["ta", "tb", "wa", "wb", "tc", "wc", "td", "wd"]


def gen_cfg(rng, geometry="mono", nmax=4, comb=0.2, free_a=True, sym=0.0, arrays=0.3, n=None, tmax=80.0, array_pars=0.3, shape2d=0.0, p0free=True):
    """a complete model: dict(V, SRF, tau, omega, norm, bsf, I0, t0, tex, p0, pex, geometry, pd)"""
    V, SRF = gen_spec(rng, "V", nmax, comb, free_a), gen_spec(rng, "SRF", nmax, comb, free_a)
    n = int(rng.integers(1, 6)) if n is None else n
    shp = (int(rng.integers(1, 4)), n) if rng.random() < shape2d else (n,)
    t0, tex = angles(rng, shp, tmax), angles(rng, shp, tmax)
    if geometry == "mono":
        p0 = np.array([r(rng.uniform(-3, 3)) if p0free and rng.random() < 0.5 else 0.0])
        tex, pex = t0, p0
    else:
        p0, pex = np.round(rng.uniform(-3, 3, shp), 3), np.round(rng.uniform(-3, 6, shp), 3)
        for k, g in enumerate(geometry):
            if g == "f":
                arr = [t0, tex, p0, pex][k]
                arr[...] = arr.ravel()[0]

    def par(lo, hi):
        if rng.random() < array_pars:
            return np.round(rng.uniform(lo, hi, shp), 4)
        return r(rng.uniform(lo, hi))

    c = dict(
        V=V, SRF=SRF, t0=t0, tex=tex, p0=p0, pex=pex, geometry=geometry,
        tau=par(0.05, 2.0), omega=par(0.02, 0.9), norm=par(0.02, 1.0),
        bsf=par(0.05, 0.9) if rng.random() < 0.5 else 0.0,
        I0=r(rng.uniform(0.2, 3)) if rng.random() < 0.5 else 1.0,
        pd={},
    )
    if sym:
        names = [str(x) for x in rng.permutation(PNAMES)]
        vV, d1 = symbolize(V, rng, names, sym)
        vS, d2 = symbolize(SRF, rng, names, sym)
        pd = {**d1, **d2}
        if rng.random() < array_pars and len(shp) == 1:
            pd = {k: np.round(v * rng.uniform(0.7, 1.2, shp), 4) for k, v in pd.items()}
        ks = [str(k) for k in rng.permutation(list(pd))] if pd else []
        c.update(V=vV, SRF=vS, pd={k: pd[k] for k in ks})
    return c


def make(c, **kw):
    from rt1.rt1 import RT1

    args = dict(verbosity=0)
    args.update(kw)
    geometry = args.pop("geometry", c["geometry"])
    return RT1(
        args.pop("I0", c["I0"]), c["t0"], c["tex"], c["p0"], c["pex"],
        V=build(c["V"], tau=c["tau"], omega=c["omega"]), SRF=build(c["SRF"], NormBRDF=c["norm"]),
        geometry=geometry, bsf=c["bsf"], param_dict=dict(c["pd"]), **args,
    )


def ref_angles(c):
    if c["geometry"] == "mono":
        return c["t0"], c["t0"], c["p0"], np.asarray(c["p0"]) + np.pi
    return c["t0"], c["tex"], c["p0"], c["pex"]


def ref_specs(c):
    return substitute(c["V"], c["pd"]), substitute(c["SRF"], c["pd"])


def ref_surface(c):
    return surface(ref_specs(c)[1], *ref_angles(c), c["tau"], c["norm"], c["I0"], c["bsf"])


def ref_volume(c):
    return volume(ref_specs(c)[0], *ref_angles(c), c["tau"], c["omega"], c["I0"], c["bsf"])


def ref_interaction(c):
    v, s = ref_specs(c)
    return interaction(v, s, *ref_angles(c), c["tau"], c["omega"], c["norm"], c["I0"], c["bsf"])


def show(c):
    return {k: v for k, v in c.items()}
