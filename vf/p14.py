"""P14: the four unit settings are re-expressions of one model; residuals use the declared unit."""
import numpy as np

from . import fitmodels as F
from . import hooks
from . import p11
from .core import S, Skip

ID = "P14"
LEVEL = "exploration"
RULE = (
    "Random fit problems; the four unit settings (sig0 x dB) are created from scratch, by re-assigning the settings of one object and via "
    "reinit_object, each with identical parameters.  Oracle: exact conversion of the linear intensity of every contribution; the residual vector given "
    "to the optimiser is converted prediction minus declared data.  Also dBsig0convert and unit conversion of datasets.  Distinct by problem."
)
MIN_EVENTS = {"conversions": 300, "components": 200, "residuals": 100, "interaction": 10, "reassigned": 60}


def conv(I, inc, sig0, dB):
    y = np.asarray(I, float) * (4 * np.pi * np.cos(inc) if sig0 else 1.0)
    with np.errstate(all="ignore"):
        return 10 * np.log10(y) if dB else y


def units(rng, mon, tier, int_Q=None):
    p = F.gen_problem(rng, int_Q=int_Q, n_dates=int(rng.integers(2, 7)), nmax=2 if int_Q else 3, interp=0.1)
    if p is None:
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], len(p["df"]))
    mon.event("interaction", int(p["int_Q"]))
    combos = [(False, False), (True, False), (False, True), (True, True)]
    st = int(rng.integers(2**31))

    def run(fit):
        r2 = np.random.default_rng(st)
        resid = []

        def choose(c):
            x = F.draw(r2, c)
            resid.append(np.array(c.fun(x.copy()), float))
            return x

        with hooks.capture(choose=choose):
            fit.performfit()
        mask = np.asarray(fit.mask)
        return dict(inc=np.asarray(fit.inc)[~mask], comp=fit.calc_model(return_components=True), tot=fit.calc_model()["tot"].values,
                    resid=resid[0], data=np.asarray(fit.data)[~mask], w=np.broadcast_to(fit.data_weights, mask.shape)[~mask], fit=fit)

    base = run(F.make(p, sig0=False, dB=False))
    I = base["comp"]
    mon.close(base["tot"], I["tot"].values, "linear-intensity-total", rtol=1e-12)
    mode = rng.random()
    one = F.make(p, sig0=False, dB=False)
    for sig0, dB in [combos[i] for i in rng.permutation(4)]:
        if mode < 0.35:
            fit = F.make(p, sig0=sig0, dB=dB)
        elif mode < 0.7:
            fit = one
            fit.sig0, fit.dB = sig0, dB
            mon.event("reassigned")
        else:
            fit = one.reinit_object(sig0=sig0, dB=dB)
            mon.event("reassigned")
        o = run(fit)
        mon.close(o["inc"], base["inc"], "rows", rtol=0, atol=0)
        mon.event("conversions")
        want = conv(I["tot"].values, o["inc"], sig0, dB)
        ok = np.isfinite(want)
        mon.close(o["tot"][ok], want[ok], "total", rtol=1e-10, atol=1e-12, msg=f"sig0={sig0} dB={dB}")
        mon.equal(list(o["comp"].columns), list(I.columns), "component-names")
        for nm in I.columns:
            w = conv(I[nm].values, o["inc"], sig0, dB)
            okc = np.isfinite(w)
            mon.event("components")
            mon.close(o["comp"][nm].values[okc], w[okc], "component", rtol=1e-10, atol=1e-12, msg=f"{nm} sig0={sig0} dB={dB}")
        mon.event("residuals")
        wr = o["w"] * (want - o["data"])
        mon.close(o["resid"][ok], wr[ok], "residual-units", rtol=1e-9, atol=1e-11, msg=f"sig0={sig0} dB={dB}")
        # explicit evaluation
        if dB is False or np.all(ok):
            par = {k: 0.3 for k, kd in p["kinds"].items() if kd == "fit"}
            aux = {k: 0.3 for k, kd in p["kinds"].items() if kd == "aux"}
            inc = np.array([0.4, 0.9])
            c0 = np.asarray(base["fit"].calc(par, inc, fixed_param=aux or None))
            c1 = np.asarray(fit.calc(par, inc, fixed_param=aux or None))
            w = conv(c0, inc, sig0, dB)
            okc = np.isfinite(w)
            mon.close(c1[okc], w[okc], "calc-units", rtol=1e-10, atol=1e-12)


def units_plain(rng, mon, tier):
    units(rng, mon, tier, False)


def units_inter(rng, mon, tier):
    units(rng, mon, tier, True)


def convert(rng, mon, tier):
    """dBsig0convert: every conversion equals the definition and is undone by its inverse"""
    from rt1.general_functions import dBsig0convert

    n = int(rng.integers(1, 8))
    inc = rng.uniform(0.05, 1.4, n)
    I = 10 ** rng.uniform(-4, 1, n)
    mon.note(inc=inc, I=I)
    mon.distinct(I.tolist())
    for fsig in (False, True):
        for fdB in (False, True):
            v = conv(I, inc, fsig, fdB)
            keep = v.copy()
            for sig in (False, True):
                for dB in (False, True):
                    g = dBsig0convert(v, inc, dB=dB, sig0=sig, fitdB=fdB, fitsig0=fsig)
                    mon.event("conversions")
                    mon.close(g, conv(I, inc, sig, dB), "dBsig0convert", rtol=1e-10, atol=1e-12, msg=f"from sig0={fsig} dB={fdB} to sig0={sig} dB={dB}")
                    mon.close(dBsig0convert(g, inc, fdB, fsig, dB, sig), keep, "dBsig0convert-inverse", rtol=1e-10, atol=1e-11)
                    mon.check(np.array_equal(v, keep), "input-changed", "the values to convert are changed in place")


SCENARIOS = [
    S("units", units_plain, 70, 1500),
    S("units_inter", units_inter, 14, 200),
    S("convert", convert, 30, 600),
]
