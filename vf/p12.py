"""P12: the derivative matrix given to the optimiser vs differences of the residual vector given to it."""
import numpy as np

from . import fitmodels as F
from . import hooks
from . import models as M
from .core import S, Skip

ID = "P12"
LEVEL = "exploration"
RULE = (
    "Random fit problems (all variabilities, functional definitions with shared symbols, linear combinations, weights, units).  The residual and the "
    "jacobian function given to scipy.optimize.least_squares are captured and observed at several points: the matrix is compared entry by entry "
    "with Richardson-extrapolated central differences of the real residual function (interaction off) respectively of the same problem without "
    "interaction.  Distinct by definitions and group structure."
)
MIN_EVENTS = {"entries": 4000, "jacobians": 200, "sparse": 60, "dense": 30, "weighted": 40, "functional": 60, "shared_symbol": 8, "with_interaction": 10}


def num_jac(fun, x, h=2e-4):
    cols = []
    for i in range(len(x)):
        def f(s):
            y = x.copy()
            y[i] += s
            return np.array(fun(y), float)
        d1 = (f(h) - f(-h)) / (2 * h)
        d2 = (f(2 * h) - f(-2 * h)) / (4 * h)
        cols.append((4 * d1 - d2) / 3)
    return np.array(cols).T


def known_error(p, ref, res, pos):
    """error of the jacobian caused by the documented defect of d(volume)/d(tau) (finding of P03): (n_obs, n_values)"""
    rows = ref.row_values(res)
    out, names = [], list(res)
    h = 1e-6
    for i in range(len(ref.df)):
        v, inc = rows[i], ref.df["inc"].values[i]
        V, SRF = F.num_spec(p["V"], v), F.num_spec(p["SRF"], v)
        tau, om, bsf = F.ev(p["tau"], v), F.ev(p["omega"], v), v.get("bsf", 0.0)
        m = np.cos(inc)
        ph = M.value(V, inc, inc, 0.0, np.pi)
        e = (1 - bsf) * om * 0.5 * (m - 1 / m) * np.exp(-2 * tau / m) * ph
        if p["dB"]:
            t = F.components(p, v, inc, False)[0]
            e *= 10 / np.log(10) / t
        elif p["sig0"]:
            e *= 4 * np.pi * m
        e *= ref.weights()[i]
        line = []
        for k in names:
            if k in F.names_of(p["tau"]):
                dt = (F.ev(p["tau"], {**v, k: v[k] + h}) - F.ev(p["tau"], {**v, k: v[k] - h})) / (2 * h)
            else:
                dt = 0.0
            col = np.zeros(ref.ngroups[k])
            col[ref.codes[k][i]] = e * dt
            line.append(col)
        out.append(np.concatenate(line))
    return np.array(out)[pos]


def dense(J):
    return np.asarray(J.toarray() if hasattr(J, "toarray") else J, float)


def observe(mon, p, rng, npts=2):
    fit = F.make(p)
    ref = F.Ref(p, fit.dataset)
    mask = np.asarray(fit.mask)
    pos = [ref.rows[float(x)] for x in np.asarray(fit.inc)[~mask]]
    seen = []

    def choose(c):
        if not mon.check(callable(c.jac), "no-jacobian", "no derivative given to the optimiser"):
            return c.x0
        for j in range(npts):
            x = F.draw(rng, c)
            J = c.jac(x.copy())
            mon.event("sparse" if hasattr(J, "toarray") else "dense")
            J = dense(J)
            if not p["int_Q"]:
                want = num_jac(c.fun, x)
            else:
                twin = F.make(dict(p, int_Q=False))
                with hooks.capture(choose=lambda cc: cc.x0) as cap:
                    twin.performfit()
                want = num_jac(cap.calls[0].fun, x)
            seen.append((x, J, want))
            # the residual function is not disturbed by the evaluation of the jacobian
            r0 = np.array(c.fun(x.copy()), float)
            c.jac(F.draw(rng, c))
            mon.close(c.fun(x.copy()), r0, "residual-changed-by-jacobian", rtol=0, atol=0)
            mon.close(dense(c.jac(x.copy())), J, "jacobian-not-repeatable", rtol=0, atol=0)
            # ... nor do the values at a point depend on how close the previously requested point was
            for size in (1e-5, 1e-9):
                y = x * (1 + size)
                c.fun(x.copy()), c.jac(x.copy())
                r1, j1 = np.array(c.fun(y.copy()), float), dense(c.jac(y.copy()))
                far = F.draw(rng, c)
                c.fun(far.copy()), c.jac(far.copy())
                mon.close(c.fun(y.copy()), r1, "residual-of-nearby-point", rtol=0, atol=0)
                mon.close(dense(c.jac(y.copy())), j1, "jacobian-of-nearby-point", rtol=0, atol=0)
        return x

    with hooks.capture(choose=choose):
        fit.performfit()
    order = list(fit.res_dict)
    for x, J, want in seen:
        mon.event("jacobians")
        if not mon.equal(J.shape, want.shape, "jacobian-shape"):
            continue
        res = ref.split(x, order)
        names = np.concatenate([[k] * ref.ngroups[k] for k in order])
        scale = np.abs(want).max(axis=0, keepdims=True) + 1e-3 * np.abs(want).max() + 1e-4
        bad = ~(np.abs(J - want) <= 2e-6 * scale)
        mon.event("entries", J.size)
        mon.event("checks", J.size)
        if not bad.any():
            continue
        wrong = want + known_error(p, ref, res, pos)
        bad2 = bad & ~(np.abs(J - wrong) <= 2e-6 * scale)
        if (bad & ~bad2).any():
            mon.fail("dvolume_dtau-mu_ex", "columns of tau inherit the wrong derivative of the volume contribution")
        if bad2.any():
            i, j = np.argwhere(bad2)[0]
            mon.fail("jacobian-entry", f"{bad2.sum()} of {J.size} entries, first: observation {i} parameter {names[j]} got {J[i, j]} expected {want[i, j]} (x={x[j]})")
    return ref


def gen(rng, **kw):
    p = F.gen_problem(rng, interp=0.0, **kw)
    if p is None:
        raise Skip("nothing to fit")
    return p


def count(mon, p):
    mon.event("weighted", int("data_weights" in p["df"]))
    slots = [p["tau"], p["omega"], p["norm"]]
    mon.event("functional", int(any(isinstance(s, str) and s not in p["kinds"] for s in slots)))
    sets = [F.names_of(s) for s in slots] + [F.spec_names(p["V"]), F.spec_names(p["SRF"])]
    mon.event("shared_symbol", int(any(sets[i] & sets[j] for i in range(5) for j in range(i))))
    mon.event("with_interaction", int(p["int_Q"]))


def jac(rng, mon, tier, **kw):
    p = gen(rng, **kw)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], p["SRF"], p["tau"], p["omega"], p["norm"])
    count(mon, p)
    observe(mon, p, rng)


def plain(rng, mon, tier):
    jac(rng, mon, tier, int_Q=False, aux=0.15, fixed=0.15)


def inter(rng, mon, tier):
    jac(rng, mon, tier, int_Q=True, n_dates=3, nmax=2, units=(bool(rng.random() < 0.5), False), aux=0.1, fixed=0.1)


def shared(rng, mon, tier):
    """the same few symbols in several definitions"""
    jac(rng, mon, tier, int_Q=False, names=["xx", "vod"], aux=0.1, fixed=0.05, n_dates=4)


def final(rng, mon, tier):
    """the jacobian reported with the result of a real fit belongs to the reported parameters"""
    p = gen(rng, int_Q=False, n_dates=4, aux=0.2, notau=True, units=(bool(rng.random() < 0.5), False))
    p["lsq"] = dict(max_nfev=4)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], "final")
    fit = F.make(p)
    with hooks.capture() as cap:
        fit.performfit()
    c = cap.calls[0]
    lo, hi = c.lohi()
    x = np.clip(fit.fit_output.x, lo, hi)
    want = num_jac(c.fun, x)
    J = dense(fit.fit_output.jac)
    mon.event("jacobians")
    mon.event("entries", J.size)
    mon.close(J, want, "final-jacobian", rtol=0, scale=1.0, atol=1e-5 * (np.abs(want).max() + 1e-3))


SCENARIOS = [
    S("plain", plain, 130, 4000),
    S("inter", inter, 14, 300),
    S("shared", shared, 50, 1200),
    S("final", final, 20, 300),
]
