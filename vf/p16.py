"""P16: parameter definitions in every representation (dict, nested dict, table, single entries) are the same definitions."""
import copy

import numpy as np
import pandas as pd

from . import fitmodels as F
from . import hooks
from .core import S, Skip

ID = "P16"
LEVEL = "exploration"
RULE = (
    "Random definition sets are converted along random chains of representations (list-dict, property-dict, pandas tables with missing entries, attribute "
    "and item assignments, add_variable, removal and re-definition) and read back after every step; a fit with each representation is observed "
    "through the optimiser interface.  Oracle: a plain record of the intended six properties per parameter.  Distinct by definitions and chain."
)
MIN_EVENTS = {"exact_roundtrips": 20, "conversions": 300, "tables": 60, "assignments": 100, "removed": 30, "fits": 80, "item_edits": 60}

PROPS = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]


def gen_defs(rng, n=None):
    names = [str(x) for x in rng.permutation(["tau", "omega", "xx", "a_1", "NormBRDF", "items2", "val", "name", "freq", "T"])]
    out = {}
    for k in names[: int(rng.integers(1, 6)) if n is None else n]:
        fit = bool(rng.random() < 0.6)
        if fit:
            fr = [None, "index", int(rng.integers(1, 20)), "manual", "10D", "ME + manual", "3 + manual"][rng.integers(7)]
            out[k] = dict(fitQ=True, val="auxiliary" if rng.random() < 0.2 else F.M.r(rng.uniform(0, 1)), freq=fr, minval=F.M.r(rng.uniform(-1, 0)),
                          maxval=F.M.r(rng.uniform(1, 2)), interpQ=bool(rng.random() < 0.5))
        else:
            v = "auxiliary" if rng.random() < 0.3 else (int(rng.integers(0, 3)) if rng.random() < 0.3 else F.M.r(rng.uniform(0, 1)))
            out[k] = dict(fitQ=False, val=v)
    return out


def short(d):
    """the documented list"""
    if not d["fitQ"]:
        return [False, d["val"]]
    return [True, d["val"], d["freq"], ([d["minval"]], [d["maxval"]]), d["interpQ"]]


def relevant(d):
    return {k: d.get(k) for k in (PROPS if d["fitQ"] else PROPS[:2])}


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return not isinstance(a, (bool, str)) and not isinstance(b, (bool, str)) and a is not None and b is not None and float(a) == float(b)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def check(mon, D, defs, key, msg=""):
    """read a defdict object in every way"""
    mon.event("conversions")
    if not mon.equal(list(D.keys()), list(defs), key + "-names", msg):
        return
    mon.equal(list(D), list(defs), key + "-iteration", msg)
    lst, dct = D.to_dict(), D.to_dict(props="dict")
    mon.equal(list(dct), list(defs), key + "-names-dict", msg)
    mon.equal([k for k, _ in D.items()], list(defs), key + "-items", msg)
    for k, d in defs.items():
        want = relevant(d)
        got = {
            "list": dict(zip(PROPS, [lst[k][0], lst[k][1], lst[k][2], lst[k][3][0][0], lst[k][3][1][0], lst[k][4]])),
            "dict": dct[k],
            "attributes": {q: getattr(D[k], q) for q in PROPS},
            "index": dict(zip(PROPS, [D[k][0], D[k][1], D[k][2], D[k][3][0][0], D[k][3][1][0], D[k][4]])),
            "key": {q: D[k][q] for q in PROPS},
            "items": dict(zip(PROPS, [v for nm, val in D.items() if nm == k for v in (val[0], val[1], val[2], val[3][0][0], val[3][1][0], val[4])])),
        }
        for how, g in got.items():
            for q, w in want.items():
                mon.check(same(g[q], w) if not isinstance(w, (type(None), str, bool)) else g[q] == w and type(g[q]) is type(w),
                          f"{key}-{q}", f"{msg} {k}.{q} via {how}: got {g[q]!r} expected {w!r}")


def to_table(rng, mon, defs):
    mon.event("tables")
    full = {k: {**dict.fromkeys(PROPS), **d} for k, d in defs.items()}
    if rng.random() < 0.5:
        t = pd.DataFrame({k: [full[k][q] for q in PROPS] for k in full}, index=PROPS, dtype=object)
        return t.loc[[str(x) for x in rng.permutation(PROPS)]] if rng.random() < 0.5 else t
    cols = {k: [d["fitQ"], d["val"], d["freq"], ([d["minval"]], [d["maxval"]]), d["interpQ"]] for k, d in full.items()}
    t = pd.DataFrame(cols, dtype=object)
    return t


def convert(rng, mon, defs, D=None):
    """one representation of the definitions; returns a new defdict object"""
    from rt1._containers import _RT1_defdict as DD

    m = int(rng.integers(7))
    src = copy.deepcopy(defs)
    if m == 0:
        return "list", DD.from_dict({k: short(d) for k, d in src.items()})
    if m == 1:
        return "dict", DD.from_dict(src)
    if m == 2:
        return "table", DD.from_dict(to_table(rng, mon, src))
    if m == 3 and D is not None:
        return "to_dict", DD.from_dict(D.to_dict(props=["list", "dict"][rng.integers(2)]))
    if m == 4 and D is not None:
        return "mixed-table", DD.from_dict(pd.DataFrame(D.to_dict(props=["list", "dict"][rng.integers(2)]), dtype=object))
    E = DD()
    how = "add_variable" if m < 6 else "setattr"
    for k, d in src.items():
        mon.event("assignments")
        if how == "add_variable":
            E.add_variable(k, **d)
        elif rng.random() < 0.5:
            setattr(E, k, d)
        else:
            setattr(E, k, short(d))
    return how, E


def representations(rng, mon, tier):
    defs = gen_defs(rng)
    D, chain = None, []
    keep = copy.deepcopy(defs)
    for _ in range(int(rng.integers(2, 7))):
        how, E = convert(rng, mon, defs, D)
        chain.append(how)
        if how in ("to_dict", "mixed-table"):  # an exact round trip, including properties that are not set
            mon.event("exact_roundtrips")
            mon.equal(E.to_dict(props="dict"), D.to_dict(props="dict"), "exact-roundtrip", "->".join(chain))
        check(mon, E, defs, how, "->".join(chain))
        if D is not None:  # conversions do not disturb the source and are independent of it
            check(mon, D, keep, "source-changed", "source after " + "->".join(chain))
        D, keep = E, copy.deepcopy(defs)
        # edits of the new object
        m = rng.random()
        k = str(rng.choice(list(defs)))
        if m < 0.35:
            mon.event("item_edits")
            i = int(rng.integers(5)) if defs[k]["fitQ"] else 1
            form = rng.random()
            if i == 3:
                lo, hi = F.M.r(rng.uniform(-2, -1)), F.M.r(rng.uniform(2, 3))
                D[k][3] = ([lo], [hi])
                defs[k].update(minval=lo, maxval=hi)
            elif i != 0:
                v = {1: F.M.r(rng.uniform(0, 1)), 2: ["index", None, "7D", 4][rng.integers(4)], 4: bool(rng.random() < 0.5)}[i]
                q = {1: "val", 2: "freq", 4: "interpQ"}[i]
                if form < 0.33:
                    D[k][i] = v
                elif form < 0.66:
                    setattr(D[k], q, v)
                else:
                    D[k][q] = v
                defs[k][q] = v
            chain.append("edit")
            check(mon, D, defs, "edit", "->".join(chain))
        elif m < 0.55 and len(defs) > 1:
            mon.event("removed")
            D.remove_variable(k)
            del defs[k]
            chain.append("remove")
            check(mon, D, defs, "remove", "->".join(chain))
        elif m < 0.8:
            new = gen_defs(rng, 1)
            d = list(new.values())[0]
            mon.event("assignments")
            form = rng.random()
            if form < 0.3:
                D.add_variable(k, **copy.deepcopy(d))
            elif form < 0.65:
                setattr(D, k, copy.deepcopy(d))
            else:
                setattr(D, k, short(copy.deepcopy(d)))
            defs[k] = d
            chain.append("redefine")
            check(mon, D, defs, "redefine", "->".join(chain))
        keep = copy.deepcopy(defs)
    mon.note(defs=defs, chain=chain)
    mon.distinct(defs, chain)


def shared(rng, mon, tier):
    """definitions are copied: neither the user's dict nor other objects change"""
    from rt1._containers import _RT1_defdict as DD

    defs = gen_defs(rng)
    src = {k: short(d) for k, d in defs.items()} if rng.random() < 0.5 else copy.deepcopy(defs)
    keep = copy.deepcopy(src)
    A, B = DD.from_dict(src), DD.from_dict(src)
    k = str(rng.choice(list(defs)))
    A[k][1] = 0.987
    A.add_variable("new", val=0.1)
    setattr(A, k, [True, 0.1, "index", ([0.0], [0.2]), True])
    check(mon, B, defs, "other-object", "second object made from the same dict")
    mon.check(repr(src) == repr(keep), "user-dict-changed", f"{src} was {keep}")
    src[k] = [False, 7]
    check(mon, B, defs, "later-change-of-dict")
    c = B.to_dict()
    c[k][1] = 55
    check(mon, B, defs, "changed-output-of-to_dict")
    mon.note(defs=defs)
    mon.distinct(defs, "shared")


def fits(rng, mon, tier):
    """fits with different representations of the definitions behave identically"""
    from rt1._containers import _RT1_defdict as DD

    p = F.gen_problem(rng, int_Q=False, n_dates=int(rng.integers(3, 8)))
    if p is None:
        raise Skip("nothing to fit")
    F.clean_for_interp(p)
    mon.note(**F.note(p))
    mon.distinct(p["defdict"], p["V"], "fits")
    defs = {}
    for k, d in p["defdict"].items():
        defs[k] = dict(fitQ=d[0], val=d[1])
        if d[0]:
            defs[k].update(freq=d[2], minval=d[3][0][0], maxval=d[3][1][0], interpQ=d[4] if len(d) > 4 else False)
    reps = dict(list=p["defdict"], dict=defs, table=to_table(rng, mon, defs), table2=to_table(rng, mon, defs), object=DD.from_dict(copy.deepcopy(defs)))
    how, obj = convert(rng, mon, defs)
    reps["random-" + how] = obj
    st = int(rng.integers(2**31))
    out = {}
    for nm, r in reps.items():
        mon.event("fits")
        if rng.random() < 0.3:
            fit = F.make(p, defdict=None)
            fit.defdict = r
        else:
            fit = F.make(p, defdict=r)
        r2 = np.random.default_rng(st)
        with hooks.capture(choose=lambda c: F.draw(r2, c)) as cap:
            fit.performfit()
        c = cap.calls[0]
        out[nm] = (c.x0, np.array(c.lohi()), np.array(c.fun(c.result.x.copy())), fit.res_df[sorted(fit.res_df)], sorted(fit.res_dict))
    a = out["list"]
    for nm, b in out.items():
        mon.close(b[0], a[0], "fit-start", rtol=0, atol=0, msg=nm)
        mon.close(b[1], a[1], "fit-bounds", rtol=0, atol=0, msg=nm)
        mon.close(b[2], a[2], "fit-residual", rtol=1e-12, atol=1e-13, msg=nm)
        mon.equal(b[4], a[4], "fit-parameters", nm)
        mon.check(b[3].equals(a[3]), "fit-table", nm)


SCENARIOS = [
    S("representations", representations, 150, 5000),
    S("shared", shared, 40, 500),
    S("fits", fits, 40, 600),
]
