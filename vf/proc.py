"""Processing runs in scratch folders: generated configuration + processing module, fault plan, event log.

Every run is one `python procdrv.py job.json` in its own session inside a scratch folder; the
generated module reads `plan.json` (what each site shall do: delay, fail, ...) and appends one line
per event to `events.log`.  The monitors check the stores, the event log and the process table.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import numpy as np
import pandas as pd

from . import core
from . import models as M

PY = sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))

MODULE = '''
import json, os, re, time
import numpy as np
import pandas as pd
from rt1.processing_config import rt1_processing_config

BASE = %(base)r


def event(*x):
    fd = os.open(os.path.join(BASE, "events.log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps([round(time.time(), 4), os.getpid(), *x]) + "\\n").encode())
    os.close(fd)


def plan(ID):
    with open(os.path.join(BASE, "plan.json")) as f:
        return json.load(f).get(str(ID), {})


class CustomError(Exception):
    pass


def boom(kind):
    if kind == "skip":
        raise Exception("rt1_skip")
    if kind == "data":
        raise Exception("rt1_data_error", "bad data")
    if kind == "exists":
        raise Exception("rt1_file_already_exists")
    if kind == "custom":
        raise CustomError(1, [2])
    if kind == "key":
        raise KeyError("x")
    if kind == "memory":
        raise MemoryError()
    if kind == "unpicklable":
        raise ValueError(lambda: 1)
    if kind == "assert":
        assert False, "some assertion"
    if kind == "zero":
        1 / 0
    if kind == "os":
        open("/nonexistent/file")
    raise RuntimeError(kind)


def dataset(ID):
    """the data of a site"""
    p = json.load(open(os.path.join(BASE, "data.json")))
    rng = np.random.default_rng([p["seed"], int(re.findall("[0-9]+", str(ID))[-1])])
    n = int(rng.integers(p["nmin"], p["nmax"] + 1))
    hours = np.cumsum(rng.integers(5, 60, n))
    if p.get("dup"):
        hours = np.repeat(hours, rng.integers(1, 3, n))
        n = len(hours)
    df = pd.DataFrame(dict(inc=np.round(rng.uniform(0.3, 1.0, n), 6), sig=np.round(rng.uniform(0.02, 0.4, n), 6)),
                      index=pd.DatetimeIndex(pd.Timestamp("2018-01-05") + pd.to_timedelta(hours, unit="h")))
    if p["dB"]:
        df["sig"] = np.round(10 * np.log10(df["sig"]), 6)
    for c in p["aux"]:
        df[c] = np.round(rng.uniform(0.1, 0.4, n), 6)
    for c in p["dyn"]:
        df[c + "_dyn"] = rng.integers(0, 4, n)
        if p.get("datekeys"):
            df[c + "_dyn"] = df.groupby(level=0)[c + "_dyn"].transform("first")
    for c in p.get("extra", []):
        df[c] = rng.uniform(0, 1, n)
    if p.get("weights"):
        df["data_weights"] = np.round(rng.uniform(0.5, 2, n), 4)
    shape = plan(ID).get("shape")
    if p.get("meta"):
        df["mi"] = rng.integers(0, 50, n)
        df["ms"] = [f"v{x}" for x in rng.integers(0, 5, n)]
    if shape == "float":
        df["mi"] = df["mi"] + 0.25
    elif shape == "long":
        df["ms"] = "long text " * 15
    elif shape == "add":
        df["zz"] = rng.uniform(0, 1, n)
    elif shape == "less":
        del df["mi"]
    elif shape == "objects":
        df["mi"] = pd.Series([[1], "a"] * n, dtype=object).values[:n]
    if p.get("shuffle"):
        df = df.iloc[rng.permutation(n)]
    return df


def auxdata(ID):
    p = json.load(open(os.path.join(BASE, "data.json")))
    if p.get("ret") in ("one", "text", "three"):
        return None
    rng = np.random.default_rng([p["seed"], 77, int(re.findall("[0-9]+", str(ID))[-1])])
    if p["auxdata"] is None or (p["auxdata"] == "some" and rng.random() < 0.5):
        return None
    n = int(rng.integers(2, 6))
    return pd.DataFrame(dict(u=rng.uniform(size=n), w=rng.integers(0, 9, n)), pd.date_range("2018-01-01", periods=n, freq="D"))


class processing_cfg(rt1_processing_config):
    def reader(self, reader_arg):
        ID = reader_arg["ID"]
        p = plan(ID)
        event("read", str(ID))
        if p.get("delay"):
            time.sleep(p["delay"])
        if p.get("hold"):
            event("hold", str(ID))
            t = time.time()
            while time.time() - t < 120 and not os.path.exists(os.path.join(BASE, p["hold"])):
                time.sleep(0.05)
        fail = p.get("reader")
        df = dataset(ID)
        if fail == "none":
            return None
        if fail == "empty":
            return pd.DataFrame()
        if fail == "norows":
            return df.iloc[:0]
        if fail == "nosig":
            return df.drop(columns="sig")
        if fail == "noinc":
            return df.drop(columns="inc")
        if fail == "nan":
            df.loc[df.index[0], "sig"] = np.nan
            return df
        if fail == "inf":
            df["sig"] = np.inf
            return df
        if fail == "strings":
            df["sig"] = "abc"
            return df
        if fail == "tuple":
            return (None, df)
        if fail == "list":
            return []
        if fail == "number":
            return 5
        if fail == "nodates":
            return df.reset_index(drop=True).rename(index=lambda i: "x%%d" %% i)
        if fail == "noaux":
            return df[["inc", "sig"]]
        if fail:
            boom(fail)
        aux = auxdata(ID)
        event("loaded", str(ID))
        ret = json.load(open(os.path.join(BASE, "data.json"))).get("ret")
        if ret == "one":
            return (df,)
        if ret == "text":
            return df, "some text"
        if ret == "three":
            return [df, df[["sig"]], 5]
        if aux is not None:
            return [df, aux] if ret == "list" else (df, aux)
        return df
%(extra)s
'''

NAMES_FAIL = '''
    def get_names_ids(self, reader_arg):
        p = plan(reader_arg["ID"])
        import inspect
        if p.get("names") and inspect.stack()[1].function in ("_evalfunc", "_run_postprocess"):
            boom(p["names"])
        return super().get_names_ids(reader_arg)
'''

POST_FAIL = '''
    def exceptfunc(self, ex, reader_arg):
        event("except", str(reader_arg["ID"]), type(ex).__name__)
        p = plan(reader_arg["ID"])
        if p.get("exceptfunc"):
            boom(p["exceptfunc"])
        return super().exceptfunc(ex, reader_arg)
'''


# ---------------------------------------------------------------- configurations
def gen_config(rng, ncfg=0, int_Q=0.15, dyn=True, aux=True):
    """a fit definition (and overrides) for processing: dict with the text of the file and the data plan"""
    def defdict(r):
        fr = lambda: [None, "index", "3D", "W", "2", "manual", "10D + manual"][r.integers(7 if dyn else 5)]
        d = {}
        d["omega"] = ["fit", 0.2, fr(), 0.05, 0.5]
        d["N"] = ["fit", 0.1, "index" if r.random() < 0.5 else fr(), 0.01, 0.3]
        d["tau"] = ["fit", 0.3, fr(), 0.05, 1.0] if r.random() < 0.4 else ["fixed", round(float(r.uniform(0.1, 0.5)), 3)] if r.random() < 0.6 or not aux else ["aux"]
        d["t_v"] = ["fixed", 0.3] if r.random() < 0.6 else ["fit", 0.2, None, 0.05, 0.5]
        if r.random() < 0.3:
            d["bsf"] = ["fixed", 0.1] if r.random() < 0.5 or not aux else ["aux"]
        return d

    def line(v):
        if v[0] == "fixed":
            return f"[False, {v[1]}]"
        if v[0] == "aux":
            return "[False, auxiliary]"
        return f"[True, {v[1]}, {v[2]}, {v[3]}, {v[4]}]"

    base = defdict(rng)
    inter = bool(rng.random() < int_Q)
    dB = bool(rng.random() < 0.4)
    sig0 = bool(rng.random() < 0.6)
    V = rng.choice(["HenyeyGreenstein", "Rayleigh"])
    if V == "Rayleigh":
        base.pop("t_v")
    txt = ["[fits_kwargs]", f"sig0 = {sig0}", f"dB = {dB}", f"int_Q = {inter}", "verbose = 0",
           "[least_squares_kwargs]", "ftol = 1e-5", "xtol = 1e-5", "gtol = 1e-5", f"max_nfev = {int(rng.integers(4, 12))}", "x_scale = jac",
           "[defdict]"] + [f"{k} = {line(v)}" for k, v in base.items()]
    txt += ["[RT1_V]", f"V_name = {V}", "tau = tau", "omega = omega"]
    if V != "Rayleigh":
        txt += ["t = t_v", "ncoefs = 6"]
    txt += ["[RT1_SRF]"]
    if rng.random() < 0.5:
        txt += ["SRF_name = HG_nadirnorm", "t = 0.25", "ncoefs = 6", "NormBRDF = N"]
    else:
        txt += ["SRF_name = CosineLobe", "i = 3", "ncoefs = 5", "NormBRDF = N/2 + 0.01"]
    txt += ["[CONFIGFILES]", "module__processing_cfg = pcfg.py", "[PROCESS_SPECS]", "finalout_name = results.h5", "dumpfolder = dump01", "path__save_path = out"]
    defs = [base]
    names = []
    for j in range(ncfg):
        nm = ["low", "cfg_1", "Z", "mid"][j]
        names.append(nm)
        o = {}
        k = str(rng.choice([x for x in base if x != "N"]))
        o[k] = ["fixed", round(float(rng.uniform(0.1, 0.4)), 3)] if base[k][0] == "fit" else ["fit", 0.2, [None, "5D", "index"][rng.integers(3)], 0.05, 0.5]
        txt += [f"[#config {nm} defdict]"] + [f"{a} = {line(b)}" for a, b in o.items()]
        if rng.random() < 0.5:
            txt += [f"[#config {nm} fits_kwargs]", f"int_Q = {bool(rng.random() < int_Q)}"]
        if rng.random() < 0.5:
            txt += [f"[#config {nm} least_squares_kwargs]", f"max_nfev = {int(rng.integers(3, 9))}"]
        defs.append({**base, **o})
    auxk = sorted({k for d in defs for k, v in d.items() if v[0] == "aux"})
    dynk = sorted({k for d in defs for k, v in d.items() if v[0] == "fit" and v[2] and "manual" in str(v[2])})
    if V == "Rayleigh":
        vspec = dict(type="Rayleigh", a=[-1, 1, 1])
    else:
        vspec = dict(type=str(V), t="t_v", ncoefs=6, a=[-1, 1, 1])
    if "SRF_name = HG_nadirnorm" in txt:
        sspec, norm = dict(type="HG_nadirnorm", t=0.25, ncoefs=6, a=[1, 1, 1]), "N"
    else:
        sspec, norm = dict(type="CosineLobe", i=3, ncoefs=5, a=[1, 1, 1]), "N/2 + 0.01"
    return dict(text="\n".join(txt) + "\n", V=vspec, SRF=sspec, norm=norm, defs=defs, names=names, dB=dB, sig0=sig0,
                data=dict(seed=int(rng.integers(1 << 30)), nmin=6, nmax=14, dB=dB, aux=auxk, dyn=dynk, auxdata=[None, None, "all", "some"][rng.integers(4)],
                          extra=["other"] if rng.random() < 0.3 else [], weights=bool(rng.random() < 0.2), dup=bool(rng.random() < 0.3), shuffle=bool(rng.random() < 0.2),
                          ret=[None, None, "list", "one", "text", "three"][rng.integers(6)]))


class Box:
    """a scratch folder with a configuration"""

    def __init__(self, cfg, plan=None, extra="", funcs=""):
        self.dir = tempfile.mkdtemp(prefix="vfproc_", dir=core.SCRATCH)
        self.cfg = cfg
        self.n = 0
        self.write("cfg.ini", cfg["text"])
        self.write("pcfg.py", MODULE % dict(base=self.dir, extra=extra))
        self.write("data.json", json.dumps(cfg["data"]))
        self.write("vf_funcs.py", FUNCS % dict(base=self.dir) + funcs)
        self.plan(plan or {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.killall()
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write(text)

    def plan(self, plan):
        self.write("plan.tmp", json.dumps({str(k): v for k, v in plan.items()}))
        os.replace(os.path.join(self.dir, "plan.tmp"), os.path.join(self.dir, "plan.json"))

    # ------------------------------------------------------------ execution
    def start(self, **job):
        self.n += 1
        job["dir"] = self.dir
        path = os.path.join(self.dir, f"job{self.n}.json")
        with open(path, "w") as f:
            json.dump(job, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith("VF_")}
        env.update(PYTHONPATH=os.path.realpath(core.REPO), MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", HOME=self.dir, TMPDIR=self.dir)
        log = open(os.path.join(self.dir, f"job{self.n}.log"), "wb")
        p = subprocess.Popen([PY, os.path.join(HERE, "procdrv.py"), path], cwd=self.dir, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        p.job = path
        log.close()
        return p

    def finish(self, p, timeout=200):
        """(outcome, message); outcome: ok, failed, hang"""
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            n = self.group(p.pid)
            self.kill(p)
            return "hang", f"not finished after {timeout} s ({n} processes)"
        # all processes of the run must be gone shortly after
        t = time.time()
        while self.group(p.pid) and time.time() - t < 20:
            time.sleep(0.1)
        left = self.group(p.pid)
        if left:
            self.kill(p)
            return "left", f"{left} processes left behind"
        try:
            out = json.load(open(p.job + ".out"))
        except OSError:
            return "died", f"exit code {p.returncode}"
        return ("ok", "") if out["ok"] else ("failed", out["error"])

    def run(self, timeout=200, **job):
        return self.finish(self.start(**job), timeout)

    def process(self, ids, ncpu=1, timeout=200, **kw):
        return self.run(op="process", timeout=timeout, kwargs=dict(ncpu=ncpu, reader_args=[self.arg(i) for i in ids], **kw))

    @staticmethod
    def arg(i):
        return dict(ID=i, tag=f"t{i}")

    @staticmethod
    def group(pgid):
        n = 0
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open(f"/proc/{d}/stat") as f:
                        s = f.read().rpartition(")")[2].split()
                    if int(s[2]) == pgid and s[0] not in "ZX":
                        n += 1
                except (OSError, ValueError, IndexError):
                    pass
        return n

    def kill(self, p, sig=signal.SIGKILL):
        try:
            os.killpg(p.pid, sig)
        except (ProcessLookupError, PermissionError):
            pass
        if sig == signal.SIGKILL:
            p.wait()

    def killall(self):
        pass

    def log(self, n=None):
        try:
            return open(os.path.join(self.dir, f"job{n or self.n}.log"), errors="replace").read()[-4000:]
        except OSError:
            return ""

    # ------------------------------------------------------------ observation
    def events(self):
        try:
            return [json.loads(x) for x in open(os.path.join(self.dir, "events.log"))]
        except OSError:
            return []

    @property
    def store(self):
        return os.path.join(self.dir, "out", "dump01", "results", "fit_db.h5")

    def tables(self, path=None):
        """{key: DataFrame} of the raw store"""
        path = path or self.store
        if not os.path.exists(path):
            return {}
        with pd.HDFStore(path, "r") as s:
            return {k.strip("/"): s.select(k) for k in s.keys() if not k.endswith("/meta")}

    # ------------------------------------------------------------ reference
    def reference(self, ids):
        """fits of the sites made one after the other in this process: {id: Fits or MultiFits}"""
        import importlib.util

        from rt1.rtparse import RT1_configparser

        spec = importlib.util.spec_from_file_location(f"pcfg_{os.path.basename(self.dir)}", os.path.join(self.dir, "pcfg.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        out = {}
        pre = {}
        for i in ids:
            cfg = RT1_configparser(os.path.join(self.dir, "cfg.ini"))
            o = cfg.get_fitobject()
            fits = {n: o.configs[n] for n in self.cfg["names"]} if self.cfg["names"] else {"default": o}
            for name, f in fits.items():
                f.dataset = mod.dataset(i)
                if f.int_Q:
                    if name in pre:
                        f._fnevals_input = pre[name]
                    else:
                        pre[name] = f.R._fnevals
                f.performfit()
            out[i] = fits
        return out, mod


FUNCS = '''
import os, time, json
import numpy as np
import pandas as pd

BASE = %(base)r
'''
