"""P29: a processing set-up uses and records exactly the specified configuration."""
import builtins
import configparser
import io
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np

from . import core
from . import proc
from .core import S

ID = "P29"
LEVEL = "exploration"
RULE = (
    "Random histories of one or more RTprocess objects on one configuration file (single and multi-configuration): init_kwargs, override_config (replacing and updating, new keys, several sections, unknown sections), setup, "
    "edits of the original file and modules between the steps, other result folders, copied or in-place configurations, given fit objects and processing classes, all answers to the prompts.  A model of the histories "
    "predicts the configuration in use, the processing class and its specifications, the recorded copies and the folders after every step; result folders are then opened by name with RTresults.  Distinct by history."
)
MIN_EVENTS = {"setups": 150, "overrides": 80, "edits": 25, "reused-copies": 20, "prompts": 15, "rejected": 15, "folders": 60, "in-place": 10, "multi": 12}

MODULE = '''
from rt1.processing_config import rt1_processing_config
MARK = %(mark)r
class processing_cfg(rt1_processing_config):
    mark = MARK
    def reader(self, reader_arg):
        return None
class other_cfg(processing_cfg):
    mark = MARK + "-other"
'''


def raw(path):
    c = configparser.ConfigParser(allow_no_value=True, interpolation=None)
    c.optionxform = str
    c.read(path)
    return {s: dict(c[s]) for s in c.sections()}


def text(sec):
    return "".join(f"[{s}]\n" + "".join(k + "\n" if v is None else f"{k} = {v}\n" for k, v in d.items()) + "\n" for s, d in sec.items())


def merge(sec, over):
    return {s: {**d, **over.get(s, {})} for s, d in sec.items()}


def fits_of(o):
    """{name: definition} of a fit object"""
    from rt1.rtfits import MultiFits

    if isinstance(o, MultiFits):
        return {n: repr(sorted(o.configs[n]._get_init_dict().items(), key=str)) for n in o.config_names}
    return {"": repr(sorted(o._get_init_dict().items(), key=str))}


def gen_over(rng, sec, folders):
    """random overrides {section: {key: value}}"""
    out = {}
    for _ in range(int(rng.integers(1, 4))):
        m = rng.integers(7)
        if m == 0:
            k = str(rng.choice([x for x in sec["defdict"]]))
            out.setdefault("defdict", {})[k] = f"[False, {round(float(rng.uniform(0.1, 0.4)), 3)}]"
        elif m == 1:
            out.setdefault("fits_kwargs", {})[str(rng.choice(["sig0", "dB"]))] = [True, False, "yes", "no"][rng.integers(4)]
        elif m == 2:
            k, v = [("max_nfev", int(rng.integers(2, 50))), ("ftol", 10.0 ** -int(rng.integers(2, 9))), ("method", "trf"), ("loss", "soft_l1"), ("gtol", None)][rng.integers(5)]
            out.setdefault("least_squares_kwargs", {})[k] = v
        elif m == 3:
            k, v = [("float__thr", round(float(rng.uniform(0, 9)), 3)), ("int__year", int(rng.integers(1990, 2020))), ("list__names", "[a, b]"), ("note", "x y"), ("finalout_name", "fin.h5"), ("float__new", -1.5)][rng.integers(6)]
            out.setdefault("PROCESS_SPECS", {})[k] = v
        elif m == 4:
            out.setdefault("PROCESS_SPECS", {})["dumpfolder"] = str(rng.choice(folders))
        elif m == 5:
            out.setdefault("RT1_V", {})["omega" if rng.random() < 0.5 else "tau"] = round(float(rng.uniform(0.1, 0.4)), 3)
        else:
            s = [x for x in sec if x.startswith("#config") and x.endswith("defdict")]
            if s:
                k = str(rng.choice(list(sec["defdict"])))
                out.setdefault(str(rng.choice(s)), {})[k] = f"[False, {round(float(rng.uniform(0.1, 0.4)), 3)}]"
    return out or dict(PROCESS_SPECS=dict(note="z"))


class World:
    def __init__(self, rng, mon, d):
        self.rng, self.mon, self.d = rng, mon, d
        self.out = os.path.join(d, "o u t" if rng.random() < 0.2 else "out")
        cfg = proc.gen_config(rng, ncfg=int(rng.choice([0, 0, 2])))
        mon.event("multi", int(bool(cfg["names"])))
        p = os.path.join(d, "gen.ini")
        open(p, "w").write(cfg["text"])
        sec = raw(p)
        os.remove(p)
        self.folders = [["dump01", "v1.0", "v1.5", "x"][i] for i in rng.permutation(4)]
        self.mods = {}
        for k in ["processing_cfg"] + (["helper"] if rng.random() < 0.4 else []):
            self.mods[k] = f"pm_{k}.py"
            self.edit_mod(k)
        if rng.random() < 0.4:  # another name of the processing-module
            self.mods["special"] = "pm_special.py"
            self.edit_mod("special")
            sec["CONFIGFILES"]["processing_cfg_module"] = "special"
        self.main = "special" if "special" in self.mods else "processing_cfg"
        del sec["CONFIGFILES"]["module__processing_cfg"]
        for k, f in self.mods.items():
            sec["CONFIGFILES"][f"module__{k}"] = os.path.join(d, f)
        if rng.random() < 0.4:
            sec = dict(shared=dict(base=self.out, thr="2.5"), **sec)
            sec["PROCESS_SPECS"]["path__save_path"] = "${shared:base}"
            sec["PROCESS_SPECS"]["float__thr"] = "${shared:thr}"
        else:
            sec["PROCESS_SPECS"]["path__save_path"] = self.out
            sec["PROCESS_SPECS"]["float__thr"] = "0.5"
        self.cls = "processing_cfg"
        if rng.random() < 0.3:
            self.cls = sec["PROCESS_SPECS"]["processing_cfg_class"] = "other_cfg"
        sec["PROCESS_SPECS"]["int__year"] = "2001"
        sec["PROCESS_SPECS"]["dumpfolder"] = self.folders[0]
        self.sec = sec
        self.ini = os.path.join(d, str(rng.choice(["cfg.ini", "my config.ini", "a.b.ini"])))
        self.save()
        self.copies = {}  # {folder: {ini name: sections}}
        self.cmods = {}  # {folder: {file: text}}

    def edit_mod(self, k):
        self.nmark = getattr(self, "nmark", 0) + 1
        with open(os.path.join(self.d, self.mods[k]), "w") as f:
            f.write(MODULE % dict(mark=f"{k}-{self.nmark}"))

    def modtext(self, k):
        return open(os.path.join(self.d, self.mods[k])).read()

    def save(self):
        self.bytes = ("# a comment\n" + text(self.sec)).encode()
        with open(self.ini, "wb") as f:
            f.write(self.bytes)

    # ------------------------------------------------------------ observation
    def verify(self, p, sec_used, specs_sec, modtexts, pre):
        """the object after a set-up"""
        from rt1.rtparse import RT1_configparser

        mon = self.mon
        path = os.path.join(self.d, "expect.ini")
        open(path, "w").write(text(sec_used))
        want = RT1_configparser(path)
        mon.equal({s: dict(p.cfg.config[s]) for s in p.cfg.config.sections()}, {s: dict(want.config[s]) for s in want.config.sections()}, f"{pre}:config", "configuration in use")
        if p._parent_fit is None:
            mon.equal(fits_of(p.parent_fit), fits_of(want.get_fitobject()), f"{pre}:fit", "definition of the fit")
        open(path, "w").write(text(specs_sec))
        specs = RT1_configparser(path).get_process_specs()
        os.remove(path)
        if p._proc_cls is None:
            got = {k: getattr(p.proc_cls, k, "missing") for k in specs}
            mon.equal(got, specs, f"{pre}:specs", "specifications of the processing class")
            ns = {}
            mark = [x for x in modtexts[self.mods[self.main]].splitlines() if x.startswith("MARK")][0]
            exec(mark, ns)
            mon.equal(p.proc_cls.mark, ns["MARK"] + ("-other" if self.cls == "other_cfg" else ""), f"{pre}:module", "processing class in use")
            mon.equal(str(p.proc_cls.rt1_procsesing_respath), os.path.join(self.out, specs["dumpfolder"], "results"), f"{pre}:respath", "result path")
            mon.equal(str(p.proc_cls.rt1_procsesing_dumppath), os.path.join(self.out, specs["dumpfolder"], "dumps"), f"{pre}:dumppath", "dump path")
        mon.equal(str(p.dumppath), os.path.join(self.out, specs["dumpfolder"]), f"{pre}:path", "folder of the results")

    def disk(self, pre):
        """folders, recorded configurations and modules"""
        mon = self.mon
        mon.equal(open(self.ini, "rb").read(), self.bytes, f"{pre}:original", "the original configuration has been changed")
        have = sorted(os.listdir(self.out)) if os.path.isdir(self.out) else []
        mon.equal(have, sorted(self.copies), f"{pre}:folders", "result folders")
        for f in have:
            base = os.path.join(self.out, f)
            mon.equal(sorted(x for x in os.listdir(base) if os.path.isdir(os.path.join(base, x))), ["cfg", "dumps", "results"], f"{pre}:subfolders", f)
            files = {x: open(os.path.join(base, "cfg", x), "rb").read() for x in os.listdir(os.path.join(base, "cfg")) if not x.startswith("__")}
            mon.equal(sorted(files), sorted([*self.copies.get(f, {}), *self.cmods.get(f, {})]), f"{pre}:recorded", f"files recorded in {f}")
            for k, t in self.cmods.get(f, {}).items():
                mon.equal(files.get(k, b"").decode(), t, f"{pre}:recorded-module", f"{k} in {f}")
            for k, s in self.copies.get(f, {}).items():
                if isinstance(s, bytes):
                    mon.equal(files.get(k), s, f"{pre}:recorded-config", f"copy of the configuration in {f}")
                else:
                    mon.equal(raw(os.path.join(base, "cfg", k)), s, f"{pre}:recorded-config", f"recorded configuration in {f}")

    def recorded(self, folder):
        s = self.copies[folder][os.path.basename(self.ini)]
        if isinstance(s, bytes):
            p = os.path.join(self.d, "tmp.ini")
            open(p, "wb").write(s)
            s = raw(p)
            os.remove(p)
        return s


class Stop(Exception):
    pass


def case(rng, mon, tier):
    from rt1 import rtprocess

    d = tempfile.mkdtemp(prefix="vfset_", dir=core.SCRATCH)
    mods, path = set(sys.modules), list(sys.path)
    name = mp.current_process().name
    saved = rtprocess.shutil.rmtree, builtins.input
    removed = []

    def rmtree(p, *a, **k):
        # a stand-in that can not leave the scratch folder
        p = os.path.realpath(p)
        removed.append(p)
        if not p.startswith(os.path.realpath(d) + os.sep):
            raise Stop(f"removal of {p}")
        saved[0](p)

    try:
        mp.current_process().name = "MainProcess"
        w = World(rng, mon, d)
        rtprocess.shutil.rmtree = rmtree
        history(rng, mon, w, rtprocess, removed)
    finally:
        rtprocess.shutil.rmtree, builtins.input = saved
        mp.current_process().name = name
        for k in set(sys.modules) - mods:
            if k.startswith("pm_"):
                del sys.modules[k]
        sys.path[:] = path
        shutil.rmtree(d, ignore_errors=True)


def strs(o):
    return {s: {k: str(v) for k, v in x.items()} for s, x in o.items()}


def history(rng, mon, w, rtprocess, removed):
    hist = []
    procs = []
    for step in range(int(rng.integers(4, 12))):
        m = rng.random()
        if not procs or m < 0.15:
            kw, init = dict(autocontinue=bool(rng.random() < 0.75), copy=bool(rng.random() < 0.85)), {}
            given = {}
            if rng.random() < 0.35:
                init = strs(gen_over(rng, w.sec, w.folders))
                kw["init_kwargs"] = {s: dict(v) for s, v in init.items()}
            if rng.random() < 0.1:
                from rt1.rtfits import Fits

                given["parent_fit"] = Fits()
            if rng.random() < 0.1:
                class P:
                    preprocess = reader = exceptfunc = None
                given["proc_cls"] = P()
            if rng.random() < 0.1:
                try:
                    rtprocess.RTprocess(w.ini, init_kwargs=dict(PROCESS_SPECS=dict(a=1)))
                    mon.fail("init-type", "init_kwargs that are not strings are accepted")
                except AssertionError:
                    mon.event("rejected")
            hist.append(("new", kw, list(given)))
            p = rtprocess.RTprocess(Path(w.ini) if rng.random() < 0.5 else w.ini, **kw, **given)
            procs.append([p, init, given])
            continue
        ent = procs[rng.integers(len(procs))]
        p, init, given = ent
        if m < 0.4:
            o, keep = gen_over(rng, w.sec, w.folders), bool(rng.random() < 0.5)
            hist.append(("override", o, keep))
            if rng.random() < 0.15:
                bad = dict(o, RT1_X=dict(a=1))
                try:
                    p.override_config(override=not keep, **bad)
                    mon.fail("unknown-section", "an unknown section is accepted")
                except AssertionError:
                    mon.event("rejected")
            before = repr(o)
            args = {} if not keep and rng.random() < 0.5 else dict(override=not keep)
            p.override_config(**args, **o)
            mon.event("overrides")
            mon.equal(repr(o), before, "override-args", "arguments have been changed")
            ent[1] = {s: {**init.get(s, {}), **strs(o).get(s, {})} for s in {**init, **o}} if keep else strs(o)
            mon.equal(p.init_kwargs, ent[1], "override", "overriding definitions")
        elif m < 0.5:
            # the user edits the file or a module
            mon.event("edits")
            if rng.random() < 0.5:
                w.sec = merge(w.sec, strs({s: v for s, v in gen_over(rng, w.sec, w.folders).items()}))
                w.save()
                hist.append(("edit", w.sec["PROCESS_SPECS"]["dumpfolder"]))
            else:
                k = str(rng.choice(list(w.mods)))
                w.edit_mod(k)
                hist.append(("edit-module", k))
        else:
            setup(rng, mon, w, rtprocess, removed, hist, ent)
        w.disk(hist[-1][0])
        if mon.violations:
            break
    mon.note(ini=w.ini, out=w.out, main=w.main, cls=w.cls, history=hist)
    mon.distinct(text(w.sec), hist)
    if mon.violations or not w.copies:
        return
    # the result folders by name
    from rt1.rtresults import RTresults

    res = RTresults(w.out)
    mon.equal(sorted(res._paths), sorted(w.copies), "results", "result folders")
    for f, c in w.copies.items():
        mon.event("folders")
        r = res[f]
        mon.equal(str(r.path), os.path.join(w.out, f), "results-path", f"path of the results {f}")
        if len(c) == 1:
            cfg = r.load_cfg()
            got = {s: dict(cfg.config._sections[s]) for s in cfg.config.sections()}
            mon.equal(got, w.recorded(f), "results-cfg", f"configuration of the results {f}")


def setup(rng, mon, w, rtprocess, removed, hist, ent):
    p, init, given = ent
    eff = merge(w.sec, init)
    folder = eff["PROCESS_SPECS"]["dumpfolder"]
    exists = folder in w.copies
    ask = not p.autocontinue and exists
    answers, outcome = [], "go"
    if ask:
        answers, outcome = [(["yes"], "go"), (["Y"], "go"), (["no"], "stop"), (["n"], "stop"), (["?"], "stop"), ([""], "stop"), (["remove", "y"], "removed"), (["REMOVE", "YES"], "removed"), (["remove", "no"], "stop"), (["Remove", "remove"], "stop")][rng.integers(10)]
        mon.event("prompts")
    asked = []
    extra = None
    if exists:  # results of a previous run
        extra = os.path.join(w.out, folder, "results", "r.bin")
        open(extra, "wb").write(b"123")

    def ask_input(*a):
        asked.append(1)
        if len(asked) > len(answers):
            raise Stop("unexpected prompt")
        return answers[len(asked) - 1]

    builtins.input = ask_input
    hist.append(("setup", folder, answers))
    del removed[:]
    stopped = False
    try:
        with redirect_stdout(io.StringIO()):
            p.setup()
    except SystemExit:
        stopped = True
    except Stop as e:
        mon.fail("setup-stop", str(e))
        return
    mon.event("setups")
    mon.equal(len(asked), len(answers), "prompt", f"questions asked (folder {'exists' if exists else 'is new'}, autocontinue={p.autocontinue})")
    if not mon.equal(stopped, outcome == "stop", "answer", f"stopped after {answers}"):
        return
    mon.equal(removed, [os.path.realpath(os.path.join(w.out, folder))] if outcome == "removed" else [], "removed", f"removed folders after {answers}")
    if extra:
        mon.check(os.path.exists(extra) == (outcome != "removed"), "previous-results", f"results of the previous run after {answers}")
        if os.path.exists(extra):
            os.remove(extra)
    if outcome == "stop":
        return
    if outcome == "removed":
        w.copies.pop(folder), w.cmods.pop(folder)
    ini = os.path.basename(w.ini)
    c, cm = w.copies.setdefault(folder, {}), w.cmods.setdefault(folder, {})
    current = {f: w.modtext(k) for k, f in w.mods.items()}
    if p.copy:
        if init:
            c[ini] = eff
        elif ini in c:
            mon.event("reused-copies")
        else:
            c[ini] = w.bytes
        for f, t in current.items():
            cm.setdefault(f, t)
        used, modtexts = w.recorded(folder), cm
    else:
        mon.event("in-place")
        used, modtexts = eff, current
    if given.get("parent_fit") is not None:
        mon.check(p.parent_fit is given["parent_fit"], "given-fit", "the provided fit is not used")
    if given.get("proc_cls") is not None:
        mon.check(p.proc_cls is given["proc_cls"], "given-class", "the provided processing class is not used")
    w.verify(p, used, eff, modtexts, "setup")


SCENARIOS = [S("setup", case, 110, 3000)]
