"""Executes one processing step in its own process (python procdrv.py job.json); see vf/proc.py."""
import json
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "OMP_NUM_THREADS", "NUMEXPR_NUM_THREADS", "BLOSC_NTHREADS"):
    os.environ[_k] = "1"


def main(path):
    import warnings

    warnings.simplefilter("ignore")
    job = json.load(open(path))
    os.chdir(job["dir"])
    sys.path.insert(0, job["dir"])
    op = job["op"]
    if job.get("fsize"):  # a full disk: nothing beyond this size can be written
        import resource
        import signal

        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (job["fsize"], job["fsize"]))
    kw = job.get("kwargs", {})
    out = {}
    try:
        if op in ("process", "export", "finalout", "session"):
            from rt1.rtprocess import RTprocess

            proc = RTprocess(job.get("config", "cfg.ini"), autocontinue=True, **job.get("init", {}))
            if job.get("override"):
                proc.override_config(**job["override"])
        if op == "process":
            for k in kw.get("pool_kwargs") or {}:
                if k == "initializer":
                    import vf_funcs

                    kw["pool_kwargs"]["initializer"] = getattr(vf_funcs, kw["pool_kwargs"]["initializer"])
            proc.run_processing(**kw)
        elif op == "export":
            if kw.get("export_functions"):
                import vf_funcs

                kw["export_functions"] = {k: getattr(vf_funcs, v) for k, v in kw["export_functions"].items()}
            proc.export_data_to_HDF(**kw)
        elif op == "finalout":
            if kw.get("postprocess"):
                import vf_funcs

                kw["postprocess"] = getattr(vf_funcs, kw["postprocess"])
            proc.run_finaloutput(**kw)
        elif op == "session":
            import vf_funcs

            out["steps"] = []
            for st in job["steps"]:
                k = dict(st["kwargs"])
                if k.get("export_functions"):
                    k["export_functions"] = {a: getattr(vf_funcs, b) for a, b in k["export_functions"].items()}
                if k.get("postprocess"):
                    k["postprocess"] = getattr(vf_funcs, k["postprocess"])
                if k.get("metrics"):
                    k["metrics"] = {a: tuple(b) if isinstance(b, list) else b for a, b in k["metrics"].items()}
                keep = json.dumps(k, default=str)
                getattr(proc, st["call"])(**k)
                out["steps"].append(json.dumps(k, default=str) == keep)
        elif op == "pipeline":
            import vf_funcs
            from rt1._rtprocess_writer import RT1_processor

            pool = dict(job.get("pool", {}))
            if pool.get("init_args"):  # delays in the combiner- and writer processes
                pool.update(init_func=vf_funcs.inject, init_args=(pool["init_args"],))
            with RT1_processor.writer_pool(dst_path=job["dst"], **pool) as w:
                w.run_starmap(process_func=getattr(vf_funcs, job["func"]), **kw)
        else:
            raise KeyError(op)
        out["ok"] = True
    except BaseException as e:
        import traceback

        traceback.print_exc()
        out["ok"] = False
        out["error"] = f"{type(e).__name__}: {e}"
    with open(path + ".out", "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main(sys.argv[1])
