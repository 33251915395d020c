"""worker process:  sym <harness> <out> <tier> | replay <case.json> | search <harness> <out> <seeds>"""
import glob
import importlib.util
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")


def load_checks():
    from vp import harness
    for f in sorted(glob.glob(os.path.join(ROOT, "checks", "*.py"))):
        if os.path.basename(f).startswith("_"):
            continue
        name = "checks." + os.path.basename(f)[:-3]
        if name in sys.modules:
            continue
        spec = importlib.util.spec_from_file_location(name, f)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
    return harness.REGISTRY


FUNCS = set()


def monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "vp")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + "/jVMC"):
            FUNCS.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def env_for(devices):
    e = dict(os.environ)
    e["XLA_FLAGS"] = "--xla_force_host_platform_device_count=%d" % devices
    e["JAX_PLATFORMS"] = "cpu"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = "1"
    e["TF_CPP_MIN_LOG_LEVEL"] = "3"
    e["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["PYTHONPATH"] = REPO
    return e


def concrete_run(spec, values, seed):
    from vp import harness, replaystubs
    h = harness.Concrete(spec, values, seed)
    try:
        with replaystubs.session(h):
            spec.fn(h)
    except harness.AssumeFailed:
        return {"result": "assume"}, h
    except harness.Violated as v:
        return {"result": "violated", "label": v.label, "detail": v.detail}, h
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO + "/jVMC") for f in tb)
        own = [f.filename for f in tb if f.filename.startswith((REPO, ROOT))]
        if type(e).__name__ == "Unsupported" or (own and os.path.basename(own[-1]) in ("draws.py", "replaystubs.py")):
            in_repo = False     # raised by the stand-ins of the check, not by the code
        return {"result": "violated" if in_repo else "error", "label": "exception",
                "detail": "%s: %s" % (type(e).__name__, str(e)[:400]),
                "tb": traceback.format_exc()[-2500:]}, h
    return {"result": "ok", "labels": h.labels}, h


def setup_path():
    # the code under test comes from the repository's working tree
    sys.path.insert(0, REPO)


def main():
    mode = sys.argv[1]
    setup_path()
    reg = load_checks()
    import jax
    jax.config.update("jax_enable_x64", True)
    if mode == "sym":
        hid, out, tier = sys.argv[2:5]
        spec = reg[hid]
        from vp import stubs, harness, solve
        stubs.install()
        monitor()
        import jVMC  # noqa
        assert os.path.realpath(jVMC.__file__).startswith(os.path.realpath(REPO)), jVMC.__file__
        stubs.shim_modules()
        os.environ["VP_TIER"] = tier
        ex = harness.Explorer(spec, budget_s=spec.opts.get("budget", 500 if tier == "quick" else 3000))
        r = ex.run()
        r["functions"] = sorted(FUNCS)
        from vp import poly
        r["narrowed"] = poly.NARROWED[0]
        json.dump(r, open(out, "w"), default=str)
    elif mode == "replay":
        case = json.load(open(sys.argv[2]))
        spec = reg[case["harness"]]
        from vp import harness
        harness.TOL = case.get("tol", harness.TOL)
        r, h = concrete_run(spec, case["values"], case.get("seed", 0))
        r["inputs"] = h.used
        if len(sys.argv) > 3:
            json.dump(r, open(sys.argv[3], "w"), default=str)
        else:
            print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["result"] == "violated" else 0)
    elif mode == "search":
        hid, out, n = sys.argv[2:5]
        spec = reg[hid]
        if len(sys.argv) > 5:
            from vp import harness
            harness.TOL = float(sys.argv[5])
        found = None
        tried = 0
        t0 = time.time()
        for s in range(int(n)):
            if time.time() - t0 > 150:
                break
            r, h = concrete_run(spec, {}, s)
            if r["result"] in ("ok", "violated"):
                tried += 1
            if r["result"] == "violated":
                found = {"values": h.used, "seed": s, **r}
                break
        json.dump({"found": found, "tried": tried}, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
