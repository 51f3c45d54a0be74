"""Runs harness cases against the really compiled package from the repository's current
tree (numba, bounds checks on).  JSON lines: {id, prop, harness, cfg, inputs, tries} ->
{id, status, failed}."""
import json
import os
import random
import sys
import traceback
import types
import warnings


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, repo)
    import importlib
    # the package's __init__ compiles everything: enter modules one by one instead
    pkg = types.ModuleType("wildwood")
    pkg.__path__ = [os.path.join(repo, "wildwood")]
    pkg.__file__ = os.path.join(repo, "wildwood", "__init__.py")
    sys.modules["wildwood"] = pkg
    from .world import RealWorld, Skip, harness_trouble
    prop = sys.argv[1]
    mod = importlib.import_module("vf.props." + prop.lower())
    hs = {h.name: h for h in mod.HARNESSES}
    for name in sys.argv[2:]:
        try:
            importlib.import_module(name)
        except Exception:
            traceback.print_exc()
    print(json.dumps({"ready": True}), file=out, flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        h = hs[req["harness"]]
        rng = random.Random(req.get("seed", 1))
        answer = {"id": req["id"], "status": "ok", "failed": []}
        tries = [(v, False) for v in req["inputs"]]
        tries += [(req["inputs"][0], True)] * req.get("perturb", 0)
        n = 0
        for vals, pert in tries:
            used = {}
            W = RealWorld(vals, rng, pert)
            if pert:
                orig = W.real

                def real(name, lo=-8, hi=8, f64=False, orig=orig, used=used):
                    used[name] = v = orig(name, lo, hi, f64)
                    return v
                W.real = real
                orig2 = W.exp_real

                def exp_real(name, step, orig2=orig2, used=used):
                    used[name] = v = orig2(name, step)
                    return v
                W.exp_real = exp_real
                orig3 = W.seed

                def seed(name, orig3=orig3, used=used):
                    used[name] = v = orig3(name)
                    return v
                W.seed = seed
            exc = None
            try:
                W.cfg = req["cfg"]
                h.run(W, req["cfg"])
            except Skip:
                answer["status"] = "skip" if answer["status"] == "ok" and not n \
                    else answer["status"]
                continue
            except Exception as ex:
                exc = "raises %s: %s" % (type(ex).__name__, ex)
                answer["trace"] = traceback.format_exc(limit=-6)
                if harness_trouble(ex):
                    answer["status"] = "skip"
                    answer["trouble"] = exc
                    break
            finally:
                W.restore()
            n += 1
            if exc or W.failed:
                answer["status"] = "fail"
                answer["failed"] = ([exc] if exc else []) + W.failed[:8]
                answer["inputs"] = {**vals, **{k: repr(v) for k, v in used.items()}}
                break
        if n and answer["status"] == "skip":
            answer["status"] = "ok"
        answer["runs"] = n
        print(json.dumps(answer, default=str), file=out, flush=True)


if __name__ == "__main__":
    main()
