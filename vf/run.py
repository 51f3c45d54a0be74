"""python -m vf.run <PROPERTY>: decide one property; see DESIGN.md."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import multiprocessing as mp
import threading
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUDGET = float(os.environ.get("VERIF_BUDGET", "420" if TIER == "quick" else "5400"))
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))


class Real:
    """The worker holding the compiled package (started early: compiling takes a while)."""

    def __init__(self, prop, modules):
        self.tmp = tempfile.mkdtemp(prefix="vfreal")
        env = dict(os.environ, NUMBA_CACHE_DIR=self.tmp, NUMBA_BOUNDSCHECK="1",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   MPLBACKEND="agg", NUMBA_NUM_THREADS="2")
        env.pop("NUMBA_DISABLE_JIT", None)
        self.err = open(os.path.join(self.tmp, "err"), "w+")
        self.p = subprocess.Popen([sys.executable, "-m", "vf.realworker", prop] + modules,
                                  cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True)
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._pump, daemon=True)
        self.t.start()
        self.ready = False
        self.n = 0

    def _pump(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def _read(self, timeout):
        try:
            line = self.q.get(timeout=max(1, timeout))
        except queue.Empty:
            return None
        return json.loads(line) if line else None

    def ask(self, req, timeout=300):
        if not self.ready:
            a = self._read(timeout + 300)
            if not a or not a.get("ready"):
                return None
            self.ready = True
        self.n += 1
        req["id"] = self.n
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except OSError:
            return None
        return self._read(timeout)

    def stderr(self):
        self.err.flush()
        with open(self.err.name) as f:
            return f.read()[-2000:]

    def close(self):
        self.p.kill()
        self.p.wait()
        self.err.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


def _child(conn, h, cfg, deadline):
    from . import harness
    import signal
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        r = harness.run_config(h, cfg, SEED, deadline)
    except BaseException as ex:  # noqa: B036
        import traceback
        r = dict(harness=h.name, cfg=cfg, cex=[], witnesses=[], complete=False, checks=0,
                 discharged=0, unknown=0, nontrivial=0, stats={}, wall_s=0,
                 inconclusive=["engine error: %r %s" % (ex, traceback.format_exc(limit=-4))])
    conn.send(r)
    conn.close()
    os._exit(0)


def run_all(tasks, hard_deadline, on_result):
    """tasks: [(harness, cfg, budget_s)]; forked, NPROC at a time, killed when late."""
    ctx = mp.get_context("fork")
    pending = list(tasks)
    running = []
    while pending or running:
        now = time.time()
        while pending and len(running) < NPROC and now < hard_deadline:
            h, cfg, b = pending.pop(0)
            rc, wc = ctx.Pipe(duplex=False)
            dl = min(now + b, hard_deadline)
            p = ctx.Process(target=_child, args=(wc, h, cfg, dl))
            p.start()
            wc.close()
            running.append((p, rc, h, cfg, dl))
        if now >= hard_deadline and not running:
            break
        mp.connection.wait([r[1] for r in running], timeout=1.0)
        still = []
        for p, rc, h, cfg, dl in running:
            got = None
            if rc.poll():
                try:
                    got = rc.recv()
                except EOFError:
                    got = "died"
            elif time.time() > dl + 30 or (not p.is_alive() and not rc.poll()):
                got = "died"
            if got is None:
                still.append((p, rc, h, cfg, dl))
                continue
            if got == "died":
                p.kill()
                got = dict(harness=h.name, cfg=cfg, cex=[], witnesses=[], complete=False,
                           checks=0, discharged=0, unknown=0, nontrivial=0, stats={},
                           wall_s=0, inconclusive=["worker ended without an answer"])
            p.join()
            on_result(h, got)
        running = still
    for h, cfg, b in pending:
        on_result(h, dict(harness=h.name, cfg=cfg, cex=[], witnesses=[], complete=False,
                          checks=0, discharged=0, unknown=0, nontrivial=0, stats={},
                          wall_s=0, inconclusive=["not started: time budget"]))


def load_known(prop):
    f = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") != "fixed":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    only = sys.argv[2:] or None
    t0 = time.time()
    mod = importlib.import_module("vf.props." + prop.lower())
    hs = mod.HARNESSES if not only else [h for h in mod.HARNESSES if h.name in only]
    mods = sorted({m for h in hs for m in h.modules})
    real = Real(prop, mods) if any(h.real for h in hs) else None
    known = load_known(prop)
    results, inconclusive, violations, known_hit = [], [], [], []
    validated = [0, 0]
    fatal = None
    finder = None
    try:
        from . import loader
        finder = loader.load()
        for m in mods:
            importlib.import_module(m)
    except BaseException as ex:  # noqa: B036
        import traceback
        fatal = "cannot load the source symbolically: %r" % (ex,)
        traceback.print_exc()
    todo = []
    if fatal is None:
        tasks = []
        for h in hs:
            for cfg in h.configs(TIER):
                tasks.append((h, cfg, h.budget or BUDGET))

        def on_result(h, r):
            results.append(r)
            for m in r["inconclusive"]:
                inconclusive.append("%s %s: %s" % (h.name, r["cfg"], m))
            todo.append((h, r))
        run_all(tasks, t0 + BUDGET, on_result)
    # replay of counterexamples, then validation of the encoding on path witnesses
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []

    def verdict(h, r, a, label, kind):
        rec = dict(property=prop, harness=h.name, cfg=r["cfg"], inputs=a["inputs"],
                   label=label, failed=a["failed"], kind=kind, trace=a.get("trace"))
        for k in known:
            if k.get("harness") == h.name and k.get("match", "") in " ".join(a["failed"]):
                known_hit.append(k)
                return
        violations.append(rec)

    for h, r in todo:
        for c in r["cex"]:
            a = real.ask(dict(harness=h.name, cfg=r["cfg"], seed=SEED,
                              inputs=[c["inputs"]] + c.get("alt", []), perturb=40)) \
                if h.real and real else None
            if a is None:
                inconclusive.append("%s %s: replay gave no answer for %s %s" % (
                    h.name, r["cfg"], c["label"], real.stderr() if real else ""))
            elif a["status"] == "fail":
                verdict(h, r, a, c["label"], "counterexample")
                if violations:
                    break
            else:
                inconclusive.append("%s %s: %s did not reproduce (inputs %s)%s" % (
                    h.name, r["cfg"], c["label"], json.dumps(c["inputs"]),
                    "\n" + c["trace"] if c.get("trace") else ""))
        if len(violations) >= 3:
            break
    if not violations and real and fatal is None:
        order = sorted(todo, key=lambda x: x[0].name)
        limit = time.time() + (90 if TIER == "quick" else 600)
        for k in range(3):
            for h, r in order:
                if k < len(r["witnesses"]) and time.time() < limit:
                    w = r["witnesses"][k]
                    a = real.ask(dict(harness=h.name, cfg=r["cfg"], inputs=[w], seed=SEED))
                    if a is None:
                        inconclusive.append("witness run gave no answer: " + real.stderr())
                        limit = 0
                    elif a["status"] == "fail":
                        verdict(h, r, a, "path witness", "witness")
                        if violations:
                            limit = 0
                    elif a["status"] == "ok":
                        validated[0] += 1
                        if len(samples) < 3:
                            samples.append(dict(harness=h.name, cfg=r["cfg"], inputs=w))
                    else:
                        validated[1] += 1
    if real:
        real.close()
    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    checks = sum(r["checks"] for r in results)
    disc = sum(r["discharged"] for r in results)
    per = {}
    for h in hs:
        rs = [r for r in results if r["harness"] == h.name]
        per[h.name] = dict(
            bounds=h.bounds, functions=h.functions, stubs=h.stubs, configurations=len(rs),
            configurations_complete=sum(bool(r["complete"]) for r in rs),
            paths=sum(r.get("stats", {}).get("paths", 0) for r in rs),
            queries=sum(r.get("stats", {}).get("queries", 0) for r in rs),
            obligations=sum(r["checks"] for r in rs),
            nontrivial=sum(r["nontrivial"] for r in rs),
            discharged=sum(r["discharged"] for r in rs),
            unknown=sum(r["unknown"] for r in rs),
            reached=any(r["witnesses"] for r in rs) or not h.real)
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level="other",
        coverage=dict(
            explanation="Bounded symbolic execution of the repository's own source, "
            "re-read on this run: every path of every listed harness configuration, each "
            "obligation decided by z3 over all values within the stated bounds; "
            "counterexamples and sampled path witnesses are run on the compiled package.",
            harnesses=per, paths=tot.get("paths", 0), queries=tot.get("queries", 0),
            branches=tot.get("branches", 0), solver_s=tot.get("solver_s", 0.0),
            obligations=checks, discharged=disc,
            exhaustive=bool(results) and all(r["complete"] for r in results),
            witnesses_agreeing_with_compiled_code=validated[0],
            witnesses_outside_float_assumptions=validated[1],
            samples=samples or [dict(note="no witness was run")],
            inconclusive=inconclusive[:20],
            source_functions_loaded={k: len(v) for k, v in finder.functions.items()}
            if finder else {}),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "floating-point arithmetic is modelled as real arithmetic in the solver",
            "machine integers wrap at typed stores and casts; intermediate integer sums "
            "are mathematical",
            "the numpy/math/numba stand-ins in vf/shim.py (validated by the witnesses)"],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("VERIF_DEBUG"):
        for r in sorted(results, key=lambda r: -r["wall_s"]):
            print(r["harness"], r["cfg"], r["wall_s"], r["stats"], r["complete"],
                  len(r["cex"]))
    for m in inconclusive[:12]:
        print("INCONCLUSIVE:", m)
    if fatal:
        print("INCONCLUSIVE:", fatal)
    seenk = set()
    for k in known_hit:
        if k["what"] not in seenk:
            seenk.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d harness configurations (%d complete), %d paths, %d queries, "
          "%d/%d obligations discharged, solver %.1fs, %d witnesses on compiled code, "
          "%.1fs" % (prop, TIER, len(results), sum(bool(r["complete"]) for r in results),
                     tot.get("paths", 0), tot.get("queries", 0), disc, checks,
                     tot.get("solver_s", 0.0), validated[0], time.time() - t0))
    if violations:
        for i, v in enumerate(violations[:3]):
            path = os.path.join(HERE, "evidence", "%s.replay%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("  %s %s: %s" % (v["harness"], v["cfg"], "; ".join(v["failed"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if fatal or not results or (checks == 0):
        sys.exit(0 if os.environ.get("VERIF_LAX") else 2)
    sys.exit(0)


if __name__ == "__main__":
    main()
