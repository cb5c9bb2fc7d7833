"""Bounded-exhaustive checking harness.

A check module (mc/checks/cNN.py) provides

    PROPERTY  the property id
    LEVEL     evidence level ("model_checking", "fault_enumeration", ...)
    RULE      how cases are made / what is nontrivial (for the evidence)
    ASSUMPTIONS list of strings
    def tasks(tier) -> list of (function_name, cfg)         cfg: JSON-able dict
    def <function_name>(cfg, rec)                           runs in a worker

A task function enumerates its whole (finite) space and reports through `rec`.
Enumeration is deterministic, so a replay file is (function, cfg, key) and replaying is
running that one task again and looking for the same key.
"""
import os, sys, json, time, traceback, importlib, hashlib, shutil, tempfile
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL_PER_TASK = 5


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if hasattr(x, "tolist"):
        return jsonable(np.asarray(x).tolist())
    return repr(x)


class Rec:
    """What one task explored."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0          # traces / results compared against an independent model
        self.evals = 0
        self.distinct = 0
        self.obs = set()         # distinct observed outcomes (hashes)
        self.samples = []
        self.viol = []
        self.counters = {}
        self.nviol = 0

    def count(self, states=0, transitions=0, traces=0, evals=0, distinct=0, **kw):
        self.states += int(states); self.transitions += int(transitions)
        self.traces += int(traces); self.evals += int(evals); self.distinct += int(distinct)
        for k, v in kw.items():
            self.counters[k] = self.counters.get(k, 0) + int(v)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def fail(self, key, what, **details):
        """A violation; `key` must be stable and identify the failing input/site."""
        self.nviol += 1
        if any(v["key"] == key for v in self.viol):
            return
        if len(self.viol) < MAX_VIOL_PER_TASK:
            self.viol.append(dict(key=key, what=what, details=jsonable(details)))

    def close(self, key, what, got, exp, atol, rtol=0.0, case=None, axis0=True, mask=None):
        """Array comparison over a batch (axis 0); reports the first failing case.
        `case(i)` describes batch entry i.  Returns True when all agree."""
        import numpy as np
        got = np.asarray(got, dtype=float); exp = np.asarray(exp, dtype=float)
        if got.shape != exp.shape:
            try:
                exp = np.broadcast_to(exp, got.shape)
            except ValueError:
                self.fail(key, what + ": shape %s != %s" % (got.shape, exp.shape))
                return False
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - exp) <= atol + rtol * np.abs(exp))
        return self._bad(key, what, bad, got, exp, case, mask)

    def true(self, key, what, ok, got=None, case=None, mask=None):
        import numpy as np
        ok = np.asarray(ok)
        return self._bad(key, what, ~ok, got if got is not None else ok, None, case, mask)

    def _bad(self, key, what, bad, got, exp, case, mask):
        import numpy as np
        bad = np.asarray(bad)
        if mask is not None:
            m = np.asarray(mask)
            bad = bad & m.reshape(m.shape + (1,) * (bad.ndim - m.ndim))
        if not bad.any():
            return True
        if bad.ndim == 0:
            self.fail(key, what, got=got, expected=exp, case=case(0) if callable(case) else case)
            return False
        rows = bad.reshape(bad.shape[0], -1).any(axis=1)
        i = int(np.argmax(rows))
        g = np.asarray(got); e = None if exp is None else np.asarray(exp)
        self.fail(key, what, case=case(i) if callable(case) else case, index=i,
                  failing=int(rows.sum()), of=int(rows.size),
                  got=g[i] if g.ndim and g.shape[0] == rows.size else None,
                  expected=None if e is None else (e[i] if e.ndim and e.shape[0] == rows.size else None))
        return False

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    evals=self.evals, distinct=self.distinct, samples=self.samples,
                    viol=self.viol, nviol=self.nviol, counters=self.counters)


def _worker(job):
    modname, fname, cfg = job
    rec = Rec()
    t0 = time.time()
    try:
        try:
            mod = importlib.import_module(modname)
            fn = getattr(mod, fname)
            import mc.env  # noqa: configures jax, imports hydraxmpm
        except BaseException as e:
            tb = traceback.format_exc()
            if "/repo/" in tb or "hydraxmpm" in tb:
                rec.fail("exception:import", "the package cannot be imported: %r" % (e,), traceback=tb[-3000:])
                return dict(rec.dump(), fn=fname, cfg=cfg, wall=time.time() - t0)
            raise
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):  # the laws print
            fn(cfg, rec)
            import jax; jax.effects_barrier()
    except MemoryError:
        return dict(error="MemoryError in %s %s" % (fname, cfg))
    except Exception as e:
        tb = traceback.format_exc()
        rec.fail("exception:%s" % type(e).__name__, "the code raised %s: %s" % (type(e).__name__, " ".join(str(e).split())[:300]),
                 traceback=tb[-4000:])
    return dict(rec.dump(), fn=fname, cfg=cfg, wall=time.time() - t0)


def known_findings(pid):
    """KNOWN_FINDINGS.txt lines: `known: property=C05 fn=<fn> key=<key> cfg=<k=v,..|*> :: text`"""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, text = line[len("known:"):].partition("::")
            kv = dict(t.split("=", 1) for t in head.split())
            if kv.get("property") == pid:
                out.append(dict(fn=kv.get("fn"), key=kv.get("key"), cfg=kv.get("cfg", "*"), text=text.strip(), line=line))
    return out


def cfg_matches(pattern, cfg):
    if pattern in (None, "*"):
        return True
    for item in pattern.split(","):
        k, v = item.split(":", 1)
        if str(cfg.get(k)) != v:
            return False
    return True


def run_check(modname, tier):
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.PROPERTY
    jobs = [(modname, fn, cfg) for fn, cfg in mod.tasks(tier)]
    nproc = int(os.environ.get("MC_PROCS", "8"))
    hard = float(os.environ.get("MC_HARD_LIMIT", "820" if tier == "quick" else "86400"))
    results, errors = [], []
    if getattr(mod, "FAST_COMPILE", False):  # many small programs: compile time dominates
        os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + " --xla_backend_optimization_level=0"
    cache = None
    if not os.environ.get("JAX_COMPILATION_CACHE_DIR"):   # workers share what they compile; removed at the end
        cache = tempfile.mkdtemp(prefix="mc_xla_")
        os.environ["JAX_COMPILATION_CACHE_DIR"] = cache
    os.environ["JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS"] = "0"
    os.environ["JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES"] = "-1"
    ctx = mp.get_context("spawn")
    with ctx.Pool(min(nproc, max(1, len(jobs))), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 12)) as pool:
        pend = [(j, pool.apply_async(_worker, (j,))) for j in jobs]
        for j, r in pend:
            left = hard - (time.time() - t0)
            try:
                results.append(r.get(timeout=max(1.0, left)))
            except mp.TimeoutError:
                rec = Rec()
                rec.fail("hang", "the task did not finish within %.0f s" % hard)
                results.append(dict(rec.dump(), fn=j[1], cfg=j[2], wall=time.time() - t0))
            except Exception as e:
                errors.append("%s %s: %r" % (j[1], j[2], e))
        pool.terminate()
        pool.join()
    if cache:
        shutil.rmtree(cache, ignore_errors=True)
    errors += [r["error"] for r in results if "error" in r]
    results = [r for r in results if "error" not in r]

    known = known_findings(pid)
    seen_known, new = {}, []
    for r in results:
        for v in r["viol"]:
            k = next((k for k in known if k["fn"] in (None, "*", r["fn"]) and k["key"] == v["key"]
                      and cfg_matches(k["cfg"], r["cfg"])), None)
            if k is not None:
                seen_known.setdefault(k["line"], k)
            else:
                new.append((r, v))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for r, v in new[:20]:
        body = dict(property=pid, module=modname, function=r["fn"], cfg=r["cfg"], key=v["key"],
                    what=v["what"], details=v["details"],
                    how_to_replay="cd /verif && ./check.sh --replay <this file>")
        h = hashlib.sha1(json.dumps([r["fn"], r["cfg"], v["key"]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s %s] key=%s" % (v["what"], r["fn"], json.dumps(r["cfg"])[:200], v["key"]))

    tot = lambda k: sum(r[k] for r in results)
    samples, counters = [], {}
    for r in results:
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(dict(task=r["fn"], cfg=r["cfg"], case=s))
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    cov = dict(states=tot("states"), transitions=tot("transitions"),
               traces_validated_against_impl=tot("traces"),
               evaluations=tot("evals") or tot("transitions"), distinct_nontrivial=tot("distinct") or tot("states"),
               rule=mod.RULE, samples=samples, exhaustive=not errors, tasks=len(jobs),
               bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})), counters=counters,
               slowest_tasks=[(r["fn"], r["cfg"], round(r["wall"], 1)) for r in sorted(results, key=lambda r: -r["wall"])[:3]])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=mod.LEVEL, coverage=jsonable(cov),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(new), known_findings=len(seen_known))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s tasks=%d states=%d transitions=%d validated=%d violations=%d wall=%.1fs" % (
        pid, tier, len(jobs), cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(new), time.time() - t0))
    for e in errors:
        print("ERROR " + e)
    if new:
        return 1
    return 2 if errors else 0


def replay(path):
    b = json.load(open(path))
    r = _worker((b["module"], b["function"], b["cfg"]))
    hit = [v for v in r.get("viol", []) if v["key"] == b["key"]]
    if hit:
        print(json.dumps(hit[0], indent=1))
        print("VIOLATION property=%s replay=%s" % (b["property"], path))
        return 1
    print("not reproduced: task ran with %d violations" % len(r.get("viol", [])))
    return 0
