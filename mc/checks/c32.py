"""C32 torn checkpoints."""
PROPERTY = "C32"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash-point and fault enumeration on the real recorder: the process doing the save is killed, or its write fails, after every possible number of bytes of the record, for every record kind and earlier content of the folder; then pairs of interrupted saves"
RULE = "one case per (record, earlier content, kind of interruption, byte); after each: the step raises or is bit for bit a saved state, the other steps are bit for bit what they were, a repeated save repairs; non-trivial = the record was left incomplete"
ASSUMPTIONS = ["the file system keeps the bytes written before the interruption, in order", "JAX CPU float64"]
NOTE = "the kill is a real process death at a file-size limit (SIGXFSZ) in the middle of the real save; the failing write is the same limit with the signal ignored (EFBIG)"
PARTS = 8
BOUNDS = {"quick": dict(bytes="every byte of every record (every 8th for the two combinations kill over an earlier record, failing write without one)", kinds=["killed", "failing write", "cut afterwards"], earlier=["absent", "older record of the same step"], pairs="every 1024th"),
          "thorough": dict(bytes="every byte of every record, three scenes", kinds=["killed", "failing write", "cut afterwards"], earlier=["absent", "older record of the same step"], pairs="every 128th")}
TASKS_PER_CHILD = 4


def tasks(tier):
    out = []
    scenes = (("usl_aflip", "mcc", 2),) if tier == "quick" else (("usl_aflip", "mcc", 2), ("usl", "dp", 3), ("usl", "newton", 2))
    for scheme, law, dim in scenes:
        for kind in ("killed", "failing", "cut"):
            for earlier in (False, True):
                if kind == "cut" and earlier:
                    continue
                for part in range(PARTS):
                    every = 1 if tier == "thorough" or kind == "cut" or (kind == "killed") != earlier else 8
                    out.append(("crash", dict(scheme=scheme, law=law, dim=dim, kind=kind, earlier=earlier, part=part, every=every)))
        for part in range(PARTS):
            out.append(("pairs", dict(scheme=scheme, law=law, dim=dim, part=part, every=1024 if tier == "quick" else 128)))
        out.append(("solver_record", dict(scheme=scheme, law=law, dim=dim, every=1 if tier == "thorough" else 4)))
        out.append(("refused", dict(scheme=scheme, law=law, dim=dim)))
    return out


class Folder:
    """A recorder folder with steps 0 and 2 saved, and two different states with step number 1."""

    def __init__(self, cfg):
        import tempfile, os
        from mc.env import jax, jnp, eqx, np
        from mc.checks import c31
        from hydraxmpm.common.sim_io import SimIO
        self.w = w = c31.World(cfg["scheme"], cfg["law"], cfg["dim"])
        self.s0, self.s1 = w.st0, w.state(("step",))
        self.s2 = w.state(("step", "step"))
        self.old = w.state(("change", "step"))
        self.lv = {k: c31.leaves(getattr(self, k), np) for k in ("s0", "s1", "s2", "old")}
        assert self.lv["old"] != self.lv["s1"] and int(self.s1.step) == int(self.old.step) == 1
        # the dying process must not need the compiler: plain numpy arrays, same bytes in the file
        host = lambda t: jax.tree_util.tree_map(lambda x: np.asarray(x) if eqx.is_array(x) else x, t)
        self.h1, self.hsolver = host(self.s1), host(w.solver)
        self.io = c31.quiet(SimIO, output_dir=w.out)
        self.quiet = c31.quiet
        self.quiet(self.io.save_solver, w.solver)
        self.quiet(self.io.save_step, self.s0); self.quiet(self.io.save_step, self.s2)
        from mc import guard
        self.clean = guard.snapshot(w.root)
        self.quiet(self.io.save_step, self.old)
        self.with_old = guard.snapshot(w.root)
        self.quiet(self.io.save_step, self.s1)
        self.full = guard.snapshot(w.root)
        self.files = sorted(p for p in self.full if self.full[p] != self.with_old.get(p, 0))
        self.size = max(len(self.full[p]) for p in self.files)
        guard.restore(w.root, self.clean)

    def start(self, earlier):
        from mc import guard
        guard.restore(self.w.root, self.with_old if earlier else self.clean)

    def load(self, n):
        from mc.env import np
        from mc.checks import c31
        from hydraxmpm.common.sim_io import load_simulation
        try:
            s, st = load_simulation(self.w.out, self.w.sk[0], self.w.sk[1], step=n)
        except Exception as e:
            return None
        return c31.leaves(st, np)

    def solver(self):
        from mc.env import np
        from mc.checks import c31
        from hydraxmpm.common.sim_io import load_simulation
        try:
            return c31.leaves(load_simulation(self.w.out, self.w.sk[0], self.w.sk[1], step=0)[0], np)
        except Exception as e:
            return None

    def killed(self, limit, what=None):
        """The save in a process that dies when it writes past `limit` bytes of a file -> True when it died."""
        import os, signal, resource, time
        for _ in range(3):
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    if what is None:
                        self.io.save_step(self.h1, verbose=False)
                    else:
                        what()
                    os._exit(0)
                except BaseException:
                    os._exit(3)
            t = time.time()
            while time.time() - t < 60:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    return not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0)
                time.sleep(0.0005)
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
        raise MemoryError("the forked save does not end")      # a harness problem, not a verdict

    def failing(self, limit, what=None):
        """The save with writes past `limit` bytes failing -> True when the save reported an error."""
        import resource, signal
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        prev = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        try:
            self.quiet(what) if what is not None else self.quiet(self.io.save_step, self.s1)
            return False
        except OSError:
            return True
        except Exception:
            return True
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, prev)

    def cut(self, limit):
        """A complete save whose file is afterwards cut."""
        import os
        self.quiet(self.io.save_step, self.s1)
        done = False
        for p in self.files:
            q = os.path.join(self.w.root, p)
            if os.path.getsize(q) > limit:
                os.truncate(q, limit); done = True
        return done

    def judge(self, rec, case, broke, earlier, others=True):
        got = self.load(1)
        saved = [self.lv["s1"]] + ([self.lv["old"]] if earlier else [])
        if got is not None and got not in saved:
            rec.fail("mixture", "an interrupted save is loaded as a state that was never saved", **case)
        # (a write cut at a byte can go unnoticed in numpy's own file handling: only a refused call must be reported)
        if case.get("name") and not broke and got != self.lv["s1"]:
            rec.fail("silent", "a save that did not complete reported no error", **case)
        if not others:      # the files of the other steps untouched: nothing to load
            from mc import guard
            now = guard.snapshot(self.w.root)
            if all(now.get(p) == b for p, b in self.clean.items()):
                return
        for n, k in ((0, "s0"), (2, "s2")):
            if self.load(n) != self.lv[k]:
                rec.fail("others", "an interrupted save damages another step", other=n, **case)

    def repair(self, rec, case):
        try:
            self.quiet(self.io.save_step, self.s1)
            ok = self.load(1) == self.lv["s1"] and self.load(0) == self.lv["s0"] and self.load(2) == self.lv["s2"]
        except Exception as e:
            ok = False; case = dict(case, error=repr(e)[:300])
        if not ok:
            rec.fail("repair", "repeating the save does not repair the record", **case)

    def close(self):
        import shutil
        shutil.rmtree(self.w.root, ignore_errors=True)


def crash(cfg, rec):
    from mc import guard
    f = Folder(cfg)
    try:
        with guard.contained(f.w.root):
            f.repair(rec, dict(at="warm up"))
            for n in range(cfg["part"], f.size + 1, PARTS):
                if n // PARTS % cfg["every"] and n < f.size - 32:
                    continue
                f.start(cfg["earlier"])
                broke = getattr(f, cfg["kind"])(n)
                case = dict(byte=n, of=f.size, kind=cfg["kind"], earlier=cfg["earlier"])
                if cfg["kind"] == "cut" and not broke and n < f.size:
                    raise AssertionError("nothing was cut")
                f.judge(rec, case, broke, cfg["earlier"], n // PARTS % 8 == 0)
                if n % 16 == cfg["part"] or n > f.size - 64:
                    f.repair(rec, case)
                rec.count(states=1, transitions=3, traces=3, evals=1, distinct=bool(broke))
        rec.sample(bytes=f.size, files=f.files)
    finally:
        f.close()


def pairs(cfg, rec):
    """Two interrupted saves after another, the second of the same or of another kind, then a good one."""
    from mc import guard
    f = Folder(cfg)
    try:
        with guard.contained(f.w.root):
            f.repair(rec, dict(at="warm up"))
            cuts = sorted(set(list(range(0, f.size + 1, cfg["every"])) + [1, f.size - 1]))
            for i, a in enumerate(cuts):
                if i % PARTS != cfg["part"]:
                    continue
                for earlier in (False, True):
                    f.start(earlier)
                    f.killed(a)
                    snap = guard.snapshot(f.w.root)
                    for kind in ("killed", "failing"):
                        for b in cuts:
                            guard.restore(f.w.root, snap)
                            broke = getattr(f, kind)(b)
                            case = dict(first=a, second=b, of=f.size, kind=kind, earlier=earlier)
                            f.judge(rec, case, broke, earlier)
                            f.repair(rec, case)
                            rec.count(states=1, transitions=4, traces=6, evals=1, distinct=1)
        rec.sample(cuts=len(cuts))
    finally:
        f.close()


def solver_record(cfg, rec):
    """The record of the solver: torn at every byte."""
    import os
    from mc import guard
    from mc.env import np
    from mc.checks import c31
    f = Folder(cfg)
    try:
        with guard.contained(f.w.root):
            want = c31.leaves(f.w.solver, np)
            f.start(False)
            size = max(len(v) for p, v in f.clean.items() if v is not None and "solver" in os.path.basename(p))
            for kind in ("killed", "failing"):
                for n in range(size + 1):
                    if kind == "killed" and n % cfg["every"] and n < size - 16:
                        continue
                    f.start(False)
                    what = (lambda: f.io.save_solver(f.hsolver)) if kind == "killed" else (lambda: f.io.save_solver(f.w.solver))
                    broke = getattr(f, kind)(n, what)
                    got = f.solver()
                    case = dict(byte=n, of=size, kind=kind)
                    if got is not None and got != want:
                        rec.fail("solver_mixture", "an interrupted save of the solver is loaded as another solver", **case)
                    now = guard.snapshot(f.w.root)
                    for p in f.clean:
                        if "state_" in p and now.get(p) != f.clean[p]:
                            rec.fail("solver_others", "an interrupted save of the solver damages a step", file=p, **case)
                    if n % 16 == 0 or n == size:
                        f.quiet(f.io.save_solver, f.w.solver)
                        if f.solver() != want:
                            rec.fail("solver_repair", "repeating the save of the solver does not repair it", **case)
                    rec.count(states=1, transitions=2, traces=1, evals=1, distinct=bool(broke))
            rec.sample(bytes=size)
    finally:
        f.close()


def refused(cfg, rec):
    """Every call of a save that opens, renames or replaces a file is refused once (disk full, no permission)."""
    import os, io as _io, builtins, errno
    from mc import guard
    f = Folder(cfg)
    names = ((builtins, "open"), (_io, "open"), (os, "open"), (os, "replace"), (os, "rename"), (os, "fsync"), (os, "truncate"))
    try:
        for earlier in (False, True):
            for err in (errno.ENOSPC, errno.EACCES, errno.EIO):
                k = 0
                while k < 40:
                    f.start(earlier)
                    n, hit = [0], [None]
                    orig = [getattr(m, a) for m, a in names]

                    def wrap(g, name):
                        def h(*a, **kw):
                            p = a[0] if a else kw.get("file")
                            mode = a[1] if len(a) > 1 else kw.get("mode", "r")
                            mine = isinstance(p, int) or str(p).startswith(f.w.root)
                            writes = name != "open" or not isinstance(mode, str) or any(c in mode for c in "wax+")
                            if mine and writes and not (name == "open" and isinstance(p, int)):
                                n[0] += 1
                                if n[0] == k + 1:
                                    hit[0] = name
                                    raise OSError(err, os.strerror(err), str(p))
                            return g(*a, **kw)
                        return h
                    for (m, a), g in zip(names, orig):
                        setattr(m, a, wrap(g, a))
                    try:
                        f.quiet(f.io.save_step, f.s1); raised = False
                    except Exception:
                        raised = True
                    finally:
                        for (m, a), g in zip(names, orig):
                            setattr(m, a, g)
                    case = dict(call=k, name=hit[0], error=errno.errorcode[err], earlier=earlier)
                    f.judge(rec, case, raised, earlier)
                    f.repair(rec, case)
                    rec.count(states=1, transitions=2, traces=5, evals=1, distinct=bool(hit[0]))
                    if hit[0] is None:
                        break
                    k += 1
        rec.sample(calls=k)
    finally:
        f.close()
