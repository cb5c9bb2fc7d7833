"""Keeps destructive file operations of the code under test inside one scratch directory."""
import os, shutil, contextlib, builtins


@contextlib.contextmanager
def contained(scratch):
    scratch = os.path.realpath(scratch) + os.sep
    cache = os.environ.get("JAX_COMPILATION_CACHE_DIR")     # the compiler's own files, not the package's
    cache = os.path.realpath(cache) + os.sep if cache else None
    inside = lambda p: (cache is not None and os.path.realpath(os.fspath(p)).startswith(cache)) or inside_(p)
    inside_ = lambda p: (os.path.realpath(os.fspath(p)) + os.sep).startswith(scratch) and os.path.realpath(os.fspath(p)) + os.sep != scratch
    depth = [0]
    escaped = []
    orig = {}

    def check(p, kw):
        if kw.get("dir_fd") is not None or kw.get("src_dir_fd") is not None:
            if depth[0]:
                return          # inside a checked rmtree
        elif isinstance(p, int) or inside(p):
            return
        escaped.append(repr(p))
        raise PermissionError("outside the scratch directory: %r" % (p,))

    def guard(mod, name, npaths):
        f = orig[mod, name] = getattr(mod, name)

        def g(*a, **kw):
            for p in a[:npaths]:
                check(p, kw)
            if mod is shutil:
                depth[0] += 1
                try:
                    return f(*a, **kw)
                finally:
                    depth[0] -= 1
            return f(*a, **kw)
        g.__dict__.update(getattr(f, "__dict__", {}))
        setattr(mod, name, g)

    for mod, name, k in ((os, "remove", 1), (os, "unlink", 1), (os, "rmdir", 1), (os, "rename", 2), (os, "replace", 2), (os, "truncate", 1),
                         (os, "removedirs", 1), (os, "symlink", 2), (os, "link", 2), (os, "chmod", 1), (shutil, "rmtree", 1), (shutil, "move", 2)):
        guard(mod, name, k)
    for name in ("system", "popen"):
        orig[os, name] = getattr(os, name)

        def refuse(*a, _n=name, **k):
            escaped.append(_n); raise PermissionError("os.%s while contained" % _n)
        setattr(os, name, refuse)
    oopen = builtins.open

    def gopen(file, mode="r", *a, **k):
        if not isinstance(file, int) and any(c in mode for c in "wax+"):
            q = os.path.realpath(os.fspath(file))
            if not (q + os.sep).startswith(scratch) and not q.startswith(("/tmp/", "/dev/", os.environ.get("TMPDIR", "/tmp") + "/")):
                escaped.append(repr(file)); raise PermissionError("outside the scratch directory: %r" % (file,))
        return oopen(file, mode, *a, **k)
    builtins.open = gopen
    try:
        yield escaped
    finally:
        builtins.open = oopen
        for (mod, name), f in orig.items():
            setattr(mod, name, f)


def snapshot(root):
    """{relative path: bytes or None (directory)}"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in fs:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.relpath(os.path.join(d, n), root)] = f.read()
    return out


def restore(root, snap):
    now = snapshot(root)
    if now == snap:
        return
    for p in sorted(now, key=len, reverse=True):
        if p not in snap or (snap[p] is None) != (now[p] is None):
            q = os.path.join(root, p)
            (os.rmdir if now[p] is None else os.unlink)(q)
    for p in sorted(snap, key=len):
        q = os.path.join(root, p)
        if snap[p] is None:
            os.makedirs(q, exist_ok=True)
        elif now.get(p) != snap[p]:
            with open(q, "wb") as f:
                f.write(snap[p])
