import os, sys
if __name__ == "__main__":
    from mc import core
    a = sys.argv[1:]
    if a[0] == "--replay":
        sys.exit(core.replay(a[1]))
    pid = a[0].lower()
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.run_check("mc.checks." + pid, tier))
