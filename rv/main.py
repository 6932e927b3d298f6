import os
import sys


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    only, jobs = None, None
    args = sys.argv[2:]
    rp = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--only":
            only = args.pop(0).split(",")
        elif a == "--jobs":
            jobs = int(args.pop(0))
        elif a == "--replay":
            rp = args.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    repo = os.environ.get("RV_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from rv import env
    env.prepare()
    from rv import core
    import resippy
    where = os.path.dirname(os.path.abspath(resippy.__file__))
    if where != os.path.join(os.path.realpath(repo), "resippy") and where != os.path.join(repo, "resippy"):
        print("CHECK-ERROR resippy imported from %s" % where)
        return 2
    mod = prop.lower()
    if rp:
        return core.replay(mod, rp)
    return core.run_property(mod, tier, seed, jobs=jobs, only=only)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
