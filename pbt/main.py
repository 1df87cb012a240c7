import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402,F401
from pbt import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.environ.setdefault("PBT_SCRATCH", "/tmp")
    import dg1d
    where = os.path.realpath(list(dg1d.__path__)[0])
    if where != os.path.join(boot.REPO, "dg1d"):
        sys.stderr.write("dg1d imported from %s, not %s\n" % (where, boot.REPO))
        return 2
    if a.replay:
        return core.replay(a.replay)
    return core.run_property(a.prop.upper(), a.tier, seed, a.only)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
