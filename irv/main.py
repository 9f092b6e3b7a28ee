import os
import sys

sys.setrecursionlimit(200000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import report
    return report.run(prop, tier, seed, "./check " + " ".join(sys.argv[1:]))


if __name__ == "__main__":
    sys.exit(main())
