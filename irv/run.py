"""Development driver: python3-vt -m irv.run SCRATCH [task...]"""
import sys, time, traceback
sys.setrecursionlimit(200000)
from . import build as BU, smt, terms as T
from .spec import Spec
from .tasks import TASKS
from .mem import Undecided


def show(name, spec, dl=300):
    f = TASKS[name].fn
    t = time.time()
    try:
        v = f(spec, time.time() + dl)
    except Undecided as e:
        print("%-45s UNDECIDED %s (%.1fs)" % (name, e, time.time() - t))
        if "-v" in sys.argv:
            traceback.print_exc()
        return
    bad = [g for g in v.goals if not g.ok]
    bo = [o for o in v.ex.obs if not o.ok]
    print("%-45s goals %d bad %d | obligations %d bad %d | panics %d | %.1fs" % (
        name, len(v.goals), len(bad), len(v.ex.obs), len(bo), len(v.ex.panics), time.time() - t))
    for g in bad[:6]:
        print("    GOAL", g.name, g.how, g.detail[:600])
    for o in bo[:6]:
        print("    OBL", o.kind, o.where, T.show(o.goal, 6)[:300])
    for n in v.ex.notes[:8]:
        print("    note", n)
    if "-v" in sys.argv:
        for l in v.ex.loops:
            print("    loop", l)


if __name__ == "__main__":
    std = "-n" not in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    t = time.time()
    b = BU.build(a[0], std)
    print("build %.1fs" % (time.time() - t))
    spec = Spec(b)
    names = [n for n in TASKS if not a[1:] or any(x in n for x in a[1:])]
    for n in names:
        show(n, spec)
