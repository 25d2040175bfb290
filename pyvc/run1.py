"""debugging aid: verify one contract.   python3-vt -m pyvc.run1 contracts.order EstAdj [case]"""
import importlib
import sys

from .loader import Program
from .verify import verify

if __name__ == "__main__":
    mod = importlib.import_module(sys.argv[1])
    sys.setrecursionlimit(20000)
    prog = Program()
    table = {c.qual: c for c in mod.CONTRACTS if c.usable()}
    args = [a for a in sys.argv if a != "-v"]
    for c in mod.CONTRACTS:
        if getattr(c, "trusted", False):
            continue
        if len(args) > 2 and type(c).__name__ != args[2]:
            continue
        for case in c.cases:
            if len(args) > 3 and args[3] not in case:
                continue
            t = {q: k for q, k in table.items() if k is not c}
            r = verify(prog, c, case, t, debug=True)
            print("==", c.qual, "|", case, "|", r.status, r.reason, f"{r.time:.1f}s paths={r.paths} q={r.queries}")
            for o in r.obls:
                print("  ", o.status, o.backend, o.time, o.name)
                if o.status != "proved":
                    print("      ", o.detail[:700])
            if "-v" in sys.argv:
                for ln, names in r.loops:
                    print("   loop", ln, names)
                for ln, names in r.dropped:
                    print("   dropped", ln, names)
                print("   inlined", sorted(r.inlined))
                print("   assume", sorted(r.assumptions))
