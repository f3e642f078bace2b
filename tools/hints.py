"""hints.py [module,module] [title-pattern]: regenerate /verif/hints from the current tree (untrusted, see pyvc/hints.py)."""
import sys, os, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contracts.world  # noqa: F401  (finds /repo/python)
from contracts import registry
from pyvc import hints
for name in (sys.argv[1].split(',') if len(sys.argv) > 1 else registry.MODULES):
    for i, c in enumerate(registry._module(name).contracts()):
        if len(sys.argv) > 2 and sys.argv[2] not in c.title():
            continue
        w, cs = registry._world(name)
        c = cs[i]
        c.hinted = False
        t = time.time()
        try:
            s = c.verify(w)
        except Exception as e:
            print(c.title(), e)
            continue
        first = time.time() - t
        if first < 5 or any(o.status != 'discharged' for o in s.obligations.values()):
            continue
        if not hints.save(s, c.title(), c.target):
            print('cannot be handed over:', c.title())
            continue
        w, cs = registry._world(name)
        c = cs[i]
        t = time.time()
        n = c.verify(w)
        print(c.title(), 'first', round(first, 1), 'hinted', getattr(n, 'hinted', None), round(time.time() - t, 1), len(s.obligations), len(n.obligations), sum(o.status != 'discharged' for o in n.obligations.values()), flush=True)
