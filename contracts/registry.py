"""Which contracts decide which property, and running them."""
import importlib
import multiprocessing as mp
import os
import time
from .levels import META  # noqa: F401

MODULES = ('missing', 'elements', 'queries', 'values', 'selecting', 'messages', 'plurals', 'touching', 'instantiate', 'contents', 'analyzing', 'resolving', 'registering', 'entering', 'looking', 'reporting')

TRUSTED = ['pyvc (the verification-condition generator for Python, /verif/pyvc: its semantics of the interpreted subset)',
           'z3 5.3.2 (python3-vt), cvc5 1.1.2 for what z3 leaves open',
           'CPython\'s ast/inspect (the verified text is the source of the imported /repo modules, read on every run)']

BUDGET = {'quick': 560, 'thorough': 800}


def _module(name):
    return importlib.import_module('contracts.' + name)


def _world(name):
    from . import world, elements
    w = world.base_world()
    m = _module(name)
    if hasattr(m, 'world') and callable(m.world):
        w = m.world(w)
    cs = m.contracts()
    for c in list(getattr(m, 'uses', elements.assumed)()) + cs:
        w.register(c)
    return w, cs


def _job(arg):
    name, i, prop, tier = arg
    from pyvc.terms import Unsupported
    t = time.time()
    try:
        w, cs = _world(name)
        c = cs[i]
        c.only, c.hinted = c.concerns.get(prop), tier != 'thorough'
        out = dict(title=c.title(), target=c.target, module=name, props=list(c.props), concerns=dict(c.concerns), obligations=[], error=None, used=[], assumed=[], solver_s=0.0, outcomes={}, messages=[])
        s = c.verify(w)
        if any(o.status != 'discharged' for o in s.obligations.values()) and time.time() - t < 100:
            # once more from the beginning, in case a hint misled or a solver ran out of time on a busy machine
            c.hinted = False
            again = c.verify(w)
            if sum(o.status != 'discharged' for o in again.obligations.values()) < sum(o.status != 'discharged' for o in s.obligations.values()):
                s = again
        for o in s.obligations.values():
            out['obligations'].append(o.as_dict() if o.status != 'discharged' else dict(name=o.name, status=o.status, back_end=o.back_end))
        out.update(used=sorted(s.used), assumed=sorted(s.assumed), solver_s=s.solver_s, outcomes=s.outcomes, messages=sorted(getattr(s, 'messages', ())))
        if not s.reach or not (s.obligations or c.only) or getattr(s, 'vacuous', False):
            out['error'] = 'no path reaches the end of the function'
    except Unsupported as e:
        out['error'] = f'outside the verifier\'s reach: {e}'
        out['obligations'] = []
    except RecursionError:
        out['error'], out['obligations'] = 'outside the verifier\'s reach: recursion', []
    except Exception as e:
        out = dict(title=f'{name}[{i}]', target=None, module=name, props=[], concerns={}, obligations=[], used=[], solver_s=0.0, outcomes={}, messages=[], error=f'verifier: {type(e).__name__}: {str(e)[:300]}') if 'out' not in locals() else {**out, 'obligations': [], 'error': f'verifier: {type(e).__name__}: {str(e)[:300]}'}
    out['wall'] = time.time() - t
    return out


def plan(prop):
    out, broken = [], []
    for name in MODULES:
        try:
            cs = _module(name).contracts()
        except Exception as e:
            broken.append(f'{name}: {type(e).__name__}: {e}')
            continue
        out += [(name, i) for i, c in enumerate(cs) if prop is None or prop in c.props]
    return out, broken


def verify(prop, tier):
    """All obligations of the contracts that carry a property, from the current source."""
    start = time.time()
    jobs, broken = plan(prop)
    res = dict(obligations=[], functions=[], back_ends={}, solver_s=0.0, bounded=list(broken), assumptions=[])
    used, assumed = set(), set()
    done = 0
    if jobs:
        with mp.Pool(min(os.cpu_count() or 1, 8, len(jobs))) as pool:
            it = pool.imap_unordered(_job, [(*j, prop, tier) for j in jobs], chunksize=1)
            while done < len(jobs):
                left = BUDGET[tier] - (time.time() - start)
                try:
                    r = it.next(timeout=max(left, 0.1))
                except mp.TimeoutError:
                    res['bounded'].append(f'{len(jobs) - done} functions were not verified within the time budget')
                    break
                done += 1
                res['solver_s'] += r['solver_s']
                if r['error']:
                    res['bounded'].append(f"{r['title']}: {r['error']}")
                    continue
                if not r['obligations']:
                    continue        # none of them is this property's
                used |= set(r['used'])
                assumed |= set(r['assumed'])
                res['functions'].append(f"{r['title']} ({r['target']}): {len(r['obligations'])} obligations")
                mine = r['concerns'].get(prop)
                for o in r['obligations']:
                    if mine and not any(m in o['name'] for m in mine):
                        continue        # this property rests on some obligations of the function only
                    res['obligations'].append(o)
                    res['back_ends'][o['back_end']] = res['back_ends'].get(o['back_end'], 0) + 1
            pool.terminate()
    res['functions'].sort()
    res['bounded'].sort()
    # contracts applied at call sites which nothing proves, and what is only modelled
    proved = {c.title() for n in MODULES for c in _safe(n)}
    for u in sorted(assumed):
        if u.startswith('contract '):
            if u[9:] not in proved:
                res['assumptions'].append('assumed, not verified: the contract of ' + u[9:])
        else:
            res['assumptions'].append(u)
    res['inlined'] = sorted(used)
    return res


def _safe(name):
    try:
        return _module(name).contracts()
    except Exception:
        return []
