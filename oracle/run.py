"""Bounded exploration of a property with executable contracts, in parallel workers."""
import json
import multiprocessing
import os
import resource
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
for p in (os.path.join(REPO, 'python'), VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)

COUNTS = {
    'C01': (60000, 600000), 'C02': (60000, 600000), 'C03': (40000, 400000), 'C04': (40000, 400000), 'C05': (30000, 300000), 'C06': (40000, 400000), 'C07': (40000, 400000),
    'C08': (40000, 400000), 'C09': (40000, 400000), 'C10': (60000, 600000), 'C11': (24000, 240000), 'C12': (20000, 200000), 'C13': (20000, 200000), 'C14': (20000, 200000),
    'C15': (20000, 200000), 'C16': (24000, 240000), 'C17': (24000, 240000), 'C18': (20000, 200000), 'C19': (4000, 40000), 'C20': (20000, 200000), 'C21': (4000, 40000),
    'C22': (6000, 60000), 'C23': (24000, 240000),
}


def worker(prop, seed, index, total, tier, scale, queue):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    from oracle import checks
    n = int(COUNTS[prop][1 if tier == 'thorough' else 0] * scale) // total
    count, distinct, samples = 0, set(), []
    found = None
    try:
        def stream():
            if scale >= 1:
                for i, c in enumerate(checks.exhaustive(prop, tier)):
                    if i % total == index:
                        yield c
            elif prop == 'C21':
                yield {'kind': 'locales'}
            yield from checks.cases(prop, f'{seed}/{index}', n, tier)
        for c in stream():
            count += 1
            key = hash((c.get('text'), c.get('seed'), c.get('locale'), c.get('reporter')))
            if c.get('text', 'x').strip():
                distinct.add(key)
            if count % 997 == 1 and len(samples) < 2:
                samples.append(c)
            try:
                j = checks.judge(prop, c)
            except checks.Hang:
                j = None
            if j is not None:
                j = checks.shrink(prop, j[1]) or j
                found = {'message': j[0], 'case': j[1]}
                break
        queue.put((index, count, len(distinct), samples, found, None))
    except BaseException as e:
        import traceback
        queue.put((index, count, len(distinct), samples, found, traceback.format_exc()))


def explore(prop, seed, tier, procs=8, scale=1.0):
    """Returns dict(evaluations, distinct, samples, failure, crash)."""
    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(prop, seed, i, procs, tier, scale, queue)) for i in range(procs)]
    for p in ps:
        p.start()
    out = dict(evaluations=0, distinct=0, samples=[], failure=None, crash=None)
    left = procs
    deadline = time.time() + (700 if tier == 'quick' else 6 * 3600)
    while left and time.time() < deadline:
        try:
            i, n, d, s, found, crash = queue.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and queue.empty():
                out['crash'] = out['crash'] or 'a worker died'
                break
            continue
        left -= 1
        out['evaluations'] += n
        out['distinct'] += d
        out['samples'] += s
        out['crash'] = out['crash'] or crash
        if found:
            out['failure'] = found
            break
    if left and out['failure'] is None and out['crash'] is None:
        out['crash'] = 'exploration timed out'
    for p in ps:
        p.kill()
        p.join()
    return out


def replay(path):
    from oracle import checks
    with open(path) as f:
        data = json.load(f)
    case = data.get('case')
    if case is None:
        print(json.dumps(data, indent=1))
        return 0
    j = checks.judge(data['property'], case)
    print('reproduced: ' + j[0] if j else 'does not fail on the current tree')
    return 1 if j else 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    res = explore(sys.argv[1], int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'), scale=float(sys.argv[2]) if len(sys.argv) > 2 else 1.0)
    res['samples'] = res['samples'][:2]
    print(json.dumps(res, indent=1, ensure_ascii=False))
