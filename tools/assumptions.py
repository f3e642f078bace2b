"""assumptions.py [n]: evaluate, on generated documents, what the contracts of the queries assume of parsed documents.

The invariants of contracts/world.py (inv_instr and the like) are what the contracts of elements, queries, values and contents
assume of every instruction of a parsed and resolved document. Here the same formulas are evaluated on the real dictionaries.
Bounded: n documents (default 40000) of the generators of oracle/gen.py.
"""
import multiprocessing as mp
import os
import random
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contracts.world as W  # noqa: E402
from oracle import checks  # noqa: E402
from enolib.context import Context  # noqa: E402
from enolib.error_types import ParseError  # noqa: E402


def walk(c):
    seen = set()

    def element(e):
        if id(e) in seen:
            return
        seen.add(id(e))
        yield 'Instr', e
        for f, k in (('comments', 'Comment'), ('continuations', 'Cont'), ('lines', 'Line')):
            for x in e.get(f, ()):
                yield k, x
        if 'end' in e:
            yield 'End', e['end']
        for f in ('items', 'entries', 'elements'):
            for x in e.get(f, ()):
                yield from element(x)
        for f in ('mirror', 'extend'):
            if f in e:
                yield from element(e[f])
    yield from element(c.document)


def order(c, text):
    """What contracts/looking.py assumes of the order of instructions."""
    for mode in ('line', 'index'):
        def begin(x):
            return x['line'] if mode == 'line' else x['ranges']['line'][0]

        def end(x):
            return x['line'] if mode == 'line' else x['ranges']['line'][1]

        def stop(x):
            return end(x['continuations'][-1]) if 'continuations' in x else end(x)

        def rising(owner, members, last):
            at = owner
            for m in members:
                if not (at < begin(m) and begin(m) <= end(m)):
                    return False
                at = last(m)
            return True

        def section(s, top):
            for e in s['elements']:
                if not top < begin(e):
                    return 'elements'
                top = end(e)
                if e['type'] not in W.KEYED or e['type'] is W.T.FIELDSET_ENTRY:
                    return 'members'
                for f in ('items', 'entries'):
                    kind = {'items': W.T.LIST_ITEM, 'entries': W.T.FIELDSET_ENTRY}[f]
                    if not rising(end(e), e.get(f, ()), stop) or any(m['type'] is not kind for m in e.get(f, ())):
                        return f
                    for m in e.get(f, ()):
                        if not rising(end(m), m.get('continuations', ()), end):
                            return f + '-continuations'
                if not rising(end(e), e.get('continuations', ()), end):
                    return 'continuations'
                if e['type'] is W.T.MULTILINE_FIELD_BEGIN and 'template' not in e:
                    chain = [e, *e.get('lines', ()), e['end']]
                    if any(begin(b) != end(a) + 1 for a, b in zip(chain, chain[1:])):
                        return 'lines'
                if e['type'] is W.T.SECTION:
                    bad = section(e, top)
                    if bad:
                        return bad
            return None
        bad = section(c.document, -1)
        if bad:
            return f'Order.{bad}', text
    return None


def extents(c):
    """What contracts/reporting.py assumes of lines: (name, holds) for each element."""
    def last(x):
        if x['type'] in (W.T.SECTION, W.T.DOCUMENT):
            return max([x.get('line', -1)] + [last(e) for e in x['elements']])
        if x['type'] is W.T.MULTILINE_FIELD_BEGIN:
            return x['line'] + len(x.get('lines', ())) + ('end' in x)
        for f in ('items', 'entries'):
            if x.get(f):
                return last(x[f][-1])
        return x['continuations'][-1]['line'] if x.get('continuations') else x['line']

    def element(x):
        doc = x['type'] is W.T.DOCUMENT
        if not doc:
            yield 'exists', 0 <= x['line'] <= last(x) < c.line_count
            yield 'comments', all(0 <= y['line'] < c.line_count and y['line'] != x['line'] for y in x.get('comments', ()))     # maybe those of a template
        at = -1 if doc else x['line']
        for f in ('items', 'entries', 'elements'):
            for y in x.get(f, ()):
                yield f, at < y['line']
                at = last(y)
                yield from element(y)
        for f in ('continuations', 'lines'):
            for y in x.get(f, ()):
                yield f, at < y['line'] <= last(x)
                at = y['line']
        if x['type'] is W.T.MULTILINE_FIELD_BEGIN:
            yield 'gapless', all(y['line'] == x['line'] + 1 + k for k, y in enumerate(x.get('lines', ()))) and x.get('lines', True)
            yield 'end', 'end' not in x or x['end']['line'] == last(x)
    for name, ok in element(c.document):
        if not ok:
            return 'Extent.' + name
    return None


def judge(text):
    try:
        c = Context(text)
    except ParseError:
        return None
    bad = order(c, text)
    if bad:
        return bad
    bad = extents(c)
    if bad:
        return bad, text
    n = 0
    for kind, d in walk(c):
        inv = W.RECORDS[kind][1]
        n += 1
        for name, ok in inv(W.ConX(d)):
            if not ok:
                return f'{kind}.{name}', text
        if 'ranges' in d:
            for name, ok in W.inv_ranges(W.ConX(d['ranges'])):
                if not ok:
                    return f'Ranges.{name}', text
    return n


def sample(seed, n):
    """(documents, instructions, {assumption that does not hold: document})"""
    r = random.Random(seed)
    sources = [checks.doc_source(p) for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'api')]
    out = [0, 0, {}]
    for _ in range(n):
        text = r.choice(sources)(r)
        j = judge(text)
        if isinstance(j, tuple):
            out[2].setdefault(j[0], j[1])
        elif j:
            out[0] += 1
            out[1] += j
    return out


def work(arg):
    return sample(*arg)


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40000
    with mp.Pool(8) as pool:
        res = pool.map(work, [(i, n // 8) for i in range(8)])
    print(sum(r[0] for r in res), 'documents', sum(r[1] for r in res), 'instructions')
    for r in res:
        for k, t in r[2].items():
            print('VIOLATED', k, repr(t)[:300])
