"""Context.elements, entries, items and raw: what copies consist of (C08, C09, C12, C22).

CONTENT(x) is the content of a section or fieldset x once templates are applied: that of its template for a plain copy;
with own elements, the template's elements whose keys x does not use itself, and then its own. Results are cached on
the instructions; the contracts show that whatever a cache holds is the content, and that nothing else changes.
RANK orders instructions along their dependencies (mirror, extend), which the resolver makes acyclic.
"""
from .lib import *  # noqa: F401,F403
from pyvc.contract import FRAMED
from .lib import Method, Contract, F, fref, T, TRUE, FALSE, type_in, nth_lemma, nth_of_concat
from pyvc.loops import Machine
from . import elements, values
from .elements import VALUE, COMMENT
from .instantiate import OWN, FKEYS, ADDK, NO_KEYS, K0, J0, RESI, key_of, once, SECTION_MEMBERS

RANK = z3.Function('dependency_rank', I, I)
CE = {f: z3.Function('content_' + f, I, SeqVal) for f in ('elements', 'entries')}
CE['items'] = RESI
RAWOF = z3.Function('raw_of', I, Val)
X0 = z3.Int('X0')


def member(it, seq, i, types, x):
    """An element of the content of x."""
    k = Val.r(seq[i])
    return z3.Implies(z3.And(0 <= i, i < z3.Length(seq)), z3.And(Val.is_VRef(seq[i]), k >= 0, RANK(k) >= 0, RANK(k) < RANK(x), type_in(it, k, *types), z3.Or(type_in(it, k, T.LIST_ITEM), it.p.has('key', k))))


class Index(Machine):
    """for element in ...: file it under its key"""

    def __init__(self, it, seq, c, D, members, mr):
        super().__init__('index', seq, [D], None, ['keys'])
        self.c, self.D, self.members, self.mr = c, D, members, mr
        self.kept = [r for r in c.kept(it)]
        self.before = [it.p.seq(r) for r in self.kept]

    def free(self, r):
        return z3.And(z3.Or(r >= 0, OWN(r) == 0), OWN(r) != self.mr)

    def well(self, it, k):
        p = it.p
        v = z3.Select(p.sel(p.arr('m'), self.mr), k)
        return z3.Implies(z3.Select(p.sel(p.arr('d'), self.mr), k), z3.And(Val.is_VRef(v), OWN(Val.r(v)) == self.mr))

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        heap = dict(p.heap)

        def at(k):
            with At(it, heap):
                return self.live([('well-formed', self.well(it, k))])
        p.map_facts[self.mr.get_id()] = at
        return [self.members(i)]

    def step(self, it, g, x, i, seq):
        return [z3.Store(g['keys'], key_of(it, seq[i]), TRUE)]

    def relate(self, it, state, locs, g, i):
        p = it.p
        out = [('keys', p.sel(p.arr('d'), self.mr) == g['keys']), ('well-formed', self.well(it, K0))]
        return out + [(f'kept{k}', z3.Implies(self.free(r), p.seq(r) == s)) for k, (r, s) in enumerate(zip(self.kept, self.before))]

    def done(self, it, g, i, seq, length):
        p = it.p
        heap = dict(p.heap)

        def at(k):
            with At(it, heap):
                return self.live([('well-formed', self.well(it, k))])
        p.map_facts[self.mr.get_id()] = at
        return [g['keys'] == ADDK(self.D, seq)]


class Free(Machine):
    """[element for element in ... if its key is not in the index]"""

    def __init__(self, it, seq, D, env, c, members, types):
        super().__init__('free', seq, [z3.Empty(SeqVal)], None, ['acc'])
        self.D, self.c, self.members, self.types = D, c, members, types

    def lemmas(self, it, g, i, seq, length):
        return [self.members(i)]

    def step(self, it, g, x, i, seq):
        if it.p.decide(z3.Select(self.D, key_of(it, seq[i]))):
            return [g['acc']]
        return [z3.Concat(g['acc'], z3.Unit(seq[i]))]

    def about(self, it, acc, j):
        return [('member', member(it, acc, j, self.types, self.c.x))]

    def relate(self, it, state, locs, g, i):
        nth_lemma(it, g['acc'], J0)
        return self.about(it, g['acc'], J0)

    def done(self, it, g, i, seq, length):
        p = it.p
        heap = dict(p.heap)
        acc = g['acc']

        def about(j):
            with At(it, heap):
                return z3.And(self.live(self.about(it, acc, j)) or [TRUE])
        p.ghost['free'] = (acc, about)
        return [acc == FKEYS(seq, self.D)]


class Contents(Contract):
    """Context.elements and Context.entries."""
    args = {'self': TObj(Context), 'x': INSTR}
    raises = ()
    maintains = ()
    returns = TList(INSTR)
    types = ()
    members = ()
    field = None
    check_ms = 300
    ground_checks = True
    props = ('C08', 'C09', 'C12', 'C22')

    def __init__(self, name, param, types, members):
        self.target = f'enolib.context:Context.{name}'
        self.field, self.param, self.types, self.members = name, param, types, members
        self.cache, self.map = 'computed_' + name, 'computed_' + name + '_map'
        self.args = {'self': TObj(Context), param: INSTR}
        self.spec = CE[name]

    # ---- vocabulary
    def mr(self, it, x):
        return fref(it, x, self.map)

    def cache_ok(self, it, r):
        """What a cache holds is the content."""
        p = it.p
        v = F(it, r, self.cache)
        lst = Val.r(v)
        return z3.Implies(p.has(self.cache, r), z3.And(Val.is_VRef(v), p.seq(lst) == self.spec(r), OWN(lst) == 0, self.member_of(it, p.seq(lst), J0, r)))

    def exists_already(self, it):
        """No object made from here on is what a cache holds now."""
        p = it.p
        r = Val.r(F(it, X0, self.cache))
        return z3.Implies(p.has(self.cache, X0), r >= -p.counter)

    def up_to(self, it, r, x):
        return z3.Implies(RANK(r) <= RANK(x), self.cache_ok(it, r))

    def every(self, it, assume, f, arr):
        """f for every instruction: assumed for all, proved of an arbitrary one."""
        if not assume:
            return f(X0)
        r = z3.Int('r!rank')
        return z3.ForAll([r], f(r), patterns=[z3.Select(arr, r)])

    def kept(self, it):
        """Lists that the loops leave alone."""
        p = it.p
        with at_pre(it, self.pre_heap):
            was = Val.r(F(it, X0, self.cache))
        mine = fref(it, self.x, self.cache)
        self.no_bucket(it, mine)
        return [mine, Val.r(F(it, X0, self.cache)), was, Val.r(F(it, self.x, self.field)), FRAMED]

    def no_bucket(self, it, r):
        n = lit(z3.simplify(r))
        if n is not None and n < 0 and n in it.p.allocs:
            once(it, ('list', n), [OWN(r) == 0])

    def frame_of(self, it, a):
        x = a[self.param].t
        low = lambda it, a, r: RANK(r) <= RANK(x)
        return {self.cache: low, self.map: low}

    def setup(self, it):
        a = super().setup(it)
        self.x = a[self.param].t
        return a

    def measure(self, it, a):
        return RANK(a[self.param].t)

    def member_of(self, it, seq, i, x):
        return member(it, seq, i, self.members, x)

    def pre(self, it, a):
        p, x = it.p, a[self.param].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        self_arr = p.arr('h', self.cache)
        return [type_in(it, x, *self.types), self.every(it, mine, lambda r: self.up_to(it, r, x), self_arr)]

    def axioms(self, it, a):
        p, x = it.p, a[self.param].t
        ownr = Val.r(F(it, x, self.field))
        own = p.seq(ownr)
        mx, ex = Val.r(F(it, x, 'mirror')), Val.r(F(it, x, 'extend'))
        return [self.definition(it, x, own, mx, ex),
                z3.Implies(p.has(self.cache, X0), Val.r(F(it, X0, self.cache)) >= 0), RANK(x) >= 0, z3.Implies(p.has('mirror', x), z3.And(RANK(mx) < RANK(x), RANK(mx) >= 0)), z3.Implies(p.has('extend', x), z3.And(RANK(ex) < RANK(x), RANK(ex) >= 0)),
                OWN(ownr) == 0, z3.Implies(p.has(self.field, x), Val.is_VRef(F(it, x, self.field)))]

    def definition(self, it, x, own, mx, ex):
        p = it.p
        return self.spec(x) == z3.If(p.has('mirror', x), self.spec(mx), z3.If(p.has('extend', x), z3.Concat(FKEYS(self.spec(ex), ADDK(NO_KEYS, own)), own), own))

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if seq is None:
            return None
        mr = self.mr(it, self.x)
        D = p.sel(p.arr('d'), mr)
        if 'ce' in p.ghost and p.implied(seq == p.ghost['ce'][0]):
            members = p.ghost['ce'][1]
        elif 'free' in p.ghost and p.implied(seq == p.ghost['free'][0]):
            members = p.ghost['free'][1]
        else:
            own = p.seq(Val.r(F(it, self.x, self.field)))
            if not p.implied(seq == own):
                return None
            members = lambda i: self.member_of(it, seq, i, self.x)
        if '.acc' in env.vars:
            self.no_bucket(it, env.vars['.acc'].t)
            return [Free(it, seq, D, env, self, members, self.members)]
        n = lit(mr)
        if n is not None and n < 0 and n in p.allocs:
            # no list that exists already was made for a new index
            once(it, ('map', n), [z3.Implies(FRAMED >= 0, OWN(FRAMED) != mr)])
        return [Index(it, seq, self, D, members, mr)]

    def on_map_set(self, it, o, k, v):
        n = lit(v.t) if isinstance(v, Ref) else None
        if n is not None and n < 0 and n in it.p.allocs:
            once(it, ('list', n), [OWN(v.t) == o.t])

    def front(self, it):
        """What goes before the own elements."""
        return None

    def post(self, it, a, out, pre):
        p, x = it.p, a[self.param].t
        mine = it.contract is self and a is self.a
        if out.kind != 'return':
            return [('returns', FALSE)]
        if not (isinstance(out.value, Ref) and isinstance(out.value.typ, TList)):
            return [('returns-a-list', FALSE)]
        lst = out.value.t
        seq = p.seq(lst)
        if mine:
            self.no_bucket(it, lst)
        arr = p.arr('h', self.cache)
        with at_pre(it, pre):
            before = lambda r: self.cache_ok(it, r)
            was = before(X0)
        res = [('content', seq == self.spec(x)), ('not-an-index-entry', OWN(lst) == 0)]

        def kept(r):
            return z3.Implies(RANK(r) <= RANK(x), self.cache_ok(it, r))
        res.append(('caches-hold-contents', self.every(it, not mine, kept, arr)))
        if mine:
            # what was appended in front
            front = p.ghost.get('free') or self.front(it)
            if front:
                acc, about = front
                with at_pre(it, pre):
                    own = p.seq(Val.r(F(it, x, self.field)))
                nth_of_concat(it, acc, own, J0)
                p.assume(about(J0))
                p.assume(self.member_of(it, own, J0 - z3.Length(acc), x))
                p.assume(self.member_of(it, own, J0, x))
            else:
                with at_pre(it, pre):
                    own = p.seq(Val.r(F(it, x, self.field)))
                p.assume(self.member_of(it, own, J0, x))
            res.append(('members', self.member_of(it, seq, J0, x)))
        else:
            j = z3.Int('j!member')
            heap = dict(p.heap)

            def about(i):
                with At(it, heap):
                    return self.member_of(it, seq, i, x)
            p.ghost['ce'] = (seq, about)
            res.append(('caches-hold-contents', kept(X0)))
            res.append(('exists-already', self.exists_already(it)))
            res.append(('members', self.member_of(it, seq, J0, x)))
        return res


class Items(Contents):
    """Context.items."""
    props = ('C08', 'C12', 'C22')

    def __init__(self):
        super().__init__('items', 'list', (T.LIST, T.EMPTY_ELEMENT), (T.LIST_ITEM,))

    def definition(self, it, x, own, mx, ex):
        p = it.p
        return RESI(x) == z3.If(p.has('mirror', x), RESI(mx), z3.If(p.has('extend', x), z3.Concat(RESI(ex), own), z3.If(p.has('items', x), own, z3.Empty(SeqVal))))

    def frame_of(self, it, a):
        f = super().frame_of(it, a)
        del f[self.map]
        return f

    def front(self, it):
        return it.p.ghost.get('ce')

    def machines_for(self, it, seq, length, node, env, is_while):
        return None


RAW = z3.Function('made_for', I, I)          # ghost: the instruction a record of raw() was made for
KEYED_RAW = (T.EMPTY_ELEMENT, T.FIELD, T.FIELDSET_ENTRY, T.MULTILINE_FIELD_BEGIN, T.LIST, T.FIELDSET, T.SECTION)
VALUED = (T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY, T.MULTILINE_FIELD_BEGIN)
LISTED = {'items': (T.LIST,), 'entries': (T.FIELDSET,), 'elements': (T.SECTION, T.DOCUMENT)}


class RawLoop(Machine):
    """[self.raw(e) for e in ...]"""

    def __init__(self, it, seq, env, c, members):
        super().__init__('raw', seq, [], None, [])
        self.c, self.acc, self.members = c, env.vars['.acc'], members
        n = lit(self.acc.t)
        if n is not None and n < 0 and n in it.p.allocs:
            once(it, ('list', n), [OWN(self.acc.t) == -1])      # no cache holds it

    def lemmas(self, it, g, i, seq, length):
        acc = it.p.seq(self.acc.t)
        return [self.members(i), z3.Implies(z3.And(0 <= J0, J0 < z3.Length(acc)), Val.r(acc[J0]) >= -it.p.counter)]

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        p = it.p
        acc = p.seq(self.acc.t)
        nth_lemma(it, acc, J0)
        inside = z3.And(0 <= J0, J0 < z3.Length(acc))
        e = Val.r(acc[J0])
        out = [('length', z3.Length(acc) == i), ('record', z3.Implies(inside, z3.And(Val.is_VRef(acc[J0]), RAW(e) == Val.r(self.over[J0]))))]
        out += [(n, z3.Implies(inside, f)) for n, f in self.c.shallow(it, e, Val.r(self.over[J0]))]
        out += [(f'cache-{f}', c.cache_ok(it, X0)) for f, c in self.c.caches.items()]
        return out


class Raw(Contract):
    """Context.raw: the nested representation of an instruction."""
    target = 'enolib.context:Context.raw'
    args = {'self': TObj(Context), 'element': INSTR}
    props = ('C12', 'C08', 'C09', 'C22')
    maintains = ()
    frame = {f: None for f in ('computed_value', 'computed_comment', 'computed_items', 'computed_elements', 'computed_elements_map', 'computed_entries', 'computed_entries_map')}
    check_ms = 300
    ground_checks = True
    returns = TRec('RawRecord')

    def __init__(self):
        self.caches = {c.field: c for c in (SECTIONS, FIELDSETS, LISTS)}

    def every(self, it, assume, c):
        if not assume:
            return c.cache_ok(it, X0)
        r = z3.Int('r!cached')
        return z3.And(c.cache_ok(it, X0), z3.ForAll([r], c.cache_ok(it, r), patterns=[z3.Select(it.p.arr('h', c.cache), r)]))

    def measure(self, it, a):
        return RANK(a['element'].t)

    def pre(self, it, a):
        mine = it.contract is self and a is getattr(self, 'a', None)
        return [self.every(it, mine, c) for c in self.caches.values()]

    def axioms(self, it, a):
        x = a['element'].t
        return [RANK(x) >= 0] + [z3.Implies(it.p.has(c.cache, X0), Val.r(F(it, X0, c.cache)) >= 0) for c in self.caches.values()]

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if seq is None or '.acc' not in env.vars or 'ce' not in p.ghost or not p.implied(seq == p.ghost['ce'][0]):
            return None
        return [RawLoop(it, seq, env, self, p.ghost['ce'][1])]

    def shallow(self, it, r, x):
        """The record r presents the instruction x."""
        p = it.p
        f = {'type': p.has('type', r)}
        out = [('kind', z3.And(p.has('type', r), F(it, r, 'type') == Val.VStr(PRETTY(F(it, x, 'type')))))]
        for name, when, what in (('comment', p.has('comments', x), COMMENT(x)), ('key', type_in(it, x, *KEYED_RAW), F(it, x, 'key')), ('value', type_in(it, x, *VALUED), VALUE(x))):
            out.append((name, z3.And(p.has(name, r) == when, z3.Implies(when, F(it, r, name) == what))))
        for name, types in LISTED.items():
            out.append((name, p.has(name, r) == type_in(it, x, *types)))
        return out

    def content(self, it, r, x):
        p = it.p
        out = []
        for name, types in LISTED.items():
            lst = p.seq(Val.r(F(it, r, name)))
            res = CE[name](x)
            inside = z3.And(0 <= J0, J0 < z3.Length(lst))
            out.append((name, z3.Implies(type_in(it, x, *types), z3.And(Val.is_VRef(F(it, r, name)), z3.Length(lst) == z3.Length(res),
                        z3.Implies(inside, z3.And(Val.is_VRef(lst[J0]), RAW(Val.r(lst[J0])) == Val.r(res[J0])))))))
        return out

    def post(self, it, a, out, pre):
        p, x = it.p, a['element'].t
        mine = it.contract is self and a is self.a
        if out.kind != 'return':
            return [('returns', FALSE)]
        if not isinstance(out.value, Ref):
            return [('returns-a-record', FALSE)]
        r = out.value.t
        if mine:
            n = lit(z3.simplify(r))
            if n is not None and n < 0 and n in p.allocs:
                once(it, ('raw', n), [RAW(r) == x])
        res = [('made-for-it', RAW(r) == x), ('is-new', r < 0)]
        res += [('shallow-' + n, f) for n, f in self.shallow(it, r, x)]
        res += [('list-' + n, f) for n, f in self.content(it, r, x)]
        res += [(f'cache-{f}', self.every(it, not mine, c)) for f, c in self.caches.items()]
        return res


class ElementRaw(Method):
    """raw() of an element: that of its instruction, whether touched or not; nothing is touched."""
    name = 'raw'
    inline = False
    props = ('C12', 'C22', 'C15')
    frame = Raw.frame
    maintains = ()

    def __init__(self, cls):
        super().__init__(cls=cls)

    def pre(self, it, a):
        # what caches hold (established by whatever fills them, see Contents)
        return [RAW_CONTRACT.every(it, it.contract is self, c) for c in RAW_CONTRACT.caches.values()]

    def axioms(self, it, a):
        return [z3.Implies(it.p.has(c.cache, X0), Val.r(F(it, X0, c.cache)) >= 0) for c in RAW_CONTRACT.caches.values()]

    def post(self, it, a, out, pre):
        if out.kind != 'return' or not isinstance(out.value, Ref):
            return [('returns-a-record', FALSE)]
        x = fref(it, a['self'].t, '_instruction')
        r = out.value.t
        res = [('made-for-it', RAW(r) == x)] + RAW_CONTRACT.shallow(it, r, x) + RAW_CONTRACT.content(it, r, x)
        return res + [(f'cache-{f}', c.cache_ok(it, X0)) for f, c in RAW_CONTRACT.caches.items()]


SECTIONS = Contents('elements', 'section', (T.SECTION, T.DOCUMENT), SECTION_MEMBERS)
FIELDSETS = Contents('entries', 'fieldset', (T.FIELDSET,), (T.FIELDSET_ENTRY,))
LISTS = Items()
RAW_CONTRACT = Raw()


def uses():
    return values.uses()


def contracts():
    return [Contents('elements', 'section', (T.SECTION, T.DOCUMENT), SECTION_MEMBERS), Contents('entries', 'fieldset', (T.FIELDSET,), (T.FIELDSET_ENTRY,)), Items(), Raw()] + [ElementRaw(c) for c in (Section, SectionElement, Element, Field, Fieldset, FieldsetEntry, List, ListItem, Empty)]
