"""From instructions to elements: what _elements, _entries and _items build (C08, C12).

RESF(x, D) is what the template mechanism makes of an instruction x when the keys in D are taken already:
a copy of a whole section or fieldset is its template; one that extends a template has its own elements, and before
them the template's whose keys it does not use. The contracts show that exactly these become elements, in this
order, and that the index by key lists exactly the elements with a key, in order.
"""
from .lib import *  # noqa: F401,F403
from pyvc.core import REGION, ArrSB
from pyvc.contract import FRAMED
from .lib import Method, F, fref, M, T, TRUE, FALSE, type_in, nth_lemma, nth_of_concat
from pyvc.loops import Machine
from . import errs, elements, queries, plurals
from .queries import SEC, FSET, Getter, FILT
from .plurals import Items

OWN = z3.Function('index_of_list', I, I)          # ghost: the index a list was made for, and its key there
OWNK = z3.Function('key_of_list', I, S)
KEYOF = z3.Function('key_of_element', I, S)       # ghost: the key of an element made from an instruction
FKEYS = z3.Function('without_keys', SeqVal, ArrSB, SeqVal)     # the instructions whose keys are not in a set
ADDK = z3.Function('with_keys_of', ArrSB, SeqVal, ArrSB)       # a set of keys and those of instructions
RESF = z3.Function('resolved', I, ArrSB, SeqVal)
KEYS = z3.Function('keys_after', I, ArrSB, ArrSB)
RESI = z3.Function('resolved_items', I, SeqVal)
K0 = z3.String('KEY0')
J0 = z3.Int('J0')
NO_KEYS = z3.K(S, FALSE)


class Source:
    def __init__(self, k, name, field, types, members, lists):
        self.k, self.name, self.field, self.types, self.members, self.lists = k, name, field, types, members, lists


SECTION_MEMBERS = (T.EMPTY_ELEMENT, T.FIELD, T.FIELDSET, T.LIST, T.MULTILINE_FIELD_BEGIN, T.SECTION)
FROM_SECTION = Source(SEC, '_instantiate_elements', 'elements', (T.DOCUMENT, T.SECTION), SECTION_MEMBERS, 'section')
FROM_FIELDSET = Source(FSET, '_instantiate_entries', 'entries', (T.FIELDSET, T.EMPTY_ELEMENT), (T.FIELDSET_ENTRY,), 'fieldset')


def key_of(it, x):
    return Val.s(F(it, Val.r(x), 'key'))


def once(it, what, facts):
    """Ghost state of an object made here is chosen once."""
    done = it.p.ghost.setdefault('ghost-chosen', ())
    if what in done:
        return
    it.p.ghost['ghost-chosen'] = done + (what,)
    for f in facts:
        it.p.assume(f)


def disown(it, r, mr):
    n = lit(z3.simplify(r))
    if n is not None and n < 0 and n in it.p.allocs:
        once(it, ('list', n), [OWN(r) != mr])


def member(it, seq, i, types):
    """What the analyzer puts into the lists of instructions (part of the assumed invariants of instructions)."""
    return z3.Implies(z3.And(0 <= i, i < z3.Length(seq)), z3.And(Val.is_VRef(seq[i]), Val.r(seq[i]) >= 0, type_in(it, Val.r(seq[i]), *types), it.p.has('key', Val.r(seq[i]))))


class Filtered(Machine):
    """[element for element in section['elements'] if its key is not in the index]"""

    def __init__(self, it, seq, D, env, c):
        super().__init__('filtered', seq, [z3.Empty(SeqVal)], None, ['acc'])
        self.D, self.c = D, c
        disown(it, env.vars['.acc'].t, c.places(it)[1])

    def lemmas(self, it, g, i, seq, length):
        return [member(it, seq, i, self.c.src.members)]

    def step(self, it, g, x, i, seq):
        if it.p.decide(z3.Select(self.D, key_of(it, seq[i]))):
            return [g['acc']]
        return [z3.Concat(g['acc'], z3.Unit(seq[i]))]

    def about(self, it, acc, j):
        return [('free', z3.Implies(z3.And(0 <= j, j < z3.Length(acc)), z3.And(Val.is_VRef(acc[j]), Val.r(acc[j]) >= 0, type_in(it, Val.r(acc[j]), *self.c.src.members), it.p.has('key', Val.r(acc[j])), z3.Not(z3.Select(self.D, key_of(it, acc[j]))))))]

    def relate(self, it, state, locs, g, i):
        nth_lemma(it, g['acc'], J0)
        return self.about(it, g['acc'], J0)

    def done(self, it, g, i, seq, length):
        it.p.ghost['filtered'] = (g['acc'], lambda j: self.live(self.about(it, g['acc'], j)))
        return [g['acc'] == FKEYS(seq, self.D)]


class Native(Machine):
    """[instantiate_and_index(element) for element in filtered]"""

    def __init__(self, it, seq, env, c):
        D = c.entry_keys(it)
        super().__init__('native', seq, [D], None, ['keys'])
        self.c, self.D = c, D
        self.acc = env.vars['.acc']
        _, self.mr = c.places(it)
        disown(it, self.acc.t, self.mr)

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        acc = p.seq(self.acc.t)
        heap = dict(p.heap)
        # every key satisfies the invariant: also the one at hand
        p.map_facts[self.mr.get_id()] = lambda k: self.at(it, heap, lambda: self.live(self.about_key(it, acc, k)))
        out = list(p.ghost['filtered'][1](i))
        for j in (J0,):
            # what earlier iterations made is not what this one makes
            out.append(z3.Implies(z3.And(0 <= j, j < z3.Length(acc)), Val.r(acc[j]) >= -p.counter))
        return out

    def at(self, it, heap, f):
        with At(it, heap):
            return f()

    def step(self, it, g, x, i, seq):
        p = it.p
        acc = z3.simplify(p.seq(self.acc.t))
        if z3.is_app_of(acc, z3.Z3_OP_SEQ_CONCAT) and z3.is_app_of(acc.arg(acc.num_args() - 1), z3.Z3_OP_SEQ_UNIT):
            new = acc.arg(acc.num_args() - 1).arg(0)
            n = lit(z3.simplify(Val.r(new)))
            if n is not None and n < 0 and n in p.allocs:
                once(it, ('element', n), [KEYOF(Val.r(new)) == key_of(it, seq[i])])
            old = acc.arg(0) if acc.num_args() == 2 else z3.Concat(*acc.children()[:-1])
            # the definition of FILT
            p.assume(FILT(acc, K0) == z3.If(KEYOF(Val.r(new)) == K0, z3.Concat(FILT(old, K0), z3.Unit(new)), FILT(old, K0)))
        return [z3.Store(g['keys'], key_of(it, seq[i]), TRUE)]

    def about_key(self, it, acc, k):
        return self.c.indexed(it, acc, k, self.mr)

    def about_element(self, it, acc, j, seq):
        return self.c.element(it, acc, j, seq)

    def relate(self, it, state, locs, g, i):
        p = it.p
        acc = p.seq(self.acc.t)
        nth_lemma(it, acc, J0)
        if z3.is_int_value(i) and i.as_long() == 0:
            p.assume(FILT(z3.Empty(SeqVal), K0) == z3.Empty(SeqVal))
        out = [('length', z3.Length(acc) == i), ('keys', p.sel(p.arr('d'), self.mr) == g['keys'])]
        out += self.about_element(it, acc, J0, self.over)
        out += self.about_key(it, acc, K0)
        out += self.c.others(it, FRAMED, self.mr)
        return out

    def done(self, it, g, i, seq, length):
        p = it.p
        acc, heap = p.seq(self.acc.t), dict(p.heap)
        p.ghost['native'] = (acc, lambda j: self.at(it, heap, lambda: self.live(self.about_element(it, acc, j, self.over))))
        lr, _ = self.c.places(it)
        out = [g['keys'] == ADDK(self.D, seq)]
        out += self.live(self.c.others(it, lr, self.mr))
        p.map_facts[self.mr.get_id()] = lambda k: self.at(it, heap, lambda: self.live(self.about_key(it, acc, k)))
        return out


class Instantiate(Method):
    inline = False
    props = ('C08', 'C12', 'C22')
    src = None
    maintains = ()

    def __init__(self, src, **kw):
        self.src, self.k = src, src.k
        super().__init__(cls=src.k.cls, name=src.name, args={src.lists: INSTR}, **kw)

    # ---- vocabulary
    def places(self, it, a=None):
        a = a or self.a
        me = a['self'].t
        return fref(it, me, self.k.list), fref(it, me, self.k.index)

    def entry_keys(self, it):
        with at_pre(it, self.pre_heap):
            return it.p.sel(it.p.arr('d'), self.places(it)[1])

    def frame_of(self, it, a):
        lr, mr = self.places(it, a)
        index = lambda it, a, r: r == mr
        index.refs = lambda it, a: [mr]
        return {('s', ''): lambda it, a, r: z3.Or(r == lr, OWN(r) == mr), ('d', ''): index, ('m', ''): index, ('k', ''): index}

    def well(self, it, mr, k):
        p = it.p
        d, m = p.sel(p.arr('d'), mr), p.sel(p.arr('m'), mr)
        v = z3.Select(m, k)
        return z3.Implies(z3.Select(d, k), z3.And(Val.is_VRef(v), OWN(Val.r(v)) == mr, OWNK(Val.r(v)) == k))

    def indexed(self, it, acc, k, mr, pre=None):
        """The index at k, when acc has been added."""
        p = it.p
        with at_pre(it, self.pre_heap if pre is None else pre):
            had = z3.Select(p.sel(p.arr('d'), mr), k)
            before = p.seq(Val.r(z3.Select(p.sel(p.arr('m'), mr), k)))
        d, m = p.sel(p.arr('d'), mr), p.sel(p.arr('m'), mr)
        f = FILT(acc, k)
        return [('well-formed', self.well(it, mr, k)), ('listed', z3.Select(d, k) == z3.Or(had, z3.Length(f) > 0)),
                ('taken-keys-get-nothing', z3.Implies(had, z3.Length(f) == 0)),
                ('bucket', z3.Implies(z3.Select(d, k), p.seq(Val.r(z3.Select(m, k))) == z3.If(had, before, f)))]

    def element(self, it, acc, j, seq):
        """The element at j is made from the instruction there."""
        p = it.p
        e = Val.r(acc[j])
        me = self.a['self'].t
        return self.made_from(it, acc, j, seq, me, F(it, me, '_context'))

    def made_from(self, it, acc, j, seq, me, context):
        p = it.p
        e = Val.r(acc[j])
        inside = z3.And(0 <= j, j < z3.Length(acc))
        sch = it.w.classes[self.k.elem]
        facts = [('element-class', z3.And(Val.is_VRef(acc[j]), CLS(e) == const_id(self.k.elem))), ('element-instruction', F(it, e, '_instruction') == seq[j]),
                 ('element-parent', F(it, e, '_parent') == Val.VRef(me)), ('element-context', F(it, e, '_context') == context),
                 ('element-key', KEYOF(e) == key_of(it, seq[j])), ('element-is-new', z3.And(z3.Not(p.has('_touched', e)), z3.Not(p.has('_yielded', e)))),
                 ('element-invariant', z3.And(sch.inv(it, e)))]
        return [(n, z3.Implies(inside, f)) for n, f in facts]

    def others(self, it, r, mr):
        """Lists that are not the index's stay as they are."""
        p = it.p
        with at_pre(it, self.pre_heap):
            was = p.seq(r)
        return [('other-lists', z3.Implies(z3.And(r >= 0, OWN(r) != mr), p.seq(r) == was))]

    def on_map_set(self, it, o, k, v):
        n = lit(v.t) if isinstance(v, Ref) else None
        if n is not None and n < 0 and n in it.p.allocs:
            once(it, ('list', n), [OWN(v.t) == o.t, OWNK(v.t) == k])

    # ---- the contract
    def pre(self, it, a):
        p, k = it.p, self.k
        me = a['self'].t
        x = a[self.src.lists].t
        lr, mr = self.places(it, a)
        if it.contract is not self:
            disown(it, lr, mr)
            n = lit(z3.simplify(mr))
            if n is not None and n < 0 and n in p.allocs:
                # no list that exists already was made for a new index
                once(it, ('map', n), [z3.Implies(FRAMED >= 0, OWN(FRAMED) != mr)])
        else:
            p.map_facts[mr.get_id()] = lambda key: [self.well(it, mr, key)]
            p.nonneg[lr.get_id()] = lr
            p.nonneg[mr.get_id()] = mr
            p.assume(z3.And(lr >= 0, mr >= 0))
        return [z3.And(p.has(k.list, me), p.has(k.index, me), Val.is_VRef(F(it, me, k.list)), Val.is_VRef(F(it, me, k.index))), type_in(it, x, *self.src.types), OWN(lr) != mr, self.well(it, mr, K0)]

    def axioms(self, it, a):
        p, x = it.p, a[self.src.lists].t
        mirror = p.has('mirror', x)
        _, mr = self.places(it, a)
        D = p.sel(p.arr('d'), mr)
        mx = Val.r(F(it, x, 'mirror'))
        own = p.seq(Val.r(F(it, x, self.src.field)))
        n = FKEYS(own, D)
        d1 = ADDK(D, n)
        ext, ex = p.has('extend', x), Val.r(F(it, x, 'extend'))
        empty = z3.Empty(SeqVal)
        has = p.has(self.src.field, x)
        return [RESF(x, D) == z3.If(mirror, RESF(mx, D), z3.If(has, z3.If(ext, z3.Concat(RESF(ex, d1), n), n), empty)),
                KEYS(x, D) == z3.If(mirror, KEYS(mx, D), z3.If(has, z3.If(ext, KEYS(ex, d1), d1), D))]

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if seq is None:
            return None
        if 'filtered' not in p.ghost:
            return [Filtered(it, seq, self.entry_keys(it), env, self)]
        p.prove('instantiates-the-free-ones', seq == p.ghost['filtered'][0])
        return [Native(it, seq, env, self)]

    def post(self, it, a, out, pre):
        p, me, x = it.p, a['self'].t, a[self.src.lists].t
        lr, mr = self.places(it, a)
        with at_pre(it, pre):
            before = p.seq(lr)
            D = p.sel(p.arr('d'), mr)
        after = p.seq(lr)
        mine = it.contract is self and a is self.a
        res = RESF(x, D)
        if out.kind != 'return':
            return [('returns', FALSE)]
        if not mine:
            A = p.fresh('added', SeqVal)
            p.ghost['added'] = p.ghost.get('added', ()) + ((A, res),)
            js = p.ghost.setdefault('positions', (J0,))
        else:
            parts = [t for t, _ in p.ghost.get('added', ())]
            js = [J0]
            if 'native' in p.ghost:
                acc, about = p.ghost['native']
                off = z3.IntVal(0)
                for t, r in p.ghost.get('added', ()):
                    # the filter of a concatenation (Lemma filter-of-concatenation)
                    p.assume(FILT(z3.Concat(t, acc), K0) == z3.Concat(FILT(t, K0), FILT(acc, K0)))
                    off = z3.Length(t)
                    nth_of_concat(it, t, acc, J0)
                    nth_of_concat(it, r, it.p.ghost['filtered'][0], J0)
                for f in about(J0 - off):
                    p.assume(f)
                parts.append(acc)
            A = z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.Empty(SeqVal)
            if not parts:
                p.assume(FILT(z3.Empty(SeqVal), K0) == z3.Empty(SeqVal))
        with at_pre(it, pre):
            context = F(it, me, '_context')
        r = [('returns-nothing', returned(it, out, Val.VNone)), ('added-at-the-end', after == z3.Concat(before, A)), ('as-many', z3.Length(A) == z3.Length(res)), ('keys', p.sel(p.arr('d'), mr) == KEYS(x, D))]
        for j in js:
            r += self.made_from(it, A, j, res, me, context)
        r += self.indexed(it, A, K0, mr, pre)
        if not mine:
            heap = dict(p.heap)
            pre = dict(pre)

            def later(k):
                with At(it, heap):
                    return [f for _, f in self.indexed(it, A, k, mr, pre)]
            p.map_facts[mr.get_id()] = later
        return r


class Instantiated(Getter):
    """_elements and _entries: the instances of what the template mechanism yields, made once, and their index."""
    props = ('C08', 'C11', 'C12', 'C22')
    maintains = ()

    def __init__(self, src):
        self.src = src
        super().__init__(src.k)

    def representation(self, it, me):
        """What the list and the index are, once they are there."""
        p, k = it.p, self.k
        lr, mr, e = self.facts(it, me)
        d, m = p.sel(p.arr('d'), mr), p.sel(p.arr('m'), mr)
        f = FILT(e, K0)
        v = z3.Select(m, K0)
        res = RESF(fref(it, me, '_instruction'), NO_KEYS)
        out = [('list', z3.And(p.has(k.list, me), p.has(k.index, me), Val.is_VRef(F(it, me, k.list)), Val.is_VRef(F(it, me, k.index)))),
               ('indexed', z3.Select(d, K0) == (z3.Length(f) > 0)), ('bucket', z3.Implies(z3.Select(d, K0), z3.And(Val.is_VRef(v), p.seq(Val.r(v)) == f))),
               ('as-many', z3.Length(e) == z3.Length(res))]
        maker = Instantiate(self.src)
        return out + Instantiate.made_from(maker, it, e, J0, res, me, F(it, me, '_context'))[1:5]

    def pre(self, it, a):
        if it.contract is not self:
            return []
        p, me = it.p, a['self'].t
        inv = z3.Implies(p.has(self.k.list, me), z3.And([f for _, f in self.representation(it, me)]))
        return [inv]

    def result(self, it, a):
        return super().result(it, a)

    def post(self, it, a, out, pre):
        res = super().post(it, a, out, pre)
        if not (it.contract is self and a is self.a):
            return res
        if out.kind != 'return':
            return [('returns', FALSE)]
        me = a['self'].t
        want = it.truth(a['map'])
        res += [('returns-the-list-or-index', it.to_val(out.value) == z3.If(want, F(it, me, self.k.index), F(it, me, self.k.list)))]
        return res + self.representation(it, me)


class ItemLoop(Machine):
    """[ListItem(...) for item in list['items']]"""

    def __init__(self, it, seq, env, c):
        super().__init__('items', seq, [], None, [])
        self.c, self.acc = c, env.vars['.acc']

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        acc = p.seq(self.acc.t)
        return [item_member(it, seq, i), z3.Implies(z3.And(0 <= J0, J0 < z3.Length(acc)), Val.r(acc[J0]) >= -p.counter)]

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        acc = it.p.seq(self.acc.t)
        nth_lemma(it, acc, J0)
        return [('length', z3.Length(acc) == i)] + self.c.made_from(it, acc, J0, self.over)

    def done(self, it, g, i, seq, length):
        p = it.p
        acc, heap, over = p.seq(self.acc.t), dict(p.heap), self.over

        def about(j):
            with At(it, heap):
                return self.live(self.c.made_from(it, acc, j, over))
        p.ghost['native'] = (acc, over, about)
        return []


def item_member(it, seq, i):
    return z3.Implies(z3.And(0 <= i, i < z3.Length(seq)), z3.And(Val.is_VRef(seq[i]), Val.r(seq[i]) >= 0, type_in(it, Val.r(seq[i]), T.LIST_ITEM)))


class InstantiateItems(Method):
    """The items of a list: its template's, then its own."""
    inline = False
    cls, name = List, '_instantiate_items'
    args = {'list': INSTR}
    props = ('C08', 'C12', 'C22')
    returns = TList(TObj(ListItem))
    maintains = ()

    def made_from(self, it, acc, j, seq):
        p, me = it.p, self.a['self'].t
        return self.items_from(it, acc, j, seq, me)

    def items_from(self, it, acc, j, seq, me):
        p = it.p
        e = Val.r(acc[j])
        sch = it.w.classes[ListItem]
        facts = [('item-class', z3.And(Val.is_VRef(acc[j]), CLS(e) == const_id(ListItem))), ('item-instruction', F(it, e, '_instruction') == seq[j]), ('item-parent', F(it, e, '_parent') == Val.VRef(me)),
                 ('item-context', F(it, e, '_context') == F(it, me, '_context')), ('item-is-new', z3.Not(p.has('_touched', e))), ('item-invariant', z3.And(sch.inv(it, e)))]
        return [(n, z3.Implies(z3.And(0 <= j, j < z3.Length(acc)), f)) for n, f in facts]

    def pre(self, it, a):
        return [type_in(it, a['list'].t, T.LIST, T.EMPTY_ELEMENT)]

    def axioms(self, it, a):
        p, x = it.p, a['list'].t
        own = p.seq(Val.r(F(it, x, 'items')))
        return [RESI(x) == z3.If(p.has('mirror', x), RESI(Val.r(F(it, x, 'mirror'))), z3.If(p.has('extend', x), z3.Concat(RESI(Val.r(F(it, x, 'extend'))), own), z3.If(p.has('items', x), own, z3.Empty(SeqVal))))]

    def machines_for(self, it, seq, length, node, env, is_while):
        return [ItemLoop(it, seq, env, self)] if seq is not None else None

    def post(self, it, a, out, pre):
        p, me, x = it.p, a['self'].t, a['list'].t
        if out.kind != 'return':
            return [('returns', FALSE)]
        A = p.seq(out.value.t)
        res = RESI(x)
        mine = it.contract is self and a is self.a
        if not mine:
            p.ghost['added'] = (A, res)
        elif 'native' in p.ghost:
            acc, over, about = p.ghost['native']
            off = z3.IntVal(0)
            if 'added' in p.ghost:
                t, r = p.ghost['added']
                off = z3.Length(t)
                nth_of_concat(it, t, acc, J0)
                nth_of_concat(it, r, over, J0)
            for f in about(J0 - off):
                p.assume(f)
        return [('as-many', z3.Length(A) == z3.Length(res))] + self.items_from(it, A, J0, res, me)


class ItemsOnce(Items):
    """_items: made once."""
    props = ('C08', 'C12', 'C22')
    maintains = ()

    def representation(self, it, me):
        p = it.p
        v = F(it, me, '_instantiated_items')
        e = p.seq(Val.r(v))
        res = RESI(fref(it, me, '_instruction'))
        return [('list', z3.And(p.has('_instantiated_items', me), Val.is_VRef(v))), ('as-many', z3.Length(e) == z3.Length(res))] + InstantiateItems().items_from(it, e, J0, res, me)[:4]

    def pre(self, it, a):
        if it.contract is not self:
            return []
        p, me = it.p, a['self'].t
        return [z3.Implies(p.has('_instantiated_items', me), z3.And([f for _, f in self.representation(it, me)]))]

    def post(self, it, a, out, pre):
        res = super().post(it, a, out, pre)
        if not (it.contract is self and a is self.a):
            return res
        if out.kind != 'return':
            return [('returns', FALSE)]
        me = a['self'].t
        return res + [('returns-the-list', it.to_val(out.value) == F(it, me, '_instantiated_items'))] + self.representation(it, me)


def uses():
    return queries.uses()


def contracts():
    return [Instantiate(FROM_SECTION), Instantiate(FROM_FIELDSET), Instantiated(FROM_SECTION), Instantiated(FROM_FIELDSET), InstantiateItems(), ItemsOnce()]
