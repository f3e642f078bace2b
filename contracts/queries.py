"""Queries of sections and fieldsets (C11, C12, C22)."""
from .lib import *  # noqa: F401,F403
from pyvc.core import REGION
from .lib import Method, Contract, F, fref, M, T, TRUE, FALSE, LAST
from pyvc.loops import Machine
from . import errs, elements
from .elements import KINDS, KEY, touched

FILT = z3.Function('FILT', SeqVal, S, SeqVal)        # the elements with a key, in order
INSTRS = z3.Function('INSTRS', SeqVal, SeqVal)       # instructions of a sequence of elements


class Lists:
    """What _elements / _entries provide: the list and its index by key."""

    def __init__(self, cls, getter, lst, idx, elem, required):
        self.cls, self.getter, self.list, self.index, self.elem, self.required = cls, getter, lst, idx, elem, required


SEC = Lists(Section, '_elements', '_instantiated_elements', '_instantiated_elements_map', SectionElement, '_all_elements_required')
FSET = Lists(Fieldset, '_entries', '_instantiated_entries', '_instantiated_entries_map', FieldsetEntry, '_all_entries_required')


class Getter(Method):
    """_elements / _entries: builds list and index once; afterwards returns the same ones."""
    inline = False
    props = ('C11', 'C12', 'C22')
    k = None

    def __init__(self, k):
        self.k = k
        super().__init__(cls=k.cls, name=k.getter, args={'map': TBool()})

    def frame_of(self, it, a):
        return {self.k.list: only('self'), self.k.index: only('self')}

    def facts(self, it, me):
        """(list ref, index ref, list content) as the representation invariant relates them."""
        p, k = it.p, self.k
        lr, mr = Val.r(F(it, me, k.list)), Val.r(F(it, me, k.index))
        e = p.seq(lr)
        return lr, mr, e

    def result(self, it, a):
        p, k = it.p, self.k
        me = a['self'].t
        lr, mr, e = self.facts(it, me)
        p.assume(z3.And(p.has(k.list, me), p.has(k.index, me), Val.is_VRef(F(it, me, k.list)), Val.is_VRef(F(it, me, k.index)), REGION(lr) != 1, REGION(mr) != 1))
        d, m, s = p.sel(p.arr('d'), mr), p.sel(p.arr('m'), mr), p.arr('s')

        def about_key(key):
            f = FILT(e, key)
            v = z3.Select(m, key)
            return [z3.Select(d, key) == (z3.Length(f) > 0), z3.Implies(z3.Select(d, key), z3.And(Val.is_VRef(v), z3.Select(s, Val.r(v)) == f, REGION(Val.r(v)) != 1))]
        p.map_facts[mr.get_id()] = about_key
        want = it.truth(a['map'])
        if p.decide(want):
            r = Ref(mr, TMap(TList(TObj(k.elem))))
        else:
            r = Ref(lr, TList(TObj(k.elem)))
        return r

    def post(self, it, a, out, pre):
        k, me = self.k, a['self'].t
        with at_pre(it, pre):
            had, l0, m0 = it.p.has(k.list, me), F(it, me, k.list), F(it, me, k.index)
        return [('instantiated-once', z3.Implies(had, z3.And(F(it, me, k.list) == l0, F(it, me, k.index) == m0)))]


class Instrs(Machine):
    """The comprehension [e._instruction for e in elements]."""

    def __init__(self, it, seq):
        super().__init__('instructions', seq, [z3.Empty(SeqVal)], None, ['acc'])
        self.first = None

    def step(self, it, g, x, i, seq):
        return [z3.Concat(g['acc'], z3.Unit(F(it, x.t, '_instruction')))]

    def relate(self, it, state, locs, g, i):
        acc = g['acc']
        e0 = F(it, Val.r(self.over[0]), '_instruction')
        return [('length', z3.Length(acc) == i), ('first', z3.Implies(i > 0, acc[0] == e0))]

    def done(self, it, g, i, seq, length):
        return [INSTRS(self.over) == g['acc']]


class Query(Method):
    raises = (ValidationError, TypeError)
    props = ('C11', 'C16', 'C17', 'C22', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    k = SEC
    kind = None
    required = 'parameter'       # 'parameter' | None | True | False

    def frame_of(self, it, a):
        f = {'_touched': only('self'), self.k.list: only('self'), self.k.index: only('self')}
        if self.kind in KINDS:
            def first(it, a, r):
                return r == Val.r(self.matching(it, a)[0])
            f['_yielded'] = f['_' + self.kind] = first
        return f

    def matching(self, it, a):
        """The elements the query is about."""
        me = a['self'].t
        e = it.p.seq(Val.r(F(it, me, self.k.list)))
        key = it.to_val(a['key']) if 'key' in a else Val.VNone
        return z3.If(self.falsy(key), e, FILT(e, Val.s(key)))

    @staticmethod
    def falsy(key):
        return z3.Or(Val.is_VNone(key), Val.s(key) == z3.StringVal(''))

    def machines_for(self, it, seq, length, node, env, is_while):
        return [Instrs(it, seq)]

    def post(self, it, a, out, pre):
        p, me, k = it.p, a['self'].t, self.k
        key = it.to_val(a['key']) if 'key' in a else Val.VNone
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        L = self.matching(it, a)
        n = z3.Length(L)
        if self.required == 'parameter':
            r = it.to_val(a['required'])
            required, optional, plain = r == Val.VBool(TRUE), r == Val.VBool(FALSE), Val.is_VNone(r)
        else:
            required, optional, plain = (z3.BoolVal(self.required is y) for y in (True, False, None))
        always = F(it, me, k.required) == Val.VBool(TRUE)
        kind = self.kind
        res = touched(it, a)
        el = Val.r(L[0])
        ex = Val.r(F(it, el, '_instruction'))
        if kind in KINDS:
            cls, tag, types = KINDS[kind]
            fits = type_in(it, ex, *types)
            child = '_' + kind
            with at_pre(it, pre):
                other = z3.And(p.has('_yielded', el), z3.Not(p.has(child, el)))
        else:
            fits, other = TRUE, FALSE
        name = 'fieldset_entry' if kind == 'entry' else kind
        if out.kind == 'return':
            v = it.force(out.value)
            if isinstance(v, Const) and v.py is None:
                return res + [('nothing-only-if-optional-and-absent', z3.And(n == 0, optional, z3.Not(always)))]
            if isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes[0] in MISSING:
                return res + [('proxy-only-if-plain-and-absent', z3.And(n == 0, plain, z3.Not(always))), ('proxy-kind', z3.BoolVal(v.typ.classes[0] is M[kind])),
                              ('proxy', z3.And(v.t < 0, F(it, v.t, '_key') == key, F(it, v.t, '_parent') == Val.VRef(me)))]
            if not isinstance(v, Ref):
                return res + [('result', FALSE)]
            res.append(('the-one-match', z3.And(n == 1, fits, z3.Not(other))))
            if kind in KINDS:
                return res + [('result-kind', z3.BoolVal(isinstance(v.typ, TObj) and v.typ.classes == (cls,))), ('result', z3.And(p.has(child, el), F(it, el, child) == Val.VRef(v.t))),
                              ('result-instruction', F(it, v.t, '_instruction') == F(it, el, '_instruction')), ('result-parent', F(it, v.t, '_parent') == F(it, el, '_parent'))]
            return res + [('result', Val.VRef(v.t) == L[0])]
        if out.cls is TypeError:
            return res + [('already-another-kind', z3.And(n == 1, fits, other))]
        # a ValidationError: the one that fits the situation
        res.append(('error-only-if', z3.Or(z3.And(n == 0, z3.Or(required, always)), n > 1, z3.And(n == 1, z3.Not(fits)))))
        for cond, spec in [(n == 0, errs.missing_element(it, c, x, 'missing_' + name, key)), (n > 1, errs.unexpected_multiple(it, c, INSTRS(L), 'expected_single_' + name, key))] + \
                ([(z3.And(n == 1), errs.unexpected_element_type(it, c, ex, 'expected_' + name, key))] if kind in KINDS else []):
            if p.implied(z3.Not(cond)):
                continue
            res += when(cond, error_object(it, out.value, *spec))
        if out.cls is not ValidationError:
            res.append(('error-class', FALSE))
        return res


class All(Method):
    """elements() / entries(): all of them, in order."""
    props = ('C12', 'C22')
    k = SEC

    def frame_of(self, it, a):
        return {'_touched': only('self'), self.k.list: only('self'), self.k.index: only('self')}

    def post(self, it, a, out, pre):
        me = a['self'].t
        e = it.p.seq(Val.r(F(it, me, self.k.list)))
        key = it.to_val(a['key'])
        L = z3.If(Query.falsy(key), e, FILT(e, Val.s(key)))
        v = out.value if out.kind == 'return' else None
        ok = isinstance(v, Ref) and isinstance(v.typ, TList)
        return touched(it, a) + [('all-with-that-key', it.p.seq(v.t) == L if ok else FALSE)]


def uses():
    return elements.assumed() + [Getter(SEC), Getter(FSET)]


def contracts():
    out = []
    for kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
        out.append(Query(cls=Section, name='_' + kind, kind=kind, args={'key': KEY, 'required': TOpt(TBool())}))
        out.append(Query(cls=Section, name=kind, kind=kind, args={'key': KEY}, required=None))
        out.append(Query(cls=Section, name='optional_' + kind, kind=kind, args={'key': KEY}, required=False))
        out.append(Query(cls=Section, name='required_' + kind, kind=kind, args={'key': KEY}, required=True))
    out.append(Query(cls=Fieldset, name='_entry', kind='entry', k=FSET, args={'key': KEY, 'required': TOpt(TBool())}))
    out.append(Query(cls=Fieldset, name='entry', kind='entry', k=FSET, args={'key': KEY}, required=None))
    out.append(Query(cls=Fieldset, name='optional_entry', kind='entry', k=FSET, args={'key': KEY}, required=False))
    out.append(Query(cls=Fieldset, name='required_entry', kind='entry', k=FSET, args={'key': KEY}, required=True))
    out.append(All(cls=Section, name='elements', args={'key': KEY}))
    out.append(All(cls=Fieldset, name='entries', k=FSET, args={'key': KEY}))
    return out
