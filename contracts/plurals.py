"""Queries for all elements of a kind, list items and their values (C12, C14, C22)."""
from .lib import *  # noqa: F401,F403
from pyvc.core import REGION
from .lib import Method, F, fref, M, T, TRUE, FALSE, type_in
from pyvc.loops import Machine
from . import errs, elements, queries
from .elements import KINDS, KEY, FN, VALUE, READ, Convert, ValueQuery, touched, calls
from .queries import SEC, FSET, Getter, Query

K = z3.Int('k!any')          # an arbitrary position


class Cast(Machine):
    """[to_kind(e) for e in elements]: position K of the result is what element K became."""

    def __init__(self, it, seq, kind):
        super().__init__('cast', seq, [], None, [])
        self.kind = kind

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        p, child = it.p, '_' + self.kind
        p.ghost['at'] = i
        e = Val.r(self.over[K])
        types = KINDS[self.kind][2]
        done = z3.And(K >= 0, K < i)
        out = [('fits', z3.Implies(done, type_in(it, fref(it, e, '_instruction'), *types))),
               ('converted', z3.Implies(done, z3.And(p.has(child, e), Val.is_VRef(F(it, e, child))))),
               ('yielded', z3.Implies(done, z3.And(p.has('_yielded', e), F(it, e, '_yielded') == Val.VConst(const_id(KINDS[self.kind][1])))))]
        for n, (how, t) in locs.items():
            if how == 'seq':
                nth_lemma(it, t, K)
                out.append((f'length {n[1]}', z3.Length(t) == i))
                out.append((f'element {n[1]}', z3.Implies(done, t[K] == F(it, e, child))))
        return out


class Plural(Query):
    """fields(), fieldsets(), lists(), sections(): all of them as that kind, in order; or the error of the first that is of another."""
    props = ('C12', 'C22', 'C17', 'C21', 'C23')
    concerns = {'C21': ('message-exists', 'message-arity')}

    def frame_of(self, it, a):
        return {'_touched': only('self'), self.k.list: only('self'), self.k.index: only('self'), '_yielded': None, '_' + self.kind: None}

    def machines_for(self, it, seq, length, node, env, is_while):
        return [Cast(it, seq, self.kind)]

    def post(self, it, a, out, pre):
        p, me = it.p, a['self'].t
        key = it.to_val(a['key'])
        c = fref(it, me, '_context')
        L = self.matching(it, a)
        n = z3.Length(L)
        e = Val.r(L[K])
        child, types = '_' + self.kind, KINDS[self.kind][2]
        within = z3.And(K >= 0, K < n)
        res = touched(it, a)
        if out.kind == 'return':
            v = out.value
            if not (isinstance(v, Ref) and isinstance(v.typ, TList)):
                return res + [('result', FALSE)]
            s = p.seq(v.t)
            return res + [('all-of-them', z3.Length(s) == n), ('in-order', z3.Implies(within, z3.And(p.has(child, e), s[K] == F(it, e, child)))),
                          ('compatible', z3.Implies(within, type_in(it, fref(it, e, '_instruction'), *types)))]
        i = p.ghost.get('at')
        if i is None:
            return res + [('error-only-for-an-element', FALSE)]
        bad = Val.r(L[i])
        x = fref(it, bad, '_instruction')
        fits = type_in(it, x, *types)
        res += [('error-about-one-of-them', z3.And(0 <= i, i < n)), ('those-before-fit', z3.Implies(z3.And(K >= 0, K < i), type_in(it, fref(it, e, '_instruction'), *types)))]
        if out.cls is TypeError:
            return res + [('already-another-kind', z3.And(fits, p.has('_yielded', bad), z3.Not(p.has(child, bad))))]
        return res + [('of-another-kind', z3.Not(fits))] + error_object(it, out.value, *errs.unexpected_element_type(it, c, x, f'expected_{self.kind}s', key))


# ---------------------------------------------------------------- list items
class Items(Method):
    """_items: builds the items once; afterwards returns the same ones."""
    inline = False
    cls, name = List, '_items'
    props = ('C12', 'C22')
    returns = TList(TObj(ListItem))
    frame = {'_instantiated_items': only('self')}

    def result(self, it, a):
        p, me = it.p, a['self'].t
        v = F(it, me, '_instantiated_items')
        p.assume(z3.And(p.has('_instantiated_items', me), Val.is_VRef(v), REGION(Val.r(v)) != 1))
        return Ref(Val.r(v), TList(TObj(ListItem)))

    def post(self, it, a, out, pre):
        me = a['self'].t
        with at_pre(it, pre):
            had, l0 = it.p.has('_instantiated_items', me), F(it, me, '_instantiated_items')
        return [('instantiated-once', z3.Implies(had, F(it, me, '_instantiated_items') == l0))]


def items_of(it, me):
    return it.p.seq(Val.r(F(it, me, '_instantiated_items')))


class AllItems(Method):
    """items() and length()."""
    cls = List
    props = ('C12', 'C22')
    frame = {'_touched': only('self'), '_instantiated_items': only('self')}

    def post(self, it, a, out, pre):
        s = items_of(it, a['self'].t)
        if out.kind != 'return':
            return [('returns', FALSE)]
        v = it.force(out.value)
        if self.name == 'length':
            return touched(it, a) + [('number-of-items', it.int_(v) == z3.Length(s))]
        return touched(it, a) + [('all-items', it.p.seq(v.t) == s if isinstance(v, Ref) and isinstance(v.typ, TList) else FALSE)]


class Loaded(Machine):
    """The loader is called once per item that has a value, with it; its results are collected in order."""

    def __init__(self, it, seq, a, required):
        super().__init__('loaded', seq, [z3.Empty(SeqVal)], None, ['acc'])
        self.a, self.required = a, required

    def step(self, it, g, x, i, seq):
        p = it.p
        v = VALUE(fref(it, x.t, '_instruction'))
        absent = Val.is_VNone(v)
        made = calls(it)[p.ghost.get('calls before', 0):]
        if 'loader' not in self.a:
            p.prove('values.no-loader-called', z3.BoolVal(not made))
            got = v
        elif not made:
            p.prove('values.loader-called', absent)
            got = Val.VNone
        else:
            p.prove('values.loader-called-once-with-the-value', z3.And(z3.BoolVal(len(made) == 1 and len(made[0][2]) == 1), made[0][1] == it.to_val(self.a['loader']),
                                                                       z3.Not(absent), made[0][2][0] == v))
            got = made[0][4] if made[0][3] == 'return' else Val.VNone
        if self.required:
            p.prove('values.required', z3.Not(absent))
        return [z3.Concat(g['acc'], z3.Unit(got))]

    def relate(self, it, state, locs, g, i):
        it.p.ghost['at'] = i
        it.p.ghost['acc'] = g['acc']
        it.p.ghost['calls before'] = len(calls(it))
        e = Val.r(self.over[K])
        me = self.a['self'].t
        return [('length', z3.Length(g['acc']) == i), ('self touched', z3.And(it.p.has('_touched', me), F(it, me, '_touched') == Val.VBool(TRUE))), ('touched', z3.Implies(z3.And(K >= 0, K < i), z3.And(it.p.has('_touched', e), F(it, e, '_touched') == Val.VBool(TRUE))))]


class Values(Method):
    """optional_values / required_values and their string variants."""
    cls = List
    props = ('C12', 'C14', 'C22', 'C17', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    raises = (ValidationError, OtherError)
    required = False

    def frame_of(self, it, a):
        return {**READ, '_touched': None, '_instantiated_items': only('self')}

    def machines_for(self, it, seq, length, node, env, is_while):
        return [Loaded(it, seq, self.a, self.required)]

    def post(self, it, a, out, pre):
        p, me = it.p, a['self'].t
        c = fref(it, me, '_context')
        s = items_of(it, me)
        res = touched(it, a)
        i = p.ghost.get('at')
        if i is None:
            return res + [('queries-the-items', FALSE)]
        if out.kind == 'return':
            v = out.value
            if not (isinstance(v, Ref) and isinstance(v.typ, TList)):
                return res + [('result', FALSE)]
            return res + [('one-per-item', z3.Length(p.seq(v.t)) == z3.Length(s)), ('results-in-order', p.seq(v.t) == p.ghost['acc']),
                          ('items-touched', z3.Implies(z3.And(K >= 0, K < z3.Length(s)), p.has('_touched', Val.r(s[K]))))]
        item = Val.r(s[i])
        x = fref(it, item, '_instruction')
        v = VALUE(x)
        res.append(('error-about-an-item', z3.And(0 <= i, i < z3.Length(s))))
        ci = fref(it, item, '_context')
        made = calls(it)[p.ghost.get('calls before', 0):]
        if not made:
            return res + [('raises-only-if-absent', z3.And(Val.is_VNone(v), z3.BoolVal(self.required)))] + error(it, out, ValidationError, *errs.missing_value(it, ci, x))
        k = made[-1]
        res.append(('loader-called-once-with-the-value', z3.And(z3.BoolVal(len(made) == 1 and len(k[2]) == 1 and 'loader' in a), z3.Not(Val.is_VNone(v)), k[2][0] == v)))
        if k[3] == 'ValueError':
            return res + error(it, out, ValidationError, *errs.value_error(it, ci, x, Val.VRef(k[4])))
        return res + [('other-exceptions-pass', out.value.t == k[4] if k[3] != 'return' and out.cls is OtherError else FALSE)]


class Used(Convert):
    """The conversion as used by callers."""
    inline = False

    def result(self, it, a):
        return it.typed(it.p.fresh('ret', Val), TObj(KINDS[self.kind][0]))

    def post(self, it, a, out, pre):
        if out.kind == 'return':
            return super().post(it, a, out, pre)
        # what of the proved contract a caller needs to know of the exceptions
        me, f = a['self'].t, '_' + self.kind
        fits = type_in(it, fref(it, me, '_instruction'), *KINDS[self.kind][2])
        with at_pre(it, pre):
            had, yielded = it.p.has(f, me), it.p.has('_yielded', me)
        why = z3.And(yielded, z3.Not(had)) if out.cls is TypeError else z3.And(z3.Not(had), z3.Not(fits))
        return [('why', why), ('unchanged', z3.And(it.p.has('_yielded', me) == yielded, it.p.has(f, me) == had))]


def uses():
    out = queries.uses() + [Items()]
    for k in KINDS:
        out.append(Used(cls=SectionElement, name='to_' + k, kind=k))
    return out


def contracts():
    out = []
    for kind in ('field', 'fieldset', 'list', 'section'):
        out.append(Plural(cls=Section, name=kind + 's', kind=kind, args={'key': KEY}))
    for n in ('items', 'length'):
        out.append(AllItems(name=n))
    for n, args, req in (('optional_values', {'loader': FN}, False), ('required_values', {'loader': FN}, True), ('optional_string_values', {}, False), ('required_string_values', {}, True)):
        out.append(Values(name=n, args=args, required=req))
    return out
