"""What has been read, and requiring all elements: operations on everything below an element (C15, C16, C22).

Everything is stated about an arbitrary object D: relations BELOW say whether D belongs to what lies below
an element, unfolded one level per function; a callee's contract speaks about the same D.
"""
from .lib import *  # noqa: F401,F403
from pyvc.core import REGION
from .lib import Method, F, fref, M, T, TRUE, FALSE, type_in
from pyvc.loops import Machine
from .world import ELEMENT_TYPES
from . import errs, elements, queries, plurals
from .elements import KINDS, KEY, FN, calls
from .queries import SEC, FSET, Getter
from .plurals import Items

D = z3.Int('d!any')
RS = z3.Function('requires_sections', I, I, B)      # section D lies at or below section x
RF = z3.Function('requires_fieldsets', I, I, B)     # fieldset D lies below section x
TB = z3.Function('touches', I, I, B)                # touching x touches D
UB = z3.Function('in_scope', I, I, B)               # D must have been read for x to count as touched
AT = {r: z3.Function('at_' + r.name(), I, I, I) for r in (RS, RF, TB, UB)}     # (x, D) -> position of the element D lies below


class Over(Machine):
    """A loop over elements, about the object D."""

    def __init__(self, it, me, seq, relation, lies, invariant):
        super().__init__('below', seq, [], None, [])
        self.me, self.relation, self.lies, self.invariant = me, relation, lies, invariant
        self.w = AT[relation](me, D)

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        n = z3.Length(self.over)
        r = Val.r(self.over[i])
        # every element's contribution belongs to the relation
        it.p.assume(z3.Implies(z3.And(i >= 0, i < n, self.lies(it, r)), self.relation(self.me, D)))
        it.p.ghost['position'] = i
        return self.invariant(it, i, z3.And(0 <= self.w, self.w < i, self.lies(it, Val.r(self.over[self.w]))))


def section_child(it, rel):
    def lies(it, e):
        p = it.p
        return z3.And(p.has('_section', e), rel(Val.r(F(it, e, '_section')), D))
    return lies


class Whole(Method):
    """Shared by the operations: unfolds the relations and names the sequence the loop goes over."""
    relations = ()
    inline = False
    lists = None

    def machines_for(self, it, seq, length, node, env, is_while):
        me = self.a['self'].t
        if self.lists is None or seq is None:
            return []
        v = F(it, me, self.lists)
        it.p.prove('goes-over-all-elements', z3.And(it.p.has(self.lists, me), seq == it.p.seq(Val.r(v))))
        it.p.ghost['over'] = seq
        return [Over(it, me, seq, rel, lies, inv) for rel, lies, inv in self.about(it)]

    def unfold(self, it, rel, lies, base):
        """rel(self, D) as the loop's sequence makes it up."""
        me, seq = self.a['self'].t, it.p.ghost.get('over')
        if seq is None:
            return
        w = AT[rel](me, D)
        it.p.assume(rel(me, D) == z3.Or(base, z3.And(0 <= w, w < z3.Length(seq), lies(it, Val.r(seq[w])))))


ANY_LISTS = {n: None for n in ('_instantiated_elements', '_instantiated_elements_map', '_instantiated_entries', '_instantiated_entries_map', '_instantiated_items')}


class RequireEntries(Method):
    cls, name = Fieldset, 'all_entries_required'
    inline = False
    args = {'required': TBool()}
    frame = {'_all_entries_required': only('self')}
    props = ('C16', 'C22')

    def post(self, it, a, out, pre):
        me = a['self'].t
        return [('returns-nothing', returned(it, out, Val.VNone)), ('set', z3.And(it.p.has('_all_entries_required', me), F(it, me, '_all_entries_required') == it.to_val(a['required'])))]


class RequireAll(Whole):
    """Every section and fieldset below gets the requirement; nothing else does."""
    cls, name = Section, 'all_elements_required'
    args = {'required': TBool()}
    frame = {'_all_elements_required': None, '_all_entries_required': None, **ANY_LISTS}
    props = ('C16', 'C22')
    lists = '_instantiated_elements'
    maintains = ()

    def fieldset_lies(self, it, e):
        p = it.p
        return z3.Or(z3.And(p.has('_section', e), RF(Val.r(F(it, e, '_section')), D)), z3.And(z3.Not(p.has('_section', e)), p.has('_fieldset', e), Val.r(F(it, e, '_fieldset')) == D))

    def about(self, it):
        me, p = self.a['self'].t, it.p
        req = it.to_val(self.a['required'])
        pre = self.pre_heap

        def inv(field, base, rel):
            def f(it, i, seen):
                with at_pre(it, pre):
                    was = F(it, D, field)
                now = F(it, D, field)
                return [(field, z3.Implies(z3.Or(base, seen), now == req)), ('not ' + field, z3.Implies(z3.Not(rel(me, D)), now == was))]
            return f
        return [(RS, section_child(it, RS), inv('_all_elements_required', me == D, RS)), (RF, self.fieldset_lies, inv('_all_entries_required', FALSE, RF))]

    def axioms(self, it, a):
        return [RS(a['self'].t, a['self'].t), z3.Implies(a['self'].t == D, RS(a['self'].t, D))]

    def post(self, it, a, out, pre):
        me = a['self'].t
        req = it.to_val(a['required'])
        if out.kind == 'return':
            self.a = a if not hasattr(self, 'a') else self.a
            if it.contract is self and a is self.a:
                self.unfold(it, RS, section_child(it, RS), me == D)
                self.unfold(it, RF, self.fieldset_lies, FALSE)
        with at_pre(it, pre):
            s0, f0 = F(it, D, '_all_elements_required'), F(it, D, '_all_entries_required')
        s1, f1 = F(it, D, '_all_elements_required'), F(it, D, '_all_entries_required')
        return [('returns-nothing', returned(it, out, Val.VNone)), ('sections-below', z3.Implies(RS(me, D), s1 == req)), ('fieldsets-below', z3.Implies(RF(me, D), f1 == req)),
                ('no-other-section', z3.Implies(z3.Not(RS(me, D)), s1 == s0)), ('no-other-fieldset', z3.Implies(z3.Not(RF(me, D)), f1 == f0))]


# ---------------------------------------------------------------- touch()
def touched_child(it, e):
    """Touching the section element e touches D."""
    p = it.p

    def c(f):
        return Val.r(F(it, e, f))
    return z3.And(p.has('_yielded', e), z3.Or(z3.And(p.has('_empty', e), c('_empty') == D), z3.And(p.has('_field', e), c('_field') == D),
                  *[z3.And(p.has(f, e), TB(c(f), D)) for f in ('_fieldset', '_list', '_section')]))


class TouchBelow(Whole):
    """touch(): everything obtained below is touched, nothing else is."""
    name = 'touch'
    frame = {'_touched': None, **ANY_LISTS}
    props = ('C15', 'C22')
    maintains = ()

    def lies(self, it, e):
        return e == D if self.cls is not Section else TB(e, D)

    def about(self, it):
        me, pre = self.a['self'].t, self.pre_heap

        def inv(it, i, seen):
            with at_pre(it, pre):
                had, was = it.p.has('_touched', D), F(it, D, '_touched')
            has, now = it.p.has('_touched', D), F(it, D, '_touched')
            return [('touched', z3.Implies(z3.Or(me == D, seen), z3.And(has, now == Val.VBool(TRUE)))), ('not touched', z3.Implies(z3.Not(TB(me, D)), z3.And(has == had, now == was)))]
        return [(TB, self.lies, inv)]

    def axioms(self, it, a):
        me = a['self'].t
        if self.cls in (SectionElement, Element):
            return [TB(me, D) == touched_child(it, me)]
        return [z3.Implies(me == D, TB(me, D))]

    def post(self, it, a, out, pre):
        me = a['self'].t
        if it.contract is self and a is self.a and self.lists:
            self.unfold(it, TB, self.lies, me == D)
        with at_pre(it, pre):
            had, was = it.p.has('_touched', D), F(it, D, '_touched')
        has, now = it.p.has('_touched', D), F(it, D, '_touched')
        return [('returns-nothing', returned(it, out, Val.VNone)), ('all-below-touched', z3.Implies(TB(me, D), z3.And(has, now == Val.VBool(TRUE)))),
                ('nothing-else', z3.Implies(z3.Not(TB(me, D)), z3.And(has == had, now == was)))]


# ---------------------------------------------------------------- what is untouched
def fine(it, d):
    """d has been read (a section element: has been queried as some kind)."""
    p = it.p
    element = z3.Or([CLS(d) == const_id(c) for c in (SectionElement, Element)])
    return z3.If(element, p.has('_yielded', d), p.has('_touched', d))


def scope_child(it, e, d):
    p = it.p

    def c(f):
        return Val.r(F(it, e, f))
    return z3.Or(e == d, z3.And(p.has('_empty', e), c('_empty') == d), z3.And(p.has('_field', e), c('_field') == d),
                 *[z3.And(p.has(f, e), UB(c(f), d)) for f in ('_fieldset', '_list', '_section')])


class Untouched(Whole):
    """_untouched(): something false if all in scope has been read, otherwise the instruction of something that has not."""
    name = '_untouched'
    frame = {**ANY_LISTS}
    props = ('C15', 'C22')
    maintains = ()
    returns = TUnion(TNone(), TEnum(False), INSTR)

    def lies(self, it, e, d=D):
        return e == d if self.cls is not Section else UB(e, d)

    def about(self, it):
        def inv(it, i, seen):
            return [('read', z3.Implies(seen, fine(it, D)))]
        return [(UB, self.lies, inv)]

    def axioms(self, it, a):
        me = a['self'].t
        out = [UB(me, me), z3.Implies(me == D, UB(me, D))]
        if self.cls in (SectionElement, Element):
            out += [UB(me, D) == scope_child(it, me, D)]
        return out

    def post(self, it, a, out, pre):
        p, me = it.p, a['self'].t
        mine = it.contract is self and a is self.a
        if out.kind != 'return':
            return [('returns', FALSE)]
        t = it.to_val(out.value)
        none = z3.Or(Val.is_VNone(t), t == Val.VBool(FALSE))
        # the document's own instruction is only returned for the document
        nested = ('below-is-no-document', z3.Implies(z3.Not(none), z3.Or(z3.And(self.cls is Section, t == F(it, me, '_instruction')), type_in(it, Val.r(t), *(x for x in ELEMENT_TYPES if x is not T.DOCUMENT)))))
        if not mine:
            w = p.fresh('untouched', I)
            p.ghost['untouched'] = w
            return [('all-read', z3.Implies(z3.And(none, UB(me, D)), fine(it, D))),
                    ('something-unread', z3.Implies(z3.Not(none), z3.And(UB(me, w), z3.Not(fine(it, w)), t == F(it, w, '_instruction')))), nested]
        if self.lists:
            self.unfold(it, UB, self.lies, me == D)
        seq = p.ghost.get('over')
        ws = [me] + ([p.ghost['untouched']] if 'untouched' in p.ghost else [])
        if self.cls in (SectionElement, Element):
            for f in ('_empty', '_field', '_fieldset', '_list', '_section'):
                ws.append(Val.r(F(it, me, f)))
            for w in ws:
                p.assume(z3.Implies(scope_child(it, me, w), UB(me, w)))
        firsts = [k for n, k in p.ghost.items() if isinstance(n, tuple) and n[0] == 'first']
        if self.lists and p.has(self.lists, me) is not None:
            items = p.seq(Val.r(F(it, me, self.lists)))
            ws += [Val.r(items[k]) for k in firsts]
            if seq is None:
                # no loop: the list itself is searched
                w = AT[UB](me, D)
                kind = {List: ListItem, Fieldset: FieldsetEntry, Section: SectionElement}[self.cls]
                if p.decide(z3.And(0 <= w, w < z3.Length(items))):
                    it.typed(z3.simplify(items[w]), TObj(kind))
                p.assume(UB(me, D) == z3.Or(me == D, z3.And(0 <= w, w < z3.Length(items), self.lies(it, Val.r(items[w])))))
                seq = items
        if seq is not None:
            at = p.ghost.get('position')
            for w in ws:
                for k in firsts + ([at] if at is not None else []):
                    p.assume(z3.Implies(z3.And(0 <= k, k < z3.Length(seq), self.lies(it, Val.r(seq[k]), w)), UB(me, w)))
        return [('all-read', z3.Implies(z3.And(none, UB(me, D)), fine(it, D))),
                ('something-unread', z3.Implies(z3.Not(none), z3.Or([z3.And(UB(me, w), z3.Not(fine(it, w)), t == F(it, w, '_instruction')) for w in ws]))), nested]


# ---------------------------------------------------------------- assert_all_touched()
KEY0 = z3.String('key!any')            # an arbitrary key and position among the elements with it
Q = z3.Int('q!any')
PK = z3.Int('position of key!any')


class Keys(Machine):
    """The loop over the keys: those before i are read as far as they are in scope."""

    def __init__(self, it, seq, c):
        super().__init__('keys', seq, [], None, [])
        self.c = c

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        return [('read', z3.Implies(z3.And(0 <= PK, PK < i, self.c.covers(it)), fine(it, D)))]


class Bucket(Machine):
    """The loop over the elements with a key."""

    def __init__(self, it, seq, c):
        super().__init__('bucket', seq, [], None, [])
        self.c = c

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        it.p.ghost['position'] = i
        return [('read', z3.Implies(z3.And(0 <= Q, Q < i, Q < z3.Length(self.over), self.c.lies(it, Val.r(self.over[Q]), D)), fine(it, D)))]


class AssertTouched(Method):
    name = 'assert_all_touched'
    props = ('C15', 'C22', 'C17', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    maintains = ()
    frame = {**ANY_LISTS}
    raises = (ValidationError, ValueError, OtherError)
    k = SEC
    message = None
    merge_tests = True

    def setup(self, it):
        a = super().setup(it)
        if self.message != 'function':
            it.p.assume(z3.Not(z3.Function('callable', Val, B)(it.to_val(a['message']))))
        return a

    def lies(self, it, e, d):
        return UB(e, d) if self.k is SEC else e == d

    def scope(self, it, key):
        p, out = it.p, []
        for n in ('only', 'skip'):
            t = it.to_val(self.a[n])
            s = p.seq(Val.r(t))
            has = z3.Contains(s, z3.Unit(Val.VStr(key)))
            active = z3.And(z3.Not(Val.is_VNone(t)), z3.Length(s) > 0)
            out.append(z3.Implies(active, has if n == 'only' else z3.Not(has)))
        return z3.And(out)

    def covers(self, it):
        """Position Q among the elements with KEY0, if that is in scope, has D in its scope."""
        p = it.p
        d, m = p.sel(p.arr('d'), p.ghost['index']), p.sel(p.arr('m'), p.ghost['index'])
        bucket = p.seq(Val.r(z3.Select(m, KEY0)))
        return z3.And(z3.Select(d, KEY0), self.scope(it, KEY0), 0 <= Q, Q < z3.Length(bucket), self.lies(it, Val.r(bucket[Q]), D))

    def machines_for(self, it, seq, length, node, env, is_while):
        p, me = it.p, self.a['self'].t
        if seq is None:
            return None
        if seq.sort() == z3.SeqSort(S):
            mr = p.ghost['index'] = Val.r(F(it, me, self.k.index))
            p.prove('goes-over-all-keys', z3.And(p.has(self.k.index, me), seq == p.sel(p.arr('k'), mr)))
            # a key of a dictionary is listed somewhere
            p.assume(z3.Implies(z3.Select(p.sel(p.arr('d'), mr), KEY0), z3.And(0 <= PK, PK < z3.Length(seq), seq[PK] == KEY0)))
            return [Keys(it, seq, self)]
        if 'index' not in p.ghost:
            return None
        p.ghost['bucket'] = seq
        return [Bucket(it, seq, self)]

    def post(self, it, a, out, pre):
        p, me = it.p, a['self'].t
        if out.kind == 'return':
            if 'index' not in p.ghost:
                return [('goes-over-the-index', FALSE)]
            return [('returns-nothing', returned(it, out, Val.VNone)), ('all-in-scope-read', z3.Implies(self.covers(it), fine(it, D)))]
        c = fref(it, me, '_context')
        seq, i = p.ghost.get('bucket'), p.ghost.get('position')
        if seq is None or i is None:
            return [('error-only-for-an-element', FALSE)]
        e = Val.r(seq[i])
        w = p.ghost.get('untouched', e)
        x = Val.r(F(it, w, '_instruction'))
        key = F(it, Val.r(F(it, e, '_instruction')), 'key')
        res = [('something-in-scope', z3.And(0 <= i, i < z3.Length(seq), self.lies(it, e, w))), ('that-was-not-read', z3.Not(fine(it, w)))]
        made = calls(it)
        message = it.to_val(a['message'])
        if self.message == 'function':
            if len(made) != 1:
                return res + [('message-function-called-once', FALSE)]
            arg = made[0][2][0]
            if self.k is SEC:
                about = z3.And(F(it, Val.r(arg), '_instruction') == Val.VRef(x), F(it, Val.r(arg), '_parent') == Val.VRef(me), CLS(Val.r(arg)) == const_id(Element))
            else:
                about = arg == Val.VRef(e)
            res.append(('message-function-argument', about))
            if made[0][3] != 'return':
                return res + [('exception-passes', out.value.t == made[0][4])]
            message = made[0][4]
        else:
            res.append(('message-is-no-function', z3.BoolVal(not made)))
        return res + error(it, out, ValidationError, *errs.unexpected_element(it, c, x, message))


def uses():
    out = queries.uses() + [Items(), RequireEntries(), RequireAll()]
    return out + below()


LISTS = {Section: '_instantiated_elements', Fieldset: '_instantiated_entries', List: '_instantiated_items'}


def below():
    out = []
    for cls in (Section, Fieldset, List, SectionElement):
        out.append(TouchBelow(cls=cls, lists=LISTS.get(cls)))
        out.append(Untouched(cls=cls, lists=LISTS.get(cls)))
    return out


def contracts():
    out = [RequireEntries(), RequireAll()] + below()
    for cls, k in ((Section, SEC), (Fieldset, FSET)):
        for kind, t in (('text', TOpt(TStr())), ('function', FN)):
            out.append(AssertTouched(cls=cls, k=k, message=kind, args={'message': t, 'only': TOpt(TList(TStr())), 'skip': TOpt(TList(TStr()))}, label=None))
            out[-1].label = f'{cls.__name__}.assert_all_touched({kind})'
    return out
