"""reporter.py: which lines are marked how (C18).

The table of marks (_snippet) is a map from lines to marks; what is proved is proved of the mark of an arbitrary line J0.
Every mark that is set is an obligation too (mark-inside): the line exists.
Assumed of parsed documents (evaluated by tools/assumptions.py): lines of instructions exist and follow each other as in
looking.py; LAST is the last line of an element with all that belongs to it.
"""
from .lib import *  # noqa: F401,F403
from pyvc.core import Opaque
from .lib import Contract, at_pre, only, T, TRUE, FALSE, type_in, inv_instr, sym_inv, INSTR
from .looking import LINE, Space, J0, K0, HEIGHT, MEMBERS
from .world import base_world
from pyvc.loops import Machine
from enolib.reporters import reporter as live, TextReporter, HtmlReporter
from pyvc.builtin import UF_ESC
from pyvc.interp import INT_STR

R = live.Reporter
Q = 'enolib.reporters.reporter:Reporter.'
MARKS = z3.Function('marks', I, z3.ArraySort(I, Val))
PRINTED = z3.Function('printed', I, S)
LAST = z3.Function('last_line', I, I)
TABLE = Opaque('marks')
CELL = ('v', '_marks')
FRAME = {CELL: only('self')}


class Marks:
    """self._snippet"""

    def setitem(self, it, o, k, v):
        i, c = self.index(it, k), it.contract
        it.p.prove('mark-inside', z3.And(0 <= i, i < count(it, c.me)))
        n = it.p.fresh('marks', I)
        it.p.assume(MARKS(n) == z3.Store(table(it, c.me), i, it.to_val(v)))
        it.p.put('v', '_marks', c.me, Val.VInt(n))

    def getitem(self, it, o, k):
        i, c = self.index(it, k), it.contract
        it.p.prove('mark-inside', z3.And(0 <= i, i < count(it, c.me)))
        return Dyn(z3.simplify(z3.Select(table(it, c.me), i)), TAny())

    def index(self, it, k):
        i = it.int_(k)
        n = z3.simplify(i)
        return count(it, it.contract.me) + i if z3.is_int_value(n) and n.as_long() < 0 else i

    def iterate(self, it, o):
        """Marks are read when the loop comes to them."""
        me = it.contract.me
        return count(it, me), lambda i: Dyn(z3.simplify(z3.Select(table(it, me), i)), TAny())


def table(it, me):
    return MARKS(Val.i(it.p.val('_marks', me)))


def mark(it, me, line=J0):
    return z3.Select(table(it, me), line)


def count(it, me):
    return Val.i(it.p.val('line_count', Val.r(it.p.val('_context', me))))


def tag(name):
    return Val.VStr(z3.StringVal(getattr(live, name)))


def line(it, r):
    return Val.i(it.p.val('line', r))


def world(w):
    w.opaque['marks'] = Marks()
    w.models['enolib.reporters.text_reporter.TextReporter._print'] = lambda it, args, kw: SS(PRINTED(Val.i(it.p.val('_marks', it.force(args[0]).t))))
    w.classes[R] = Schema('Reporter', {'_snippet': TEnum(TABLE), '_marks': TInt(), '_context': TObj(Context), '_index': TList(TOpt(LINE)), '_gutter_width': TInt()},
                          lambda it, r: [it.p.has(f, r) for f in ('_snippet', '_marks', '_context', '_index', '_gutter_width')])
    w.classes[TextReporter] = w.classes[HtmlReporter] = w.classes[R]
    for n in list(w.models):
        if n.startswith('enolib.reporters.reporter.Reporter.'):
            del w.models[n]
    return w


class Within(Space):
    """Lines that exist."""

    def __init__(self, it, me):
        super().__init__(it, 'line')
        self.me = me

    def well(self, r):
        for f in sym_inv(inv_instr)(self.it, r):
            self.p.assume(f)
        self.exists(r)

    def exists(self, r, ok=TRUE):
        self.p.assume(z3.Implies(z3.And(ok, z3.Not(type_in(self.it, r, T.DOCUMENT))), z3.And(self.p.has('line', r), 0 <= self.end(r), self.end(r) <= LAST(r), LAST(r) < count(self.it, self.me))))

    def members(self, r, f, *ks):
        """The members of a list have lines, one after the other."""
        if f == 'comments':
            s = self.list(r, f)
            for k in ks:
                m = Val.r(s[k])
                self.p.assume(z3.Implies(z3.And(self.p.has(f, r), 0 <= k, k < z3.Length(s)), z3.And(Val.is_VRef(s[k]), m >= 0, self.p.has('line', m), Val.is_VInt(self.p.val('line', m)), 0 <= self.end(m), self.end(m) < count(self.it, self.me), z3.Implies(z3.Not(type_in(self.it, r, T.DOCUMENT)), self.end(m) != self.end(r)))))
            return
        self.follow(r, f, *ks)
        s = self.list(r, f)
        n = z3.Length(s)
        for k in [*ks, n - 1]:
            m = Val.r(s[k])
            ok = z3.And(self.p.has(f, r), 0 <= k, k < n)
            if f in ('continuations', 'lines'):
                self.p.assume(z3.Implies(ok, z3.And(self.p.has('line', m), self.end(r) < self.end(m), self.end(m) <= LAST(r))))
            else:
                self.exists(m, ok)
                self.p.assume(z3.Implies(z3.And(ok, z3.Not(type_in(self.it, r, T.DOCUMENT))), z3.And(self.end(r) < self.end(m), LAST(m) <= LAST(r))))
            if f in ('items', 'entries'):
                self.p.assume(z3.Implies(ok, LAST(m) == self.stop(m)))
        for a in ks:
            for b in ks:
                if a is not b and f not in ('continuations', 'lines'):
                    self.p.assume(z3.Implies(z3.And(self.p.has(f, r), 0 <= a, a < b, b < n), LAST(Val.r(s[a])) < self.end(Val.r(s[b]))))


class Scan(Machine):
    """The lines up to scan_line are marked."""
    kept = {}

    def __init__(self, it, c, owner, field, seq, inner=None):
        super().__init__('scan', seq, [], None, [])
        self.c, self.owner, self.field, self.inner = c, owner, field, inner

    def lemmas(self, it, g, i, seq, length):
        if self.inner is None:
            Within(it, self.c.me).members(self.owner, self.field, i, i - 1)
        return []

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        """Of any variable that may be the one that counts lines."""
        for key, (kind, t) in locs.items():
            if key[0] == 'local' and kind == 'val' and key[1] not in self.c.names:
                for n, f in self.counts(it, key[1], t, i):
                    yield f'{n}({key[1]})', z3.And(Val.is_VInt(t), f)

    def counts(self, it, name, v, i):
        c, at, first = self.c, Val.i(v), line(it, self.owner)
        yield 'after', at > first
        now = mark(it, c.me)
        yield 'marked', c.marked(it, now, c.before(it), z3.And(first < J0, J0 < at))
        if self.inner is None:
            s = self.over
            yield 'position', at == z3.If(i == 0, first + 1, c.past(it, Val.r(s[i - 1])))
            if self.field != 'continuations':
                yield 'bound', z3.Or(i == 0, at <= LAST(Val.r(s[i - 1])) + 1)
        else:
            yield 'up-to', at <= self.inner
            yield 'up-to-next', at <= self.inner + 1
            if name in self.kept:
                yield 'grows', at >= self.kept[name][0]
                yield 'kept', z3.Implies(J0 < self.kept[name][0], now == self.kept[name][1])


class Tagging(Contract):
    props = ('C18',)
    maintains = ()
    frame = FRAME
    returns = TInt()
    field = None

    def __init__(self, name, **args):
        self.target = Q + name
        try:
            code = self.fn().__code__
            self.names = code.co_varnames[:code.co_argcount]
        except (AttributeError, KeyError):
            self.names = ()
        self.args = {'self': TObj(R), **dict(zip(self.names[1:], (INSTR, *args.get('more', ()))))}

    def axioms(self, it, a):
        self.me = a['self'].t
        self.x = a[self.names[1]].t
        it.p.assume(z3.And(Val.is_VRef(it.p.val('_context', self.me)), Val.r(it.p.val('_context', self.me)) >= 0))
        self.start = dict(it.p.heap)
        self.tag = it.to_val(a['tag']) if 'tag' in a else None
        Within(it, self.me).well(self.x)
        return []

    def before(self, it):
        with at_pre(it, self.pre_heap):
            return mark(it, self.me)

    def marked(self, it, now, before, inside):
        return now == z3.If(inside, self.tag, before)

    def past(self, it, m):
        """The line after a member."""
        return line(it, m) + 1

    def field_of(self, a):
        return self.field

    def machines_for(self, it, seq, length, node, env, is_while):
        f = self.field_of(self.a)
        if is_while:
            m = self.current(it, env)
            if m is None:
                return None
            out = Scan(it, self, self.x, f, None, line(it, m))
            out.kept = {}
            e = env
            while e is not None:
                for n, v in e.vars.items():
                    if isinstance(v, (SI, Dyn)) or isinstance(v, Const) and isinstance(v.py, int):
                        try:
                            out.kept.setdefault(n, (Val.i(it.to_val(v)), mark(it, self.me)))
                        except Unsupported:
                            pass
                e = e.parent
            return [out]
        if seq is None or f is None:
            return None
        own = it.p.seq(Val.r(it.p.val(f, self.x)))
        if seq.eq(z3.simplify(own)) or not it.p.check(seq != own):
            return [Scan(it, self, self.x, f, seq)]
        return None

    def current(self, it, env):
        """The member being looked at: the record the enclosing loop is at."""
        e = env
        while e is not None:
            for n, v in e.vars.items():
                if isinstance(v, Ref) and isinstance(v.typ, TRec) and not v.t.eq(self.x) and n not in self.names:
                    return v.t
                if isinstance(v, Dyn) and isinstance(v.typ, TRec) and n not in self.names:
                    return Val.r(v.t)
            e = e.parent
        return None


class TagContinuations(Tagging):
    field = 'continuations'

    def __init__(self):
        super().__init__('_tag_continuations', more=(TStr(),))

    def pre(self, it, a):
        return [type_in(it, a[self.names[1]].t, T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY, T.EMPTY_ELEMENT)]

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.well(x)
        sp.members(x, 'continuations', z3.IntVal(0))
        v = it.to_val(out.value)
        with at_pre(it, pre):
            before = mark(it, me)
        end = z3.If(z3.And(it.p.has('continuations', x), z3.Length(sp.list(x, 'continuations')) > 0), sp.end(sp.last(x, 'continuations')), sp.end(x))
        return [('next-line', z3.And(Val.is_VInt(v), Val.i(v) == end + 1)),
                ('marks', mark(it, me) == z3.If(z3.And(sp.end(x) < J0, J0 <= end), it.to_val(a['tag']), before))]


class Point(Tagging):
    """One line is marked."""
    returns = TObj(R)

    def __init__(self, name, how):
        super().__init__(name)
        self.how = how

    def result(self, it, a):
        return a['self']

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        with at_pre(it, pre):
            before = mark(it, me)
        doc = type_in(it, x, T.DOCUMENT)
        return [('self', it.to_val(out.value) == Val.VRef(me)), ('marks', mark(it, me) == z3.If(z3.And(z3.Not(doc), J0 == line(it, x)), tag(self.how), before))]


class PointNoDocument(Point):
    def pre(self, it, a):
        return [z3.Not(type_in(it, a[self.names[1]].t, T.DOCUMENT))]


class TagContinuables(Tagging):
    def __init__(self, field):
        super().__init__('_tag_continuables', more=(Const(field), TStr()))
        self.label = f'{self.key()}({field})'

    def field_of(self, a):
        return it_const(a[self.names[2]])

    def pre(self, it, a):
        return [type_in(it, a[self.names[1]].t, {'items': T.LIST, 'entries': T.FIELDSET}[self.field_of(a)])]

    def past(self, it, m):
        return Within(it, self.me).stop(m) + 1

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x, f = a['self'].t, a[self.names[1]].t, self.field_of(a)
        sp = Within(it, me)
        sp.well(x)
        sp.members(x, f, z3.IntVal(0))
        v = it.to_val(out.value)
        with at_pre(it, pre):
            before = mark(it, me)
        end = z3.If(z3.And(it.p.has(f, x), z3.Length(sp.list(x, f)) > 0), sp.stop(sp.last(x, f)), sp.end(x))
        return [('next-line', z3.And(Val.is_VInt(v), Val.i(v) == end + 1)),
                ('marks', mark(it, me) == z3.If(z3.And(sp.end(x) < J0, J0 <= end), it.to_val(a['tag']), before))]


def it_const(v):
    return v.py if isinstance(v, Const) else z3.simplify(v.t).as_string()


class Lines(Machine):
    """The lines of a multiline field are marked one after the other."""

    def __init__(self, it, c, seq):
        super().__init__('lines', seq, [], None, [])
        self.c = c

    def lemmas(self, it, g, i, seq, length):
        sp = Within(it, self.c.me)
        sp.gapless(self.c.x, i)
        sp.members(self.c.x, 'lines', i)
        return []

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        first = line(it, self.c.x)
        how = self.c.tag if self.c.tag is not None else tag('EMPHASIZE')
        yield 'marked', mark(it, self.c.me) == z3.If(z3.And(first < J0, J0 <= first + i), how, self.c.before(it))


def gapless(sp, x, *ks):
    it, p = sp.it, sp.p
    n = z3.If(p.has('lines', x), z3.Length(sp.list(x, 'lines')), 0)
    multi = type_in(it, x, T.MULTILINE_FIELD_BEGIN)
    for k in ks:
        p.assume(z3.Implies(z3.And(multi, p.has('lines', x), 0 <= k, k < n), sp.end(Val.r(sp.list(x, 'lines')[k])) == sp.end(x) + 1 + k))
    e = Val.r(p.val('end', x))
    p.assume(z3.Implies(multi, z3.And(LAST(x) == sp.end(x) + n + z3.If(p.has('end', x), 1, 0),
                                      z3.Implies(p.has('end', x), z3.And(Val.is_VRef(p.val('end', x)), e >= 0, p.has('line', e), Val.is_VInt(p.val('line', e)), sp.end(e) == LAST(x))),
                                      z3.Implies(p.has('lines', x), n > 0))))


Within.gapless = gapless


def known(sp, x):
    """The last line of an element that is no section."""
    it, p = sp.it, sp.p
    sp.well(x)
    for f in ('items', 'entries', 'continuations'):
        sp.members(x, f, z3.IntVal(0))
    n = z3.If(p.has('lines', x), z3.Length(sp.list(x, 'lines')), 0)
    sp.gapless(x, z3.IntVal(0), n - 1)

    def end(f, stop):
        return z3.If(z3.And(p.has(f, x), z3.Length(sp.list(x, f)) > 0), stop(sp.last(x, f)), sp.end(x))
    p.assume(z3.Implies(type_in(it, x, T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY), LAST(x) == end('continuations', sp.end)))
    p.assume(z3.Implies(type_in(it, x, T.LIST), LAST(x) == end('items', sp.stop)))
    p.assume(z3.Implies(type_in(it, x, T.FIELDSET), LAST(x) == end('entries', sp.stop)))
    p.assume(z3.Implies(type_in(it, x, T.EMPTY_ELEMENT), LAST(x) == sp.end(x)))


Within.known = known


def either(it, now, how):
    return z3.Or(now == tag('INDICATE'), now == how)


class TagElement(Tagging):
    returns = TUnion(TNone(), TInt())

    def __init__(self):
        super().__init__('_tag_element', more=(TStr(),))

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None or is_while:
            return None
        own = it.p.seq(Val.r(it.p.val('lines', self.x)))
        if seq.eq(z3.simplify(own)) or not it.p.check(seq != own):
            return [Lines(it, self, seq)]
        return None

    def axioms(self, it, a):
        super().axioms(it, a)
        Within(it, self.me).known(self.x)
        return []

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.known(x)
        v = it.to_val(out.value)
        how = it.to_val(a['tag'])
        with at_pre(it, pre):
            before = mark(it, me)
        now = mark(it, me)
        doc, sec = type_in(it, x, T.DOCUMENT), type_in(it, x, T.SECTION)
        plain = z3.Not(z3.Or(doc, sec))
        below = z3.And(sp.end(x) < J0, J0 < Val.i(v))
        return [('document', z3.Implies(doc, z3.And(Val.is_VNone(v), now == before))),
                ('next-line', z3.Implies(plain, z3.And(Val.is_VInt(v), Val.i(v) == LAST(x) + 1))),
                ('marks', z3.Implies(plain, now == z3.If(below, how, before))),
                ('next-line-section', z3.Implies(sec, z3.And(Val.is_VInt(v), sp.end(x) < Val.i(v), Val.i(v) <= LAST(x) + 1))),
                ('marks-section', z3.Implies(sec, z3.If(below, either(it, now, how), now == before)))]


class ScanSection(Scan):
    def lemmas(self, it, g, i, seq, length):
        if self.inner is None:
            sp = Within(it, self.c.me)
            sp.members(self.owner, 'elements', i, i - 1, K0)
        return []

    def relate(self, it, state, locs, g, i):
        yield from super().relate(it, state, locs, g, i)
        if self.inner is None:
            m = Val.r(self.over[K0])
            yield 'members', z3.Implies(z3.And(0 <= K0, K0 < i, J0 == line(it, m)), mark(it, self.c.me) == tag('INDICATE'))

    def counts(self, it, name, v, i):
        for n, f in super().counts(it, name, v, i):
            if n != 'position':
                yield n, f
        if self.inner is None:
            yield 'start', z3.Or(i != 0, Val.i(v) == line(it, self.owner) + 1)
            yield 'behind', z3.Or(i == 0, Val.i(v) > line(it, Val.r(self.over[i - 1])))


class TagSection(Tagging):
    field = 'elements'

    def __init__(self):
        super().__init__('_tag_section', more=(TStr(), TBool()))

    def pre(self, it, a):
        return [type_in(it, a[self.names[1]].t, T.SECTION)]

    def marked(self, it, now, before, inside):
        return z3.If(inside, either(it, now, self.tag), now == before)

    def machines_for(self, it, seq, length, node, env, is_while):
        out = super().machines_for(it, seq, length, node, env, is_while)
        if out is None:
            return None
        new = [ScanSection(it, self, m.owner, m.field, m.over, m.inner) for m in out]
        for n, m in zip(new, out):
            n.kept = m.kept
        return new

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.well(x)
        sp.members(x, 'elements', K0)
        v = it.to_val(out.value)
        how = it.to_val(a['tag'])
        with at_pre(it, pre):
            before = mark(it, me)
        now = mark(it, me)
        s = sp.list(x, 'elements')
        deep = it.truth(a['recursive']) if hasattr(it, 'truth') else Val.b(it.to_val(a['recursive']))
        return [('next-line', z3.And(Val.is_VInt(v), sp.end(x) < Val.i(v), Val.i(v) <= LAST(x) + 1)),
                ('marks', z3.If(z3.And(sp.end(x) < J0, J0 < Val.i(v)), either(it, now, how), now == before)),
                ('members', z3.Implies(z3.And(deep, 0 <= K0, K0 < z3.Length(s), J0 == line(it, Val.r(s[K0]))), now == tag('INDICATE')))]


class ReportElement(Point):
    def __init__(self):
        super().__init__('report_element', 'EMPHASIZE')

    def axioms(self, it, a):
        super().axioms(it, a)
        Within(it, self.me).known(self.x)
        return []

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.known(x)
        with at_pre(it, pre):
            before = mark(it, me)
        now = mark(it, me)
        doc, sec = type_in(it, x, T.DOCUMENT), type_in(it, x, T.SECTION)
        some = z3.Not(doc)
        return [('self', it.to_val(out.value) == Val.VRef(me)), ('document', z3.Implies(doc, now == before)),
                ('own-line', z3.Implies(z3.And(some, J0 == sp.end(x)), now == tag('EMPHASIZE'))),
                ('below', z3.Implies(z3.And(some, z3.Not(sec), sp.end(x) < J0, J0 <= LAST(x)), now == tag('INDICATE'))),
                ('below-section', z3.Implies(z3.And(sec, sp.end(x) < J0), z3.Or(now == tag('INDICATE'), now == before))),
                ('elsewhere', z3.Implies(z3.And(some, z3.Or(J0 < sp.end(x), J0 > LAST(x))), now == before))]


class ReportMissing(Point):
    def __init__(self):
        super().__init__('report_missing_element', 'INDICATE')

    def axioms(self, it, a):
        super().axioms(it, a)
        Within(it, self.me).known(self.x)
        return []

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.known(x)
        with at_pre(it, pre):
            before = mark(it, me)
        now = mark(it, me)
        doc, sec = type_in(it, x, T.DOCUMENT), type_in(it, x, T.SECTION)
        some = z3.Not(doc)
        return [('self', it.to_val(out.value) == Val.VRef(me)), ('document', z3.Implies(doc, now == before)),
                ('own-line', z3.Implies(z3.And(some, J0 == sp.end(x)), now == tag('INDICATE'))),
                ('below', z3.Implies(z3.And(some, z3.Not(sec), sp.end(x) < J0, J0 <= LAST(x)), now == tag('QUESTION'))),
                ('below-section', z3.Implies(z3.And(sec, sp.end(x) < J0), z3.Or(now == tag('INDICATE'), now == tag('QUESTION'), now == before))),
                ('elsewhere', z3.Implies(z3.And(some, z3.Or(J0 < sp.end(x), J0 > LAST(x))), now == before))]


class ReportLines(Point):
    def __init__(self):
        super().__init__('report_multiline_value', 'EMPHASIZE')

    def pre(self, it, a):
        x = a[self.names[1]].t
        return [type_in(it, x, T.MULTILINE_FIELD_BEGIN), it.p.has('lines', x)]

    machines_for = TagElement.machines_for

    def axioms(self, it, a):
        super().axioms(it, a)
        Within(it, self.me).known(self.x)
        return []

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        sp.gapless(x, K0)
        with at_pre(it, pre):
            before = mark(it, me)
        return [('self', it.to_val(out.value) == Val.VRef(me)),
                ('marks', mark(it, me) == z3.If(z3.And(sp.end(x) < J0, J0 <= sp.end(x) + z3.Length(sp.list(x, 'lines'))), tag('EMPHASIZE'), before))]


class Among(Machine):
    """Comments are marked one after the other; g says whether J0 was one of them."""

    def __init__(self, it, c, seq, base):
        super().__init__('among', seq, [FALSE], None, ['seen'])
        self.c, self.base = c, base

    def lemmas(self, it, g, i, seq, length):
        Within(it, self.c.me).members(self.c.x, 'comments', i, K0)
        return []

    def step(self, it, g, x, i, seq):
        return [z3.Or(g['seen'], line(it, Val.r(seq[i])) == J0)]

    def relate(self, it, state, locs, g, i):
        seen = g['seen']
        yield 'marked', mark(it, self.c.me) == z3.If(seen, tag('EMPHASIZE'), self.base)
        yield 'other', z3.Implies(seen, J0 != line(it, self.c.x))
        yield 'all', z3.Implies(z3.And(0 <= K0, K0 < i, line(it, Val.r(self.over[K0])) == J0), seen)


class ReportComments(Point):
    def __init__(self):
        super().__init__('report_comments', 'INDICATE')

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None or is_while:
            return None
        own = it.p.seq(Val.r(it.p.val('comments', self.x)))
        if seq.eq(z3.simplify(own)) or not it.p.check(seq != own):
            return [Among(it, self, seq, mark(it, self.me))]
        return None

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        me, x = a['self'].t, a[self.names[1]].t
        sp = Within(it, me)
        with at_pre(it, pre):
            before = mark(it, me)
        now = mark(it, me)
        doc = type_in(it, x, T.DOCUMENT)
        s = sp.list(x, 'comments')
        return [('self', it.to_val(out.value) == Val.VRef(me)), ('document', z3.Implies(doc, now == before)),
                ('own-line', z3.Implies(z3.And(z3.Not(doc), J0 == sp.end(x)), now == tag('INDICATE'))),
                ('comments', z3.Implies(z3.And(z3.Not(doc), it.p.has('comments', x), 0 <= K0, K0 < z3.Length(s), J0 == line(it, Val.r(s[K0]))), now == tag('EMPHASIZE'))),
                ('elsewhere', z3.Implies(J0 != sp.end(x), z3.Or(now == before, now == tag('EMPHASIZE'))))]


class EachElement(Machine):
    """The lines of the elements so far are emphasized."""

    def __init__(self, it, c, seq):
        super().__init__('each', seq, [], None, [])
        self.c = c

    def lemmas(self, it, g, i, seq, length):
        sp = Within(it, self.c.me)
        n = z3.Length(seq)
        for k in (i, K0):
            m = Val.r(seq[k])
            for f in sym_inv(inv_instr)(it, m):
                it.p.assume(z3.Implies(z3.And(0 <= k, k < n), f))
            ok = z3.And(0 <= k, k < n)
            it.p.assume(z3.Implies(ok, z3.And(Val.is_VRef(seq[k]), m >= 0, type_in(it, m, *MEMBERS, T.FIELDSET_ENTRY, T.LIST_ITEM))))
            sp.exists(m, ok)
        # elements found by one query do not contain each other
        a, b = Val.r(seq[K0]), Val.r(seq[i])
        it.p.assume(z3.Implies(z3.And(0 <= K0, K0 < i, i < n), z3.Or(LAST(a) < sp.end(b), LAST(b) < sp.end(a))))
        return []

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        yield 'members', z3.Implies(z3.And(0 <= K0, K0 < i, J0 == line(it, Val.r(self.over[K0]))), mark(it, self.c.me) == tag('EMPHASIZE'))


class ReportElements(Contract):
    target = Q + 'report_elements'
    props = ('C18',)
    maintains = ()
    frame = FRAME
    returns = TObj(R)

    def __init__(self):
        try:
            self.names = self.fn().__code__.co_varnames[:2]
        except (AttributeError, KeyError):
            self.names = ('self', 'elements')
        self.args = {'self': TObj(R), self.names[1]: TList(INSTR)}

    def axioms(self, it, a):
        self.me, self.seq = a['self'].t, it.p.seq(a[self.names[1]].t)
        it.p.assume(z3.And(Val.is_VRef(it.p.val('_context', self.me)), Val.r(it.p.val('_context', self.me)) >= 0))
        return []

    def machines_for(self, it, seq, length, node, env, is_while):
        return [EachElement(it, self, seq)] if seq is not None and not is_while else None

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        return [('self', it.to_val(out.value) == Val.VRef(self.me)),
                ('members', z3.Implies(z3.And(0 <= K0, K0 < z3.Length(self.seq), J0 == line(it, Val.r(self.seq[K0]))), mark(it, self.me) == tag('EMPHASIZE')))]


class Filling(Machine):
    """Lines near a marked line are shown, others left out: line by line, whatever has been filled in before."""

    def __init__(self, it, c):
        super().__init__('filling', None, [], None, [])
        self.c = c
        self.start = table(it, c.me)

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        now, t0 = table(it, self.c.me), self.start
        j = z3.Int('j!fill')
        yield 'todo', z3.ForAll([j], z3.Implies(i <= j, z3.Select(now, j) == z3.Select(t0, j)))
        for n, k in (('done', J0), ('done-1', i - 1), ('done-2', i - 2)):
            yield n, z3.Implies(z3.And(0 <= k, k < i), z3.Select(now, k) == self.c.filled(it, t0, k))
        yield 'questioned', z3.Implies(z3.And(0 <= J0, J0 < i), z3.Select(now, J0) == tag('QUESTION'))


class Snippet(Contract):
    target = Q + 'snippet'
    ground_checks = True
    check_ms = 300
    parallel = 4
    time_limit = 400
    props = ('C18',)
    maintains = ()
    frame = FRAME
    args = {'self': TObj(TextReporter)}
    returns = TStr()

    def axioms(self, it, a):
        self.me = me = a['self'].t
        it.p.assume(z3.And(Val.is_VRef(it.p.val('_context', me)), Val.r(it.p.val('_context', me)) >= 0, count(it, me) >= 1))
        return []

    def pre(self, it, a):
        """A report is made of lines that are emphasized, indicated or questioned."""
        j = z3.Int('j!pre')
        x = z3.Select(table(it, a['self'].t), j)
        return [z3.ForAll([j], z3.Or([Val.is_VNone(x)] + [x == tag(n) for n in ('EMPHASIZE', 'INDICATE', 'QUESTION')]))]

    def marked(self, it, t, k):
        return z3.And(0 <= k, k < count(it, self.me), z3.Not(Val.is_VNone(z3.Select(t, k))))

    def near(self, it, t, k):
        return z3.Or([self.marked(it, t, k + d) for d in (-2, -1, 1, 2)])

    def filled(self, it, t, k):
        return z3.If(Val.is_VNone(z3.Select(t, k)), z3.If(self.near(it, t, k), tag('DISPLAY'), z3.If(self.marked(it, t, k + 3), tag('OMISSION'), Val.VNone)), z3.Select(t, k))

    def machines_for(self, it, seq, length, node, env, is_while):
        return None if is_while or seq is not None else [Filling(it, self)]

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        with at_pre(it, pre):
            t0 = table(it, self.me)
        n = count(it, self.me)
        now = mark(it, self.me)
        inside = z3.And(0 <= J0, J0 < n)
        j = z3.Int('j!post')
        none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), Val.is_VNone(z3.Select(t0, j))))
        was = z3.Select(t0, J0)
        some = z3.And(inside, z3.Not(none))
        return [('printed', it.to_val(out.value) == Val.VStr(PRINTED(Val.i(it.p.val('_marks', self.me))))),
                ('nothing-reported', z3.Implies(z3.And(inside, none), now == tag('QUESTION'))),
                ('reported-lines-stay', z3.Implies(z3.And(inside, z3.Not(Val.is_VNone(was))), now == was)),
                ('two-lines-around', z3.Implies(z3.And(some, Val.is_VNone(was), self.near(it, t0, J0)), now == tag('DISPLAY'))),
                ('no-others', z3.Implies(z3.And(some, Val.is_VNone(was), z3.Not(self.near(it, t0, J0))), z3.Or(Val.is_VNone(now), now == tag('OMISSION')))),
                ('omission-before', z3.Implies(z3.And(some, Val.is_VNone(was), z3.Not(self.near(it, t0, J0)), J0 + 1 < n), (now == tag('OMISSION')) == self.marked(it, t0, J0 + 3))),
                ('omission-at-the-end', z3.Implies(z3.And(some, Val.is_VNone(was), z3.Not(self.near(it, t0, J0)), J0 + 1 == n), now == tag('OMISSION')))]


class Line(Contract):
    """How a line is shown: with its number and its text."""
    props = ('C18',)
    maintains = ()
    returns = TStr()

    def __init__(self, target, cls, mark):
        self.target, self.kind, self.label = target, cls, f'{target.replace(":", ".")}({mark})'
        try:
            names = self.fn().__code__.co_varnames[:3]
        except (AttributeError, KeyError):
            names = ('self', 'line', 'tag')
        self.names = names
        self.args = {'self': TObj(cls), names[1]: TInt(), names[2]: Const(getattr(live, mark))}
        self.mark = mark

    def axioms(self, it, a):
        self.me, self.at = a['self'].t, it.int_(a[self.names[1]])
        p = it.p
        c = p.val('_context', self.me)
        p.assume(z3.And(Val.is_VRef(c), Val.r(c) >= 0))
        self.entries = p.seq(Val.r(p.val('_index', self.me)))
        self.source = Val.s(p.val('input', Val.r(c)))
        p.assume(z3.And(0 <= self.at, self.at < z3.Length(self.entries), z3.Length(self.entries) == count(it, self.me)))
        self.content(it)
        return []

    def content(self, it):
        x = self.entries[self.at]
        b, e = (looking_span(it, Val.r(x), k) for k in (0, 1))
        it.p.assume(z3.Implies(z3.Not(Val.is_VNone(x)), z3.And(Val.is_VRef(x), Val.r(x) >= 0, 0 <= b, b <= e, e <= z3.Length(self.source))))
        return z3.If(Val.is_VNone(x), z3.StringVal(''), z3.SubString(self.source, b, e - b))

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        r = Val.s(it.to_val(out.value))
        if self.mark == 'OMISSION':
            return [('omission', z3.Contains(r, z3.StringVal('...')))]
        text = self.content(it)
        number = INT_STR(self.at + 1)
        shown = z3.SuffixOf(text, r) if self.kind is TextReporter else z3.Contains(r, UF_ESC(text))
        return [('number', z3.Contains(r, number)), ('text', shown)]


def looking_span(it, x, k):
    from .looking import span
    return span(it, x, 'line', k)


def uses():
    return []


def contracts():
    return [PointNoDocument('indicate_line', 'INDICATE'), PointNoDocument('question_line', 'QUESTION'), Point('report_line', 'EMPHASIZE'), TagContinuations(),
            TagContinuables('items'), TagContinuables('entries'), TagElement(), TagSection(), ReportElement(), ReportMissing(), ReportLines(), ReportComments(), ReportElements(), Snippet()] + [
            Line(f'enolib.reporters.{m}:{c.__name__}._line', c, k) for m, c in (('text_reporter', TextReporter), ('html_reporter', HtmlReporter))
            for k in ('DISPLAY', 'EMPHASIZE', 'INDICATE', 'QUESTION', 'OMISSION')]
