"""Context.value and Context.comment: values and comments of instructions (C05, C06, C07, C22)."""
from .lib import *  # noqa: F401,F403
from .lib import Contract, F, fref, T, TRUE, FALSE
from pyvc.loops import Machine
from . import elements
from .elements import VALUE, COMMENT, ContextValue, ContextComment, LastIn

SPACE = z3.StringVal(' ')


def cached_is(it, r, field, spec):
    """The invariant of a cache: if it is filled, it holds the specified result."""
    return z3.Implies(it.p.has(field, r), F(it, r, field) == spec(r))


class Cached:
    """A reading function that fills a cache on instructions."""
    field = None

    def cached_is(self, it, r):
        return cached_is(it, r, self.field, self.spec)

    def cache_posts(self, it, a, pre):
        r = z3.Int('r!cache')
        with at_pre(it, pre):
            before = self.cached_is(it, r)
        now = it.p.arr('h', self.field)
        f = z3.Implies(before, self.cached_is(it, r))
        return [('caches-hold-results', z3.ForAll([r], f, patterns=[z3.Select(now, r)]) if z3.is_const(now) else z3.ForAll([r], f))]

    def cache_pre(self, it, r):
        return [self.cached_is(it, r)]


class Join(Machine):
    """C05: the text so far (or none) and whether a space is due before the next text."""

    def __init__(self, it, seq, init):
        super().__init__('join', seq, [init, FALSE], None, ['text', 'due'])

    def step(self, it, g, x, i, seq):
        r = x.t
        text, due = g['text'], g['due']
        has, spaced, v = it.p.has('value', r), it.p.has('spaced', r), Val.s(F(it, r, 'value'))
        glue = z3.If(z3.Or(spaced, due), SPACE, z3.StringVal(''))
        nothing = Val.is_VNone(text)
        return [z3.If(has, z3.If(nothing, Val.VStr(v), Val.VStr(z3.Concat(Val.s(text), glue, v))), text),
                z3.And(z3.Not(has), z3.Not(nothing), z3.Or(due, spaced))]

    def done(self, it, g, i, seq, length):
        # the value is by definition what the texts are joined to
        return [VALUE(self.element) == g['text']] if self.defines else []

    defines = False
    element = None


class Value(Cached, ContextValue):
    props = ('C05', 'C06', 'C22', 'C14')
    field = 'computed_value'

    def setup(self, it):
        a = super().setup(it)
        self.x = a['element'].t
        return a

    def base(self, it, x):
        return z3.If(it.p.has('value', x), F(it, x, 'value'), Val.VNone)

    def pre(self, it, a):
        return []

    def axioms(self, it, a):
        p, x = it.p, a['element'].t
        src = Val.s(F(it, a['self'].t, 'input'))
        lines = p.seq(Val.r(F(it, x, 'lines')))
        first, last = Val.r(lines[0]), Val.r(lines[z3.Length(lines) - 1])
        lo = Val.lo(F(it, Val.r(F(it, first, 'ranges')), 'line'))
        hi = Val.hi(F(it, Val.r(F(it, last, 'ranges')), 'line'))
        text = z3.If(p.has('lines', x), Val.VStr(z3.SubString(src, lo, hi - lo)), Val.VNone)
        own = z3.If(type_in(it, x, T.MULTILINE_FIELD_BEGIN), text, self.base(it, x))
        more = z3.And(p.has('continuations', x), z3.Not(type_in(it, x, T.MULTILINE_FIELD_BEGIN)))
        mir = Val.r(F(it, x, 'mirror'))
        return [z3.Implies(p.has('mirror', x), VALUE(x) == VALUE(mir)), z3.Implies(z3.And(z3.Not(p.has('mirror', x)), z3.Not(more)), VALUE(x) == own)] + \
            self.cache_pre(it, x) + self.cache_pre(it, mir)

    def measure(self, it, a):
        return z3.If(it.p.has('mirror', a['element'].t), 1, 0)

    def machines_for(self, it, seq, length, node, env, is_while):
        x = self.x
        m = Join(it, seq, self.base(it, x))
        if seq is not None and it.p.implied(z3.And(it.p.has('continuations', x), seq == it.p.seq(Val.r(F(it, x, 'continuations'))))):
            m.defines, m.element = True, x
        return [m]

    def post(self, it, a, out, pre):
        return super().post(it, a, out, pre) + self.cache_posts(it, a, pre)


def uses():
    return [Value(), ContextComment(), LastIn()]


def contracts():
    return [Value()]


# ---------------------------------------------------------------- comments
C_FIRST = z3.Function('C_FIRST', I, Val)      # first and last comment line with text, smallest indentation
C_LAST = z3.Function('C_LAST', I, Val)
C_INDENT = z3.Function('C_INDENT', I, Val)


def elem(x):
    return x.items[1].t if isinstance(x, Tup) else x.t


def indentation(it, r):
    """Column at which the text of a comment line begins."""
    ranges = Val.r(F(it, r, 'ranges'))
    return Val.lo(F(it, ranges, 'comment')) - Val.lo(F(it, ranges, 'line'))


class Scan(Machine):
    """C07: which comment lines have text, and the smallest indentation."""

    def __init__(self, it, seq, element, defines):
        super().__init__('scan', seq, [Val.VNone, Val.VInf, Val.VNone], None, ['first', 'indent', 'last'])
        self.element, self.defines = element, defines

    def step(self, it, g, x, i, seq):
        r = elem(x)
        has, ind = it.p.has('comment', r), indentation(it, r)
        return [z3.If(z3.And(has, Val.is_VNone(g['first'])), Val.VInt(i), g['first']),
                z3.If(z3.And(has, z3.Or(Val.is_VInf(g['indent']), ind < Val.i(g['indent']))), Val.VInt(ind), g['indent']),
                z3.If(has, Val.VInt(i), g['last'])]

    def relate(self, it, state, locs, g, i):
        f, l = g['first'], g['last']
        none = Val.is_VNone(f)
        return [('range', z3.Or(z3.And(none, Val.is_VNone(l), Val.is_VInf(g['indent'])),
                                z3.And(Val.is_VInt(f), Val.is_VInt(l), Val.is_VInt(g['indent']), 0 <= Val.i(f), Val.i(f) <= Val.i(l), Val.i(l) < i,
                                       it.p.has('comment', Val.r(self.over[Val.i(f)])))))]

    def done(self, it, g, i, seq, length):
        x = self.element
        return [C_FIRST(x) == g['first'], C_LAST(x) == g['last'], C_INDENT(x) == g['indent'], z3.Implies(Val.is_VNone(g['first']), COMMENT(x) == Val.VNone)] if self.defines else []


class Lines(Machine):
    """C07: the lines from the first to the last with text, without the common indentation."""

    def __init__(self, it, seq, element):
        super().__init__('lines', seq, [z3.Empty(SeqVal)], None, ['acc'])
        self.element = element

    def step(self, it, g, x, i, seq):
        r = elem(x)
        text = Val.s(F(it, r, 'comment'))
        more = indentation(it, r) - Val.i(C_INDENT(self.element))
        line = z3.If(it.p.has('comment', r), z3.Concat(it.repeat(SPACE, more), text), z3.StringVal(''))
        return [z3.Concat(g['acc'], z3.Unit(Val.VStr(line)))]

    def relate(self, it, state, locs, g, i):
        a = g['acc']
        return [('length', z3.Length(a) == i), ('starts-with-text', z3.Implies(i > 0, z3.And(Val.is_VStr(a[0]), z3.Length(Val.s(a[0])) > 0)))]

    def done(self, it, g, i, seq, length):
        from pyvc.interp import JOIN
        x = self.element
        return [COMMENT(x) == Val.VStr(JOIN(z3.StringVal('\n'), g['acc']))]


class Comment(Cached, ContextComment):
    props = ('C07', 'C22', 'C14')
    field = 'computed_comment'

    def cached_is(self, it, r):
        c = COMMENT(r)
        return z3.Implies(it.p.has(self.field, r), z3.And(F(it, r, self.field) == c, z3.Implies(Val.is_VStr(c), z3.Length(Val.s(c)) > 0)))

    def setup(self, it):
        a = super().setup(it)
        self.x = a['element'].t
        return a

    def axioms(self, it, a):
        p, x = it.p, a['element'].t
        seq = p.seq(Val.r(F(it, x, 'comments')))
        c0 = Val.r(seq[0])
        return [z3.Implies(z3.Not(p.has('comments', x)), COMMENT(x) == Val.VNone),
                z3.Implies(z3.And(p.has('comments', x), z3.Length(seq) == 1), COMMENT(x) == z3.If(p.has('comment', c0), F(it, c0, 'comment'), Val.VNone))] + self.cache_pre(it, x)

    def machines_for(self, it, seq, length, node, env, is_while):
        x = self.x
        if seq is None:
            return []
        all_ = it.p.seq(Val.r(F(it, x, 'comments')))
        if it.p.implied(seq == all_):
            return [Scan(it, seq, x, True)]
        lo, hi = Val.i(C_FIRST(x)), Val.i(C_LAST(x)) + 1
        if it.p.implied(seq == z3.Extract(all_, lo, hi - lo)):
            return [Lines(it, seq, x)]
        return []

    def post(self, it, a, out, pre):
        return super().post(it, a, out, pre) + self.cache_posts(it, a, pre)


def uses():
    return [Value(), Comment(), LastIn()]


def contracts():
    return [Value(), Comment()]
