"""lookup.py: the innermost element and instruction at a position (C19).

A position is a line number, or an index into the input; an instruction covers it if it lies on its line (BEGIN .. END).
One specification serves both. Assumed of parsed documents (evaluated by tools/assumptions.py): the instructions of a
document follow each other on the lines in the order in which they are listed (follows, and what is built from it), the lines
of a multiline field without a gap. J0, J1, K0 are arbitrary: what is proved about the J-th member is proved of all of them.
"""
from .lib import *  # noqa: F401,F403
from pyvc.core import PyExc, CLS
from .lib import Contract, at_pre, F, fref, T, TRUE, FALSE, type_in, inv_instr, sym_inv, INSTR, inv_plain, inv_ranges, RANGES
from .world import base_world
from pyvc.loops import Machine

J0, J1, K0 = z3.Ints('J0 J1 K0')
HEIGHT = z3.Function('nesting_height', I, I)
MATCH = TRec('Match')
LINE = TUnion(TNone(), TRec('End'), TRec('Cont'), TRec('Line'), TRec('Comment'), TRec('Instr'))     # read as the first: what they share


def world(w):
    w.schemas['Match'] = Schema('Match', {'element': INSTR, 'instruction': LINE})
    w.schemas['Result'] = Schema('Result', {'element': TObj(Element), 'range': TOpt(TStr())})
    w.literal_type = lambda keys: {('element', 'instruction'): MATCH, ('element', 'range'): TRec('Result')}.get(tuple(sorted(keys)))
    return w


class Space:
    """Positions: line numbers or indices."""

    def __init__(self, it, by):
        self.it, self.by, self.p = it, by, it.p

    def begin(self, r):
        return Val.i(self.p.val('line', r)) if self.by == 'line' else span(self.it, r, 'line', 0)

    def end(self, r):
        return Val.i(self.p.val('line', r)) if self.by == 'line' else span(self.it, r, 'line', 1)

    def covers(self, r, pos):
        return z3.And(self.begin(r) <= pos, pos <= self.end(r))

    def list(self, r, f):
        return self.p.seq(Val.r(self.p.val(f, r)))

    def at(self, r, f, k):
        return Val.r(self.list(r, f)[k])

    def inside(self, k, r, f):
        return z3.And(self.p.has(f, r), 0 <= k, k < z3.Length(self.list(r, f)))

    def last(self, r, f):
        return self.at(r, f, z3.Length(self.list(r, f)) - 1)

    def stop(self, r):
        """Last position of a field, item or entry with its continuations."""
        return z3.If(self.p.has('continuations', r), self.end(self.last(r, 'continuations')), self.end(r))

    def stop_list(self, r):
        return z3.If(self.p.has('items', r), self.stop(self.last(r, 'items')), z3.If(self.p.has('entries', r), self.stop(self.last(r, 'entries')), self.end(r)))

    # ---- what is assumed of a document, at given indices
    def well(self, r):
        """The invariant of a record."""
        for f in sym_inv(inv_instr)(self.it, r):
            self.p.assume(f)
        self.ordered(r)

    def ordered(self, r):
        if self.by == 'index':
            self.p.assume(z3.And(0 <= self.begin(r), self.begin(r) <= self.end(r)))

    def plain(self, r):
        for f in sym_inv(inv_plain())(self.it, r):
            self.p.assume(f)
        self.ordered(r)

    def follow(self, r, f, *ks, last=True):
        """The members of a list follow each other, and the owner comes first."""
        p, s = self.p, self.list(r, f)
        n = z3.Length(s)
        deep = f in ('items', 'entries')
        plain = f in ('continuations', 'lines')
        stop = self.stop if deep else self.end
        ks = [*ks, n - 1] if last else ks
        for k in ks:
            m = Val.r(s[k])
            ok = z3.And(0 <= k, k < n)
            if plain:
                g = Val.r(p.val('ranges', m))
                facts = sym_inv(inv_plain())(self.it, m) + [Val.is_VInt(p.val('line', m)), Val.is_VRef(p.val('ranges', m)), g >= 0, Val.is_VPair(p.val('line', g)), *sym_inv(inv_ranges)(self.it, g)]
            else:
                facts = [type_in(self.it, m, *{'items': (T.LIST_ITEM,), 'entries': (T.FIELDSET_ENTRY,), 'elements': MEMBERS}[f])] + sym_inv(inv_instr)(self.it, m)
            p.assume(z3.Implies(z3.And(self.p.has(f, r), ok), z3.And(Val.is_VRef(s[k]), m >= 0, *facts)))
            first = [self.end(r) < self.begin(m)] if f != 'elements' else []
            p.assume(z3.Implies(z3.And(self.p.has(f, r), ok), z3.And(self.begin(m) <= self.end(m), *first)))
            if f == 'elements':
                p.assume(z3.Implies(z3.And(p.has(f, r), ok), z3.And(0 <= HEIGHT(m), HEIGHT(m) < HEIGHT(r))))
            if deep:
                self.p.assume(z3.Implies(z3.And(self.p.has(f, r), ok), self.end(m) <= self.stop(m)))
        for a in ks:
            for b in ks:
                if a is not b:
                    p.assume(z3.Implies(z3.And(self.p.has(f, r), 0 <= a, a < b, b < n), stop(Val.r(s[a])) < self.begin(Val.r(s[b]))))


MEMBERS = (T.EMPTY_ELEMENT, T.FIELD, T.FIELDSET, T.LIST, T.MULTILINE_FIELD_BEGIN, T.SECTION)


class Along(Machine):
    """The members passed so far end before the position."""

    def __init__(self, c, it, seq, owner, field, reverse):
        super().__init__('along', seq, [], None, [])
        self.c, self.owner, self.field, self.reverse = c, owner, field, reverse

    def lemmas(self, it, g, i, seq, length):
        sp, n = self.c.space(it), z3.Length(seq)
        if self.reverse:
            sp.follow(self.owner, self.field, n - 1 - i, n - i, J0, J0 + 1, z3.IntVal(0), last=False)
        else:
            sp.follow(self.owner, self.field, i, i - 1, J0, K0)
            if self.field in ('items', 'entries'):
                for k in (i, J0):
                    sp.follow(sp.at(self.owner, self.field, k), 'continuations', K0)
        return []

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        sp, n = self.c.space(it), z3.Length(self.over)
        if self.reverse:
            return [('passed', z3.Or(i == 0, sp.begin(Val.r(self.over[n - i])) > self.c.pos))]
        stop = sp.stop if self.field in ('items', 'entries') else sp.end
        return [('passed', z3.Or(i == 0, stop(Val.r(self.over[i - 1])) < self.c.pos))]


class Check(Contract):
    """One of the check_* functions."""
    props = ('C19',)
    maintains = ()
    returns = TUnion(TNone(), TBool(), MATCH)
    field = None
    types = ()

    def __init__(self, name, by):
        self.by = by
        self.target = f'enolib.lookup:{name}_by_{by}'
        try:
            code = self.fn().__code__
            names = code.co_varnames[:code.co_argcount]
        except (AttributeError, KeyError):
            names = ()
        self.names = names if len(names) == 2 else ('x', 'position')
        self.args = {self.names[0]: INSTR, self.names[1]: TInt()}

    def space(self, it):
        return Space(it, self.by)

    def arguments(self, it, a):
        return a[self.names[0]].t, it.int_(a[self.names[1]]) if hasattr(it, 'int_') else Val.i(it.to_val(a[self.names[1]]))

    def pre(self, it, a):
        x, _ = self.arguments(it, a)
        return [type_in(it, x, *self.types)]

    def axioms(self, it, a):
        self.x, self.pos = self.arguments(it, a)
        self.basic(it, self.x, self.pos)
        return []

    def basic(self, it, x, pos):
        self.space(it).well(x)

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None or is_while or self.field is None:
            return None
        if seq.eq(z3.simplify(self.space(it).list(self.x, self.field))) or not it.p.check(seq != self.space(it).list(self.x, self.field)):
            return [Along(self, it, seq, self.x, self.field, self.field == 'elements')]
        return None

    # ---- outcome
    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        x, pos = self.arguments(it, a)
        v = it.to_val(out.value)
        self.known(it, x, pos)
        inside = self.inside(it, x, pos)
        r = Val.r(v)
        res = [('found-if-and-only-if-inside', Val.is_VRef(v) == inside), ('falsy', z3.Or(Val.is_VRef(v), Val.is_VNone(v), v == Val.VBool(FALSE)))]
        el, ins = it.p.val('element', r), it.p.val('instruction', r)
        res.append(('complete', z3.Implies(inside, z3.And(it.p.has('element', r), it.p.has('instruction', r), Val.is_VRef(el), z3.Or(Val.is_VNone(ins), Val.is_VRef(ins))))))
        sp = self.space(it)
        res.append(('instruction-at-position', z3.Implies(z3.And(inside, Val.is_VRef(ins)), sp.covers(Val.r(ins), pos))))
        return res + [(n, z3.Implies(inside, f)) for n, f in self.innermost(it, x, pos, el, ins)]


class CheckField(Check):
    field = 'continuations'
    types = (T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY)

    def inside(self, it, x, pos):
        sp = self.space(it)
        return z3.And(sp.begin(x) <= pos, pos <= sp.stop(x))

    def innermost(self, it, x, pos, el, ins):
        sp = self.space(it)
        yield 'element', el == Val.VRef(x)
        yield 'own-line', z3.Implies(sp.covers(x, pos), ins == Val.VRef(x))
        c = sp.at(x, 'continuations', K0)
        sp.follow(x, 'continuations', K0)
        yield 'continuation', z3.Implies(z3.And(sp.inside(K0, x, 'continuations'), sp.covers(c, pos)), ins == Val.VRef(c))

    def known(self, it, x, pos):
        sp = self.space(it)
        sp.well(x)
        sp.follow(x, 'continuations', K0, J0)


class CheckMany(Check):
    def __init__(self, name, by, field, typ):
        self.field, self.types = field, (typ,)
        super().__init__(name, by)

    def known(self, it, x, pos):
        sp = self.space(it)
        sp.well(x)
        sp.follow(x, self.field, J0)
        sp.follow(sp.at(x, self.field, J0), 'continuations', K0)
        sp.follow(sp.last(x, self.field), 'continuations', K0)

    def inside(self, it, x, pos):
        sp = self.space(it)
        return z3.And(sp.begin(x) <= pos, z3.Or(pos <= sp.end(x), z3.And(it.p.has(self.field, x), pos <= sp.stop(sp.last(x, self.field)))))

    def innermost(self, it, x, pos, el, ins):
        sp = self.space(it)
        m = sp.at(x, self.field, J0)
        mine = z3.And(sp.inside(J0, x, self.field), sp.begin(m) <= pos, pos <= sp.stop(m))
        yield 'own-line', z3.Implies(sp.covers(x, pos), z3.And(el == Val.VRef(x), ins == Val.VRef(x)))
        yield 'member', z3.Implies(mine, el == Val.VRef(m))
        yield 'member-line', z3.Implies(z3.And(mine, sp.covers(m, pos)), ins == Val.VRef(m))
        c = sp.at(m, 'continuations', K0)
        yield 'continuation', z3.Implies(z3.And(mine, sp.inside(K0, m, 'continuations'), sp.covers(c, pos)), ins == Val.VRef(c))
        e = Val.r(el)
        yield 'element-at-position', z3.Or(el == Val.VRef(x), z3.And(sp.begin(e) <= pos, pos <= sp.stop(e)))
        yield 'between', z3.Implies(el == Val.VRef(x), z3.Or(Val.is_VNone(ins), sp.covers(x, pos)))


class CheckMultiline(Check):
    field = 'lines'
    types = (T.MULTILINE_FIELD_BEGIN,)

    def pre(self, it, a):
        x, _ = self.arguments(it, a)
        return super().pre(it, a) + [z3.Not(it.p.has('template', x))]

    def known(self, it, x, pos):
        self.space(it).well(x)
        self.lines(it, x, pos, TRUE)

    def basic(self, it, x, pos):
        self.known(it, x, pos)

    def lines(self, it, x, pos, cond):
        sp, p = self.space(it), it.p
        is_field = z3.And(cond, type_in(it, x, T.MULTILINE_FIELD_BEGIN))
        e = fref(it, x, 'end')
        firsts = [t for k, t in p.ghost.items() if isinstance(k, tuple) and k[0] == 'first']
        ks = [J0, z3.IntVal(0), *firsts, *[t - 1 for t in firsts]]
        if self.by == 'line':
            ks.append(pos - sp.begin(x) - 1)
        sp.follow(x, 'lines', *ks)
        for f in sym_inv(inv_plain())(it, e):
            p.assume(z3.Implies(is_field, f))
        p.assume(z3.Implies(is_field, sp.begin(e) <= sp.end(e)))
        n = z3.Length(sp.list(x, 'lines'))
        for k in ks:
            # without a gap
            p.assume(z3.Implies(z3.And(is_field, p.has('lines', x), 0 < k, k < n), sp.begin(sp.at(x, 'lines', k)) == sp.end(sp.at(x, 'lines', k - 1)) + 1))
            if self.by == 'line':
                p.assume(z3.Implies(z3.And(is_field, p.has('lines', x), 0 <= k, k < n), sp.begin(sp.at(x, 'lines', k)) == sp.end(x) + 1 + k))
        if self.by == 'line':
            p.assume(z3.Implies(z3.And(is_field, p.has('lines', x)), sp.begin(e) == sp.end(x) + 1 + n))
        p.assume(z3.Implies(z3.And(is_field, p.has('lines', x)), z3.And(sp.begin(sp.at(x, 'lines', z3.IntVal(0))) == sp.end(x) + 1, sp.begin(e) == sp.end(sp.last(x, 'lines')) + 1)))
        p.assume(z3.Implies(z3.And(is_field, z3.Not(p.has('lines', x))), sp.begin(e) == sp.end(x) + 1))

    def instances(self, it, length):
        return [J0, length - 1] + ([self.pos - self.space(it).begin(self.x) - 1] if self.by == 'line' else [])

    def inside(self, it, x, pos):
        sp = self.space(it)
        return z3.And(sp.begin(x) <= pos, pos <= sp.end(fref(it, x, 'end')))

    def innermost(self, it, x, pos, el, ins):
        sp = self.space(it)
        e, l = fref(it, x, 'end'), sp.at(x, 'lines', J0)
        yield 'element', el == Val.VRef(x)
        yield 'own-line', z3.Implies(sp.covers(x, pos), ins == Val.VRef(x))
        yield 'end', z3.Implies(sp.covers(e, pos), ins == Val.VRef(e))
        yield 'line', z3.Implies(z3.And(sp.inside(J0, x, 'lines'), sp.covers(l, pos)), ins == Val.VRef(l))
        yield 'some-line', Val.is_VRef(ins)


class CheckSection(Check):
    field = 'elements'
    types = (T.DOCUMENT, T.SECTION)
    returns = MATCH

    def __init__(self, name, by):
        super().__init__(name, by)
        self.nested = None

    check_ms = 300
    ground_checks = True

    def basic(self, it, x, pos):
        for f in sym_inv(inv_instr)(it, x):
            it.p.assume(f)

    def measure(self, it, a):
        return HEIGHT(self.arguments(it, a)[0])

    def called(self, it, section, pos, value):
        """The function calls itself."""
        it.p.ghost['nested'] = (section, pos, value)

    def result(self, it, a):
        v = super().result(it, a)
        x, pos = self.arguments(it, a)
        if isinstance(it.contract, CheckSection):
            self.called(it, x, pos, it.to_val(v))
        elif isinstance(it.contract, Lookup):
            it.contract.called(it, self, x, pos, it.to_val(v))
        return v

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        p, sp = it.p, self.space(it)
        x, pos = self.arguments(it, a)
        v = it.to_val(out.value)
        r = Val.r(v)
        el, ins = p.val('element', r), p.val('instruction', r)
        yield 'complete', z3.And(Val.is_VRef(v), p.has('element', r), p.has('instruction', r), Val.is_VRef(el), z3.Or(Val.is_VNone(ins), Val.is_VRef(ins)))
        yield 'instruction-at-position', z3.Implies(Val.is_VRef(ins), sp.covers(Val.r(ins), pos))
        if it.contract is not self:
            return
        sp.follow(x, 'elements', J0, J0 + 1, z3.IntVal(0), last=False)
        s = sp.list(x, 'elements')
        n = z3.Length(s)
        m = Val.r(s[J0])
        nothing = z3.And(el == Val.VRef(x), Val.is_VNone(ins))
        yield 'before-the-first', z3.Implies(z3.Or(n == 0, sp.begin(Val.r(s[0])) > pos), nothing)
        chosen = z3.And(0 <= J0, J0 < n, sp.begin(m) <= pos, z3.Or(J0 + 1 == n, sp.begin(Val.r(s[J0 + 1])) > pos))
        yield 'own-line', z3.Implies(z3.And(chosen, sp.covers(m, pos)), z3.And(el == Val.VRef(m), ins == Val.VRef(m)))
        below = z3.And(chosen, z3.Not(sp.covers(m, pos)))
        kinds = [(CheckField('check_field', self.by), None), (CheckMany('check_fieldset', self.by, 'entries', T.FIELDSET), None),
                 (CheckMany('check_list', self.by, 'items', T.LIST), None), (CheckMultiline('check_multiline_field', self.by), z3.Not(p.has('template', m)))]
        for c, cond in kinds:
            t = T.FIELD if isinstance(c, CheckField) else c.types[0]
            mine = z3.And(below, type_in(it, m, t), cond if cond is not None else TRUE)
            if not p.check(mine):
                yield f'{t.name.lower()}-outside', z3.Not(mine)
                continue
            c.known(it, m, pos) if not isinstance(c, CheckMultiline) else c.lines(it, m, pos, cond)
            inside = c.inside(it, m, pos)
            for name, f in c.innermost(it, m, pos, el, ins):
                yield f'{t.name.lower()}-{name}', z3.Implies(z3.And(mine, inside), f)
            yield f'{t.name.lower()}-outside', z3.Implies(z3.And(mine, z3.Not(inside)), nothing)
        yield 'empty', z3.Implies(z3.And(below, type_in(it, m, T.EMPTY_ELEMENT)), nothing)
        yield 'copied-multiline', z3.Implies(z3.And(below, type_in(it, m, T.MULTILINE_FIELD_BEGIN), p.has('template', m)), nothing)
        made = p.ghost.get('nested')
        yield 'section', z3.Implies(z3.And(below, type_in(it, m, T.SECTION)), FALSE if made is None else z3.And(made[0] == m, made[1] == pos, made[2] == v))


# ---------------------------------------------------------------- comments
COMMENTS = z3.Function('comments_of_elements', SeqVal, SeqVal)        # the comments of elements and what is below them
CHILDREN = z3.Function('comments_of_children', SeqVal, SeqVal)


def own_comments(it, r):
    return z3.If(it.p.has('comments', r), it.p.seq(Val.r(it.p.val('comments', r))), z3.Empty(SeqVal))


class Gather(Machine):
    """for ... : yield from the comments of each"""

    def __init__(self, it, seq, acc, spec, step):
        super().__init__('gather', seq, [acc], None, ['acc'])
        self.start, self.spec, self.one = acc, spec, step

    def lemmas(self, it, g, i, seq, length):
        # items and entries are instructions of the document, and so are their comments
        m = Val.r(seq[i])
        with at_pre(it, it.contract.pre_heap):
            c = it.p.val('comments', m)
            return [z3.Implies(z3.And(0 <= i, i < length), z3.And(Val.is_VRef(seq[i]), m >= 0, z3.Implies(it.p.has('comments', m), z3.And(Val.is_VRef(c), Val.r(c) >= 0)), *sym_inv(inv_instr)(it, m)))]

    def step(self, it, g, x, i, seq):
        with at_pre(it, it.contract.pre_heap):
            return [z3.Concat(g['acc'], self.one(it, Val.r(seq[i])))]

    def done(self, it, g, i, seq, length):
        # the definition of the fold, begun with what was there
        return [g['acc'] == z3.Concat(self.start, self.spec(seq))]


class CommentsInSection(Contract):
    target = 'enolib.lookup:comments_in_section'
    props = ('C19',)
    maintains = ()
    returns = TList(TRec('Comment'))

    def __init__(self):
        try:
            code = self.fn().__code__
            self.name = code.co_varnames[0]
        except (AttributeError, KeyError, IndexError):
            self.name = 'section'
        self.args = {self.name: INSTR}

    def pre(self, it, a):
        return [type_in(it, a[self.name].t, T.DOCUMENT, T.SECTION)]

    def measure(self, it, a):
        return HEIGHT(a[self.name].t)

    def axioms(self, it, a):
        self.x = a[self.name].t
        return sym_inv(inv_instr)(it, self.x) + [f(z3.Empty(SeqVal)) == z3.Empty(SeqVal) for f in (COMMENTS, CHILDREN)]

    def result(self, it, a):
        n = it.p.alloc(list)
        it.p.put('s', '', n, it.p.fresh('comments', SeqVal))
        return Ref(n, TList(TRec('Comment')))

    def below(self, it, r):
        """The comments of one element."""
        items = z3.If(it.p.has('items', r), it.p.seq(Val.r(it.p.val('items', r))), z3.Empty(SeqVal))
        entries = z3.If(it.p.has('entries', r), it.p.seq(Val.r(it.p.val('entries', r))), z3.Empty(SeqVal))
        deeper = z3.If(type_in(it, r, T.SECTION), COMMENTS(it.p.seq(Val.r(it.p.val('elements', r)))), z3.Empty(SeqVal))
        return z3.Concat(own_comments(it, r), CHILDREN(z3.Concat(items, entries)), deeper)

    def machines_for(self, it, seq, length, node, env, is_while):
        e = env
        while e is not None and '.yield' not in e.vars:
            e = e.parent
        if seq is None or is_while or e is None:
            return None
        acc = it.p.seq(e.vars['.yield'].t)
        with at_pre(it, self.pre_heap):
            elements = it.p.seq(Val.r(it.p.val('elements', self.x)))
        if seq.eq(z3.simplify(elements)) or not it.p.check(seq != elements):
            def known(it_, g, i, s, n):
                Space(it, 'line').follow(self.x, 'elements', i, last=False)
                m = Val.r(s[i])
                with at_pre(it_, self.pre_heap):
                    return [z3.Implies(z3.And(0 <= i, i < n, it_.p.has(f, m)), Val.r(it_.p.val(f, m)) >= 0) for f in ('elements', 'items', 'entries', 'comments')]
            m = Gather(it, seq, acc, COMMENTS, self.below)
            m.lemmas = known
            return [m]
        return [Gather(it, seq, acc, CHILDREN, own_comments)]

    def post(self, it, a, out, pre):
        if out.kind != 'return':
            return [('no-error', FALSE)]
        with at_pre(it, pre):
            elements = it.p.seq(Val.r(it.p.val('elements', a[self.name].t)))
        return [('comments', it.p.seq(it.force(out.value).t) == COMMENTS(elements))]


# ---------------------------------------------------------------- lookup
TOKENS = tuple(f for f in RANGES if f != 'line')


class Tokens(Machine):
    """for each range of the instruction: which one contains the index"""

    def __init__(self, it, c, ranges):
        super().__init__('tokens', None, [], None, [])
        self.c, self.ranges = c, ranges

    def lemmas(self, it, g, i, seq, length):
        return []

    def step(self, it, g, x, i, seq):
        return []

    def relate(self, it, state, locs, g, i):
        from pyvc.loops import RECORD_POS
        r = self.ranges
        index = self.c.index_in(it, r)
        line = Val.lo(it.p.val('line', r))
        ints = [(l, t) for l, (kind, t) in locs.items() if kind == 'val' and l[0] == 'local']
        cells = [(l, t) for l, (kind, t) in locs.items() if kind == 'val' and l[:2] == ('cell', 'range')]
        out = []
        for l, t in ints:
            out.append((f'{l[1]}-is-index', t == Val.VInt(index)))
        for c, t in cells:
            none = Val.is_VNone(t)
            out.append(('token', z3.Or(none, z3.Or([z3.And(t == Val.VStr(z3.StringVal(f)), self.c.contains(it, r, f, index)) for f in TOKENS]))))
            out.append(('found', z3.And([z3.Implies(z3.And(self.c.contains(it, r, f, index), RECORD_POS(f)(r) < i), z3.Not(none)) for f in TOKENS])))
            out.append(('begins', z3.And([z3.Implies(z3.And(self.c.begins(it, r, f, index), RECORD_POS(f)(r) < i), z3.Or([z3.And(t == Val.VStr(z3.StringVal(h)), self.c.begins(it, r, h, index)) for h in TOKENS])) for f in TOKENS])))
            for l, t2 in ints:
                out.append((f'{l[1]}-first', z3.If(none, t2 == Val.VInt(line), t2 == Val.VInt(index))))
        return out


class Lookup(Contract):
    target = 'enolib.lookup:lookup'
    props = ('C19',)
    raises = (IndexError, ParseError)
    maintains = ()
    time_limit = 500
    check_ms = 300
    ground_checks = True
    parallel = 4

    def __init__(self, by, options):
        self.by, self.options = by, options
        self.args = {'input': TStr(), **({'index': TInt()} if by == 'index' else {'line': TInt(), 'column': TInt()})}
        self.label = f'lookup(input, {"index" if by == "index" else "line, column"}{", options" if options else ""})'

    def verify(self, world):
        world.models['enolib.context.Context'] = self.made
        return super().verify(world)

    def setup(self, it):
        a = super().setup(it)
        for n in self.options:
            a[n] = it.typed(z3.Const('arg_' + n, Val), TAny(), old=True)
        return a

    def pass_args(self, it, fn, a):
        return [a['input']], {n: a[n] for n in a if n != 'input'}

    def made(self, it, args, kw):
        p = it.p
        ok = len(args) == 1 and set(kw) == set(self.options) and 'context' not in p.ghost
        p.prove('call(Context).arguments', z3.And([it.to_val(args[0]) == it.to_val(self.a['input'])] + [it.to_val(kw[n]) == it.to_val(self.a[n]) for n in self.options]) if ok else FALSE)
        if p.choose(2):
            n = p.alloc(ParseError)
            p.ghost['raised'] = Ref(n, TObj(ParseError))
            raise PyExc(ParseError, p.ghost['raised'])
        # proved in entering.py: the context is about this input
        c = p.fresh('context', I)
        p.assume(c >= 0)
        o = it.typed(Val.VRef(c), TObj(Context), old=True)
        p.assume(F(it, c, 'input') == it.to_val(args[0]))
        d = it.getattr(o, 'document')
        p.assume(type_in(it, d.t, T.DOCUMENT))
        p.ghost['context'] = (c, d.t)
        return o

    # ---- vocabulary
    def contains(self, it, r, f, index):
        v = it.p.val(f, r)
        return z3.And(it.p.has(f, r), Val.lo(v) <= index, index <= Val.hi(v))

    def begins(self, it, r, f, index):
        return z3.And(self.contains(it, r, f, index), Val.lo(it.p.val(f, r)) == index)

    def index_in(self, it, ranges):
        if self.by == 'index':
            return Val.i(it.to_val(self.a['index']))
        return Val.lo(it.p.val('line', ranges)) + Val.i(it.to_val(self.a['column']))

    def position(self, it):
        return Val.i(it.to_val(self.a[self.by]))

    def machines_for(self, it, seq, length, node, env, is_while):
        r = it.p.ghost.get('record-items')
        if seq is not None or is_while or r is None:
            return None
        return [Tokens(it, self, r)]

    def instances(self, it, length):
        return [J0]

    def called(self, it, c, x, pos, v):
        it.p.ghost['looked'] = (c.by, x, pos, v)

    def post(self, it, a, out, pre):
        p = it.p
        made = p.ghost.get('context')
        if out.kind == 'raise' and out.cls is ParseError:
            return [('error-passes', z3.BoolVal(made is None and out.value is p.ghost.get('raised')))]
        if made is None:
            return [('context', FALSE)]
        c, d = made
        pos = self.position(it)
        if self.by == 'line':
            outside = z3.Or(pos < 0, pos >= Val.i(F(it, c, 'line_count')))
        else:
            outside = z3.Or(pos < 0, pos > z3.Length(Val.s(F(it, c, 'input'))))
        if out.kind == 'raise':
            return [('outside', outside)]
        res = [('inside', z3.Not(outside))]
        looked = p.ghost.get('looked')
        if looked is None or looked[0] != self.by or not (isinstance(out.value, Ref) and isinstance(out.value.typ, TRec) and out.value.typ.schema == 'Result'):
            return res + [('looks-up', FALSE)]
        r = out.value.t
        m = Val.r(looked[3])
        res.append(('looks-up', z3.And(looked[1] == d, looked[2] == pos)))
        e = Val.r(p.val('element', r))
        res.append(('element', z3.And(p.has('element', r), CLS(e) == const_id(Element), e < 0, F(it, e, '_instruction') == F(it, m, 'element'), F(it, e, '_context') == Val.VRef(c))))
        res.append(('range-there', p.has('range', r)))
        token = p.val('range', r)
        sp = Space(it, self.by)
        ins = F(it, m, 'instruction')
        ranges = p.ghost.get('record-items')
        with at_pre(it, pre):
            comments = COMMENTS(p.seq(Val.r(F(it, d, 'elements'))))
            candidates = z3.Concat(p.seq(Val.r(F(it, c, 'meta'))), comments)
        nth = Val.r(candidates[J0])
        g = Val.r(F(it, nth, 'ranges'))
        p.assume(z3.Implies(z3.And(0 <= J0, J0 < z3.Length(candidates)), z3.And(Val.is_VRef(candidates[J0]), nth >= 0, Val.is_VInt(F(it, nth, 'line')), Val.is_VRef(F(it, nth, 'ranges')), g >= 0,
                                                                                Val.is_VPair(F(it, g, 'line')), *sym_inv(inv_plain())(it, nth), *sym_inv(inv_ranges)(it, g))))
        there = z3.And(0 <= J0, J0 < z3.Length(candidates), sp.covers(nth, pos))
        if ranges is None:
            # nothing is written there
            res.append(('no-instruction', z3.And(Val.is_VNone(ins), Val.is_VNone(token))))
            res.append(('no-comment', z3.Not(there)))
            return res
        first = [t for k, t in p.ghost.items() if isinstance(k, tuple) and k[0] == 'first']
        of = lambda x: Val.r(p.val('ranges', x))
        res.append(('instruction', z3.Implies(Val.is_VRef(ins), ranges == of(Val.r(ins)))))
        if first:
            k = first[-1]
            x = Val.r(candidates[k])
            res.append(('comment', z3.Implies(Val.is_VNone(ins), z3.And(0 <= k, k < z3.Length(candidates), ranges == of(x), sp.covers(x, pos)))))
        else:
            res.append(('comment', Val.is_VRef(ins)))
        index = self.index_in(it, ranges)
        contains = {f: self.contains(it, ranges, f, index) for f in TOKENS}
        begins = {f: self.begins(it, ranges, f, index) for f in TOKENS}
        res.append(('no-token', z3.Implies(Val.is_VNone(token), z3.And([z3.Not(x) for x in contains.values()]))))
        res.append(('token', z3.Or(Val.is_VNone(token), z3.Or([z3.And(token == Val.VStr(z3.StringVal(f)), contains[f]) for f in TOKENS]))))
        res.append(('begins-there', z3.Implies(z3.Or(list(begins.values())), z3.Or([z3.And(token == Val.VStr(z3.StringVal(f)), begins[f]) for f in TOKENS]))))
        return res


def uses():
    return []


def contracts():
    out = [CommentsInSection()] + [Lookup(by, o) for by, o in (('line', ()), ('index', ('locale', 'reporter', 'source')))]
    for by in ('line', 'index'):
        out.append(CheckSection('check_in_section', by))
        out += [CheckField('check_field', by), CheckMany('check_fieldset', by, 'entries', T.FIELDSET), CheckMany('check_list', by, 'items', T.LIST), CheckMultiline('check_multiline_field', by)]
    return out
