"""The resolver: what a copy takes from its template, which template that is, and which copies are refused.

As in the analyzer the records are raw. IN(r, x): r is x or lies within x. COPY(r): r is a copy in the document, or lies
within one; nothing else is ever changed.
"""
from pyvc.contract import FRAMED
from pyvc.loops import Machine
from pyvc.interp import Schema
from enolib.resolver import Resolver
from .lib import *  # noqa: F401,F403
from .lib import F, T
from .world import Context, ParseError
from . import analyzing
from .analyzing import RAW, Here, lst, content, is_type, kind

IN = z3.Function('lies_within', I, I, B)
COPY = z3.Function('within_a_copy', I, B)
DATA = z3.Function('is_copy_data', I, B)
POS = z3.Function('position_of_key', I, z3.StringSort(), I)
HELD = z3.Function('map_that_holds', I, I)
K0 = z3.String('any_key')
R0 = z3.Int('any_record')
FIELDS = (T.FIELD, T.MULTILINE_FIELD_BEGIN)
PLAIN = (T.EMPTY_ELEMENT, T.FIELD, T.MULTILINE_FIELD_BEGIN, T.FIELDSET, T.LIST)
MERGER, COPY_DATA = TRec('Merger'), TRec('CopyData')
KEYF = z3.Function('key_a_merger_is_for', I, z3.StringSort())


# ---------------------------------------------------------------- world
def world(w):
    w = analyzing.world(w)
    L = TList(RAW)
    w.schemas['Raw'] = Schema('Raw', {**w.schemas['Raw'].fields, 'key': TStr(), 'mirror': RAW, 'extend': RAW}, well_formed)
    w.schemas['CopyData'] = Schema('CopyData', {'targets': L, 'template': RAW}, well_formed_data)
    w.schemas['Merger'] = Schema('Merger', {'section': RAW, 'template': RAW})
    w.classes[Resolver] = Schema('Resolver', {'_context': TObj(Context), '_unresolved_sections': TBool(), '_unresolved_non_section_elements': TBool()},
                                 lambda it, r: [it.p.has(f, r) for f in ('_context', '_unresolved_sections', '_unresolved_non_section_elements')])
    other = w.literal_type
    w.literal_type = lambda keys: MERGER if tuple(sorted(keys)) in (('section',), ('section', 'template')) else other(keys)
    for n in ERRORS:
        w.models[f'enolib.errors.parsing.Parsing.{n}'] = parse_error(n)
    return w


def placed(it, x):
    p = it.p
    r = Val.r(F(it, x, 'ranges'))
    return z3.And(p.has('line', x), Val.is_VInt(F(it, x, 'line')), p.has('ranges', x), p.has('line', r), Val.is_VPair(F(it, r, 'line')))


def well_formed(it, x):
    """What the analyzer makes sure of, for every record."""
    p = it.p
    c = Val.r(F(it, x, 'copy'))
    e, i = lst(it, x, 'entries'), lst(it, x, 'items')
    return [z3.Or(is_type(it, x, T.DOCUMENT), placed(it, x)),
            z3.Implies(z3.Or(is_type(it, x, T.SECTION, T.DOCUMENT)), z3.And(p.has('elements', x), Val.is_VRef(F(it, x, 'elements')))),
            z3.Implies(is_type(it, x, T.SECTION, *PLAIN), z3.And(p.has('key', x), Val.is_VStr(F(it, x, 'key')))),
            z3.Implies(p.has('template', x), Val.is_VStr(F(it, x, 'template'))),
            z3.Implies(p.has('copy', x), z3.And(Val.is_VRef(F(it, x, 'copy')), p.has('template', x), is_type(it, x, T.SECTION, *PLAIN), COPY(x), z3.Not(p.has('mirror', x)), z3.Not(p.has('extend', x)))),
            z3.Implies(z3.And(p.has('copy', x), is_type(it, x, T.FIELDSET)), z3.And(p.has('entries', x), Val.is_VRef(F(it, x, 'entries')), z3.Length(p.seq(e)) > 0, Val.is_VRef(p.seq(e)[0]), placed(it, Val.r(p.seq(e)[0])))),
            z3.Implies(z3.And(p.has('copy', x), is_type(it, x, T.LIST)), z3.And(p.has('items', x), Val.is_VRef(F(it, x, 'items')), z3.Length(p.seq(i)) > 0, Val.is_VRef(p.seq(i)[0]), placed(it, Val.r(p.seq(i)[0])))),
            z3.Implies(p.has('mirror', x), Val.is_VRef(F(it, x, 'mirror')))]


def well_formed_data(it, x):
    p = it.p
    t = Val.r(p.seq(lst(it, x, 'targets'))[0])
    return [p.has('targets', x), Val.is_VRef(F(it, x, 'targets')), z3.Length(p.seq(lst(it, x, 'targets'))) > 0,
            Val.is_VRef(p.seq(lst(it, x, 'targets'))[0]), t >= 0, placed(it, t), p.has('template', t), Val.is_VStr(F(it, t, 'template')), z3.Not(DATA(t))]


ERRORS = ('missing_fieldset_for_fieldset_entry', 'missing_list_for_list_item', 'cyclic_dependency', 'non_section_element_not_found', 'section_not_found', 'two_or_more_templates_found')


def parse_error(name):
    """What the function that words the error needs, and that it was called."""
    def model(it, args, kw):
        p = it.p
        if kw:
            raise Unsupported('keyword arguments of a parse error')
        xs = [it.force(x) for x in args[1:]]
        if not xs or not all(isinstance(x, Ref) for x in xs):
            raise it.type_error(f'{name} of {args[1:]!r}')
        p.prove(f'call({name}).context', z3.BoolVal(isinstance(it.force(args[0]), Ref)))
        vals = [it.to_val(x) for x in xs]
        p.prove(f'call({name}).pre', placed(it, xs[0].t))
        if name == 'cyclic_dependency':
            chain = p.seq(xs[1].t) if isinstance(xs[1].typ, TList) else None
            if chain is None:
                raise it.type_error('the chain is not a list')
            p.prove(f'call({name}).pre', z3.Contains(chain, z3.Unit(vals[0])))
            vals = [vals[0], chain]
        elif name in ('non_section_element_not_found', 'section_not_found', 'two_or_more_templates_found'):
            p.prove(f'call({name}).pre', p.has('template', xs[0].t))
        for y in xs[1:]:
            if not isinstance(y.typ, TList):
                p.prove(f'call({name}).pre', placed(it, y.t))
        p.trace.append(('parse-error', name, vals, dict(p.heap)))
        n = p.alloc(ParseError)
        return Ref(n, TObj(ParseError))
    return model


# ---------------------------------------------------------------- shared
class Recorded(Contract):
    """Calls are noted with the state they are made in."""
    args = {'self': TObj(Resolver)}
    raises = (ParseError,)
    maintains = ()
    ground_checks = True
    check_ms = 300
    time_limit = 400
    nick = None
    props = ('C01', 'C08', 'C10')

    def apply(self, it, args, kw):
        p = it.p
        a = self.bind(it, args, kw)
        n = len(p.trace)
        p.trace.append(None)
        p.trace[n] = ('call', self.nick, {k: it.to_val(it.force(v)) if not (isinstance(v, Ref) and isinstance(v.typ, TList)) else p.seq(v.t) for k, v in a.items() if k != 'self'}, dict(p.heap), len(p.trace))
        v = super().apply(it, args, kw)
        p.trace.append(('called', self.nick, dict(p.heap)))
        return v

    def axioms(self, it, a):
        p = it.p
        it.touch(a['self'], True)
        out = []
        for n, x in a.items():
            if isinstance(x, Ref) and isinstance(x.typ, TRec):
                it.touch(x, True)
        return out + [R0 >= 0, z3.Not(DATA(R0)), *well_formed(it, R0)]

    def points(self, it):
        return [R0, FRAMED, *[x.t for n, x in self.a.items() if isinstance(x, Ref) and isinstance(x.typ, TRec)]]

    def kept(self, it, mine, done=None):
        """The records stay well-formed: proved of an arbitrary one, used of those that matter."""
        for r in [R0] if mine else it.contract.points(it):
            for k, f in enumerate(complete(it, r, done)):
                yield f'well-formed.{k}', f


def complete(it, r, done):
    """Well-formed, once the mark of a copy that is complete is gone."""
    p = it.p
    if done is None:
        return well_formed(it, r)
    heap = dict(p.heap)
    p.put('h', 'copy', done, FALSE)
    out = well_formed(it, r)
    p.heap.clear()
    p.heap.update(heap)
    return out


def calls(p, nick, start=0):
    return [t for t in p.trace[start:] if t is not None and t[0] == 'call' and t[1] == nick]


def errors(p, start=0):
    return [t for t in p.trace[start:] if t is not None and t[0] == 'parse-error']


def same(it, pre, f, r, fully=False):
    """A field is as it was."""
    p = it.p
    h, v = p.has(f, r), F(it, r, f)
    with Here(it, pre):
        return z3.And(h == p.has(f, r), v == F(it, r, f) if fully else z3.Implies(h, v == F(it, r, f)))


def comments_taken(it, pre, x, t):
    p = it.p
    h, v = p.has('comments', x), F(it, x, 'comments')
    with Here(it, pre):
        hx, ht, vx, vt = p.has('comments', x), p.has('comments', t), F(it, x, 'comments'), F(it, t, 'comments')
    return z3.And(h == z3.Or(hx, ht), z3.Implies(h, v == z3.If(hx, vx, vt)))


def mirrors(it, pre, x, t):
    p = it.p
    h, v = p.has('mirror', x), F(it, x, 'mirror')
    with Here(it, pre):
        return z3.And(h, v == z3.If(p.has('mirror', t), F(it, t, 'mirror'), Val.VRef(t)))


def one(r):
    def allowed(it, a, x):
        return x == r
    allowed.refs = lambda it, a: [r]
    return allowed


# ---------------------------------------------------------------- elements
class ConsolidateElement(Recorded):
    target = 'enolib.resolver:Resolver.consolidate_non_section_elements'
    args = {'self': TObj(Resolver), 'element': RAW, 'template': RAW}
    nick = 'consolidate'
    concerns = {'C10': ('accepted', 'refused', 'error')}

    def frame_of(self, it, a):
        f = one(a['element'].t)
        return {k: f for k in ('comments', ('v', 'type'), 'mirror', 'extend')}

    def pre(self, it, a):
        p, x, t = it.p, a['element'].t, a['template'].t
        return [p.has('copy', x), z3.Not(p.has('copy', t)), p.has('type', x), p.has('type', t), is_type(it, x, *PLAIN), is_type(it, t, *PLAIN)]

    def wrong(self, it, x, t):
        """Entries or items of its own on a copy of another kind."""
        return z3.Or(z3.And(is_type(it, x, T.FIELDSET), is_type(it, t, *FIELDS, T.LIST)), z3.And(is_type(it, x, T.LIST), is_type(it, t, *FIELDS, T.FIELDSET)))

    def post(self, it, a, out, pre):
        p, x, t = it.p, a['element'].t, a['template'].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        now = F(it, x, 'type')
        with Here(it, pre):
            wrong = self.wrong(it, x, t)
            was = F(it, x, 'type')
            empty, fs, ls = (is_type(it, x, k) for k in (T.EMPTY_ELEMENT, T.FIELDSET, T.LIST))
            tfield, tfs, tls = is_type(it, t, *FIELDS), is_type(it, t, T.FIELDSET), is_type(it, t, T.LIST)
            e0, i0 = (z3.simplify(content(it, x, f))[0] for f in ('entries', 'items'))
        if out.kind == 'raise':
            yield 'refused', wrong
            if mine:
                es = errors(p)
                yield 'error-once', z3.BoolVal(len(es) == 1)
                for _, n, args, heap in es[:1]:
                    yield 'error-kind', z3.Or(z3.And(fs, z3.BoolVal(n == 'missing_fieldset_for_fieldset_entry')), z3.And(ls, z3.BoolVal(n == 'missing_list_for_list_item')))
                    yield 'error-place', args[0] == z3.If(fs, e0, i0)
            return
        adopts = z3.And(empty, z3.Or(tfield, tfs, tls))
        extends = z3.Or(z3.And(fs, tfs), z3.And(ls, tls))
        yield 'accepted', z3.Not(wrong)
        yield 'comments', comments_taken(it, pre, x, t)
        yield 'kind', now == z3.If(z3.And(empty, tfield), kind(T.FIELD), z3.If(z3.And(empty, tfs), kind(T.FIELDSET), z3.If(z3.And(empty, tls), kind(T.LIST), was)))
        yield 'mirror', z3.If(adopts, mirrors(it, pre, x, t), same(it, pre, 'mirror', x))
        yield 'extend', z3.If(extends, z3.And(p.has('extend', x), F(it, x, 'extend') == Val.VRef(t)), same(it, pre, 'extend', x))
        yield from self.kept(it, mine, x)


def previous(it, a, n):
    v = a[n]
    return it.p.seq(v.t) if isinstance(v, Ref) else it.seq_of(v)[0]


class ResolveElement(Recorded):
    target = 'enolib.resolver:Resolver.resolve_non_section_element'
    args = {'self': TObj(Resolver), 'element': RAW, 'previous_elements': TList(RAW)}
    nick = 'resolve'
    concerns = {'C08': ('consolidate', 'resolved', 'frame', 'well-formed', 'pre')}

    def frame_of(self, it, a):
        only_copies = lambda it, a, r: COPY(r)
        return {**{k: only_copies for k in ('comments', ('v', 'type'), 'mirror', 'extend')}, ('h', 'copy'): only_copies}

    def known(self, it, r):
        """Every copy has found its template, which is not a section."""
        p = it.p
        c = Val.r(F(it, r, 'copy'))
        t = Val.r(F(it, c, 'template'))
        return z3.Implies(z3.And(p.has('copy', r), is_type(it, r, *PLAIN)), z3.And(p.has('template', c), Val.is_VRef(F(it, c, 'template')), p.has('type', t), is_type(it, t, *PLAIN), placed(it, t)))

    def points(self, it):
        """The records that matter: what is known of all is known of these."""
        with Here(it, self.pre_heap if hasattr(self, 'pre_heap') else it.p.heap):
            x = self.a['element'].t
            t = Val.r(F(it, Val.r(F(it, x, 'copy')), 'template'))
        return [R0, FRAMED, x, z3.simplify(t)]

    def pre(self, it, a):
        p, x = it.p, a['element'].t
        out = [p.has('copy', x), p.has('type', x), is_type(it, x, *PLAIN)]
        return out + [self.known(it, r) for r in (self.points(it) if a is getattr(self, 'a', None) else [R0])]

    def steady(self, it, a, pre, r):
        """Nothing becomes a copy, kinds of elements stay, and what is being resolved stays as it is."""
        p = it.p
        now, plain, sec = p.has('copy', r), is_type(it, r, *PLAIN), is_type(it, r, T.SECTION)
        with Here(it, pre):
            prev = previous(it, a, 'previous_elements')
            return z3.And(z3.Implies(now, p.has('copy', r)), plain == is_type(it, r, *PLAIN), sec == is_type(it, r, T.SECTION), z3.Implies(z3.Contains(prev, z3.Unit(Val.VRef(r))), now == p.has('copy', r)))

    def post(self, it, a, out, pre):
        p, x = it.p, a['element'].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        with Here(it, pre):
            c = Val.r(F(it, x, 'copy'))
            t = F(it, c, 'template')
            more = p.has('copy', Val.r(t))
            prev = previous(it, a, 'previous_elements')
            cyclic = z3.Contains(prev, z3.Unit(Val.VRef(x)))
        if out.kind == 'raise':
            if mine:
                for _, n, args, heap in errors(p):
                    yield 'cycle-kind', z3.BoolVal(n == 'cyclic_dependency')
                    yield 'cycle-refused', z3.And(cyclic, args[0] == Val.VRef(x), args[-1] == prev)
                if not errors(p):
                    yield 'cycle-free', z3.And(z3.Not(cyclic), z3.BoolVal(bool(p.trace)))
            return
        yield 'cycle-accepted', z3.Not(cyclic)
        yield 'resolved', z3.Not(p.has('copy', x))
        for r in [R0] if mine else it.contract.points(it):
            yield 'resolved-only', self.steady(it, a, pre, r)
        if mine:
            cs, rs = calls(p, 'consolidate'), calls(p, 'resolve')
            yield 'consolidated-once', z3.BoolVal(len(cs) == 1)
            for c in cs[:1]:
                yield 'consolidated-with-template', z3.And(c[2]['element'] == Val.VRef(x), c[2]['template'] == t)
                with Here(it, c[3]):
                    yield 'consolidated-after-template', z3.Not(p.has('copy', Val.r(t)))
            yield 'cycle-followed', z3.Implies(more, z3.BoolVal(len(rs) == 1))
            for r in rs:
                yield 'cycle-path', z3.And(more, r[2]['element'] == t, r[2]['previous_elements'] == z3.Concat(prev, z3.Unit(Val.VRef(x))))
        yield from self.kept(it, mine)


# ---------------------------------------------------------------- sections
class Content(Contract):
    """Context.elements: proved, with what it returns, in contents.py."""
    target = 'enolib.context:Context.elements'
    args = {'self': TObj(Context), 'section': RAW}
    returns = TList(RAW)
    maintains = ()
    frame = {'computed_elements': None, 'computed_elements_map': None}

    def pre(self, it, a):
        return [is_type(it, a['section'].t, T.SECTION, T.DOCUMENT)]

    def apply(self, it, args, kw):
        v = super().apply(it, args, kw)
        a = self.bind(it, args, kw)
        it.p.trace.append(('content', it.to_val(a['section']), it.p.seq(v.t)))
        return v


def element_of(it, e, section=None):
    """A member of a list of elements (of one section)."""
    x = Val.r(e)
    own = [] if section is None else [IN(x, section), z3.Not(IN(section, x))]
    return z3.And(Val.is_VRef(e), x >= 0, it.p.has('type', x), is_type(it, x, T.SECTION, *PLAIN), *own)


class Own(Machine):
    """What the section itself has under a key: nothing (0), one section that is no copy (1), anything else (2)."""

    def __init__(self, it, seq, section, mr, contract):
        super().__init__('own', seq, [z3.IntVal(0), z3.IntVal(0)], None, ['state', 'one'])
        self.section, self.mr, self.contract = section, mr, contract

    def lemmas(self, it, g, i, seq, length):
        it.p.age(z3.simplify(Val.r(seq[i])))
        self.facts(it)
        return [z3.Implies(z3.And(i >= 0, i < length), element_of(it, seq[i], self.section))]

    def facts(self, it):
        p = it.p
        heap = dict(p.heap)

        def at(k):
            with At(it, heap):
                return self.live([('well-formed', merger(it, self.mr, k, self.section))])
        p.map_facts[self.mr.get_id()] = at
        p.ghost['merger-at'] = at

    def relate(self, it, state, locs, g, i):
        p = it.p
        yield 'state', z3.And(g['state'] >= 0, g['state'] <= 2, z3.Select(p.sel(p.arr('d'), self.mr), K0) == (g['state'] > 0))
        v = z3.Select(p.sel(p.arr('m'), self.mr), K0)
        r = Val.r(v)
        yield 'clash', z3.Implies(g['state'] == 2, v == Val.VBool(FALSE))
        yield 'one', z3.Implies(g['state'] == 1, z3.And(Val.is_VRef(v), F(it, r, 'section') == Val.VRef(g['one']), z3.Not(p.has('template', r))))
        yield 'well-formed', merger(it, self.mr, K0, self.section)

    def step(self, it, g, e, i, seq):
        x = z3.simplify(Val.r(seq[i]))
        p = it.p
        hit = F(it, x, 'key') == Val.VStr(K0)
        first = z3.And(g['state'] == 0, is_type(it, x, T.SECTION), z3.Not(p.has('template', x)))
        return [z3.If(hit, z3.If(first, 1, 2), g['state']), z3.If(z3.And(hit, first), x, g['one'])]

    def done(self, it, g, i, seq, length):
        self.facts(it)
        it.p.ghost['own'] = (g['state'], g['one'])
        return []


def merger(it, mr, k, section):
    """What the index may hold under a key."""
    p = it.p
    v = z3.Select(p.sel(p.arr('m'), mr), k)
    r = Val.r(v)
    s, t = F(it, r, 'section'), F(it, r, 'template')
    return z3.Implies(z3.Select(p.sel(p.arr('d'), mr), k), z3.Or(v == Val.VBool(FALSE), z3.And(Val.is_VRef(v), r < 0, KEYF(r) == k, p.has('section', r), Val.is_VRef(s), Val.r(s) >= 0, p.has('type', Val.r(s)), is_type(it, Val.r(s), T.SECTION), IN(Val.r(s), section), z3.Not(IN(section, Val.r(s))), z3.Not(p.has('copy', Val.r(s))),
                      z3.Implies(p.has('template', r), z3.And(Val.is_VRef(t), Val.r(t) >= 0, p.has('type', Val.r(t)), is_type(it, Val.r(t), T.SECTION))))))


class Theirs(Machine):
    """What the template's content has under a key: nothing (0), one section (1), anything else (2); counted if the section's side can merge."""

    def __init__(self, it, seq, section, mr, contract):
        super().__init__('theirs', seq, [z3.IntVal(0), z3.IntVal(0)], None, ['state', 'one'])
        self.section, self.mr, self.own = section, mr, it.p.ghost['own']

    lemmas = Own.lemmas
    facts = Own.facts

    def lemmas(self, it, g, i, seq, length):
        it.p.age(z3.simplify(Val.r(seq[i])))
        self.facts(it)
        return [z3.Implies(z3.And(i >= 0, i < length), element_of(it, seq[i]))]

    def relate(self, it, state, locs, g, i):
        p = it.p
        own, s = self.own
        v = z3.Select(p.sel(p.arr('m'), self.mr), K0)
        r = Val.r(v)
        yield 'range', z3.And(g['state'] >= 0, g['state'] <= 2)
        yield 'keys', z3.Select(p.sel(p.arr('d'), self.mr), K0) == (own > 0)
        yield 'clash', z3.Implies(z3.Or(own == 2, z3.And(own == 1, g['state'] == 2)), v == Val.VBool(FALSE))
        yield 'one', z3.Implies(z3.And(own == 1, g['state'] < 2), z3.And(Val.is_VRef(v), F(it, r, 'section') == Val.VRef(s), p.has('template', r) == (g['state'] == 1)))
        yield 'template', z3.Implies(z3.And(own == 1, g['state'] == 1), F(it, r, 'template') == Val.VRef(g['one']))
        yield 'well-formed', merger(it, self.mr, K0, self.section)
        for k, x in enumerate((FRAMED, self.section, R0)):
            yield f'records-kept {k}', z3.Implies(x >= 0, same(it, it.contract.pre_heap, 'template', x, True))

    def step(self, it, g, e, i, seq):
        x = z3.simplify(Val.r(seq[i]))
        hit = F(it, x, 'key') == Val.VStr(K0)
        first = z3.And(g['state'] == 0, is_type(it, x, T.SECTION))
        return [z3.If(hit, z3.If(first, 1, 2), g['state']), z3.If(z3.And(hit, first), x, g['one'])]

    def done(self, it, g, i, seq, length):
        self.facts(it)
        it.p.ghost['theirs'] = (g['state'], g['one'])
        return []


class Merge(Machine):
    """for merger in merge_map.values()"""

    def __init__(self, it, seq, mr, contract):
        super().__init__('merge', seq, [], None, [])
        self.mr, self.contract, self.heap = mr, contract, dict(it.p.heap)

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['merging'] = (i, len(p.trace), dict(p.heap), z3.simplify(seq[i]))
        out = []
        for r in self.contract.points(it):
            out += [f for k, f in enumerate(complete(it, r, self.contract.a['section'].t)) if ('merge', 'relate', f'well-formed {k}') not in self.info.dead]
        return out + list(p.ghost['merger-at'](z3.simplify(seq[i])))

    def relate(self, it, state, locs, g, i):
        x = it.contract.a['section'].t
        for f in ('comments', 'mirror', 'extend'):
            yield 'framed ' + f, z3.Or(FRAMED < 0, IN(FRAMED, x), same(it, it.contract.pre_heap, f, FRAMED, True))
            yield 'unchanged ' + f, same(it, self.heap, f, x)
        for k, f in enumerate(complete(it, R0, x)):
            yield f'well-formed {k}', f

    def done(self, it, g, i, seq, length):
        it.p.ghost['merge-done'] = True
        return []

    def merged(self, it):
        (own, s), (theirs, t) = it.p.ghost['own'], it.p.ghost['theirs']
        return z3.And(own == 1, theirs == 1), s, t

    def step(self, it, g, e, i, seq):
        p = it.p
        _, n, heap, key = p.ghost['merging']
        here = key == K0
        yes, s, t = self.merged(it)
        cs = calls(p, 'merge', n)
        p.prove('merged-once', z3.BoolVal(len(cs) <= 1))
        p.prove('merged-iff-both-have-one-section', z3.Implies(here, yes == z3.BoolVal(len(cs) == 1)))
        for c in cs:
            p.prove('merged-with', z3.Implies(here, z3.And(c[2]['section'] == Val.VRef(s), c[2]['template'] == Val.VRef(t), c[2]['deep_merge'] == Val.VBool(TRUE))))
            p.prove('merged-acyclic', z3.Implies(here, z3.Not(itself(it, t))))
        return []


def itself(it, t):
    """The template subsection is a copy of its own key."""
    return z3.And(it.p.has('template', t), F(it, t, 'template') == F(it, t, 'key'))


class ConsolidateSection(Recorded):
    target = 'enolib.resolver:Resolver.consolidate_sections'
    args = {'self': TObj(Resolver), 'section': RAW, 'template': RAW, 'deep_merge': TBool()}
    nick = 'merge'
    props = ('C01', 'C09', 'C10')
    concerns = {'C10': ('merged-acyclic', 'error', 'cycle', 'raises-nothing-else')}

    def frame_of(self, it, a):
        x = a['section'].t
        within = lambda it, a, r: IN(r, x)
        return {**{k: within for k in ('comments', 'mirror', 'extend')}, 'computed_elements': None, 'computed_elements_map': None}

    def axioms(self, it, a):
        x = a['section'].t
        return super().axioms(it, a) + [IN(x, x), *transitive()]

    def pre(self, it, a):
        p, x, t = it.p, a['section'].t, a['template'].t
        return [p.has('type', x), p.has('type', t), is_type(it, x, T.SECTION), is_type(it, t, T.SECTION), COPY(x)]

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if seq is None:
            return None
        maps = [v for e in chain(env) for v in e.vars.values() if isinstance(v, Ref) and isinstance(v.typ, TMap) and lit(v.t) is not None and lit(v.t) < 0]
        if len({str(v.t) for v in maps}) != 1:
            return None
        mr = maps[0].t
        x = self.a['section'].t
        with Here(it, self.pre_heap):
            own = content(it, x, 'elements')
        if z3.simplify(seq).eq(z3.simplify(p.sel(p.arr('k'), mr))):
            return [Merge(it, seq, mr, self)] if 'theirs' in p.ghost else None
        if 'own' not in p.ghost:
            return [Own(it, seq, x, mr, self)] if p.implied(seq == own) else None
        got = [t for t in p.trace if t and t[0] == 'content']
        if len(got) == 1 and p.implied(z3.And(seq == got[0][2], got[0][1] == Val.VRef(self.a['template'].t))):
            return [Theirs(it, seq, x, mr, self)]
        return None

    def on_map_set(self, it, o, k, v):
        n = lit(v.t) if isinstance(v, Ref) else None
        if n is not None and n < 0 and n in it.p.allocs:
            from .instantiate import once
            once(it, ('merger', n), [KEYF(v.t) == k])

    def post(self, it, a, out, pre):
        p, x, t = it.p, a['section'].t, a['template'].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        with Here(it, pre):
            empty = z3.Length(content(it, x, 'elements')) == 0
        if out.kind == 'raise':
            if mine:
                if 'merging' in p.ghost:
                    _, n, heap, key = p.ghost['merging']
                    (own, s), (theirs, u) = p.ghost['own'], p.ghost['theirs']
                    here = key == K0
                    es = errors(p, n)
                    for _, name, args, h in es:
                        yield 'cycle-kind', z3.BoolVal(name == 'cyclic_dependency')
                        with Here(it, h):
                            yield 'cycle-refused', z3.Implies(here, z3.And(own == 1, theirs == 1, itself(it, u), args[0] == Val.VRef(s), args[-1] == z3.Concat(z3.Unit(Val.VRef(s)), z3.Unit(Val.VRef(u)))))
                    if not es:
                        yield 'raised-by-merge', z3.BoolVal(len(calls(p, 'merge', n)) == 1)
                else:
                    yield 'raises-in-merges-only', FALSE
            return
        yield 'comments', comments_taken(it, pre, x, t)
        yield 'mirror', z3.If(empty, mirrors(it, pre, x, t), same(it, pre, 'mirror', x))
        yield 'extend', z3.If(empty, same(it, pre, 'extend', x), z3.And(p.has('extend', x), F(it, x, 'extend') == Val.VRef(t)))
        if mine:
            deep = Val.b(it.to_val(a['deep_merge']))
            ran = 'merge-done' in p.ghost
            yield 'deep-merge', z3.BoolVal(ran) == z3.And(z3.Not(empty), deep)
        yield from self.kept(it, mine, x)


def chain(env):
    while env is not None:
        yield env
        env = env.parent


def transitive():
    r, y, z = z3.Ints('r!in y!in z!in')
    return [z3.ForAll([r, y, z], z3.Implies(z3.And(IN(r, y), IN(y, z)), IN(r, z)), patterns=[z3.MultiPattern(IN(r, y), IN(y, z))]),
            z3.ForAll([r, y], z3.Implies(z3.And(COPY(y), IN(r, y)), COPY(r)), patterns=[z3.MultiPattern(COPY(y), IN(r, y))])]


class Inside(Machine):
    """for section_element in section['elements']: what it contains is resolved first"""

    def __init__(self, it, seq, contract):
        super().__init__('inside', seq, [], None, [])
        self.c, self.heap = contract, dict(it.p.heap)

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['inside'] = (i, len(p.trace), dict(p.heap))
        out = []
        for r in self.c.points(it):
            out += self.live(list(self.about(it, r)))
        p.age(z3.simplify(Val.r(seq[i])))
        return out + [z3.Implies(z3.And(i >= 0, i < length), element_of(it, seq[i], self.c.a['section'].t))]

    def about(self, it, r):
        yield 'steady', self.c.steady(it, self.c.a, self.c.pre_heap, r)
        yield 'on-path', z3.Implies(r == self.c.a['section'].t, z3.And([same(it, self.c.pre_heap, f, r, True) for f in ('copy', 'deep_resolve')]))
        for k, f in enumerate(well_formed(it, r)):
            yield f'well-formed {k}', f
        for f in ('comments', 'mirror', 'extend'):
            yield 'framed ' + f, z3.Or(r < 0, COPY(r), same(it, self.c.pre_heap, f, r, True))
        h = it.p.has('copy', r)
        with Here(it, self.c.pre_heap):
            f = z3.Or(r < 0, COPY(r), h == it.p.has('copy', r))
        yield 'framed copy', f

    def relate(self, it, state, locs, g, i):
        yield from self.about(it, R0)

    def step(self, it, g, e, i, seq):
        p = it.p
        _, n, heap = p.ghost['inside']
        x = z3.simplify(Val.r(seq[i]))
        with Here(it, heap):
            due = z3.And(is_type(it, x, T.SECTION), z3.Or(p.has('copy', x), p.has('deep_resolve', x)))
        rs = calls(p, 'resolve', n)
        p.prove('resolved-inside', z3.And(due == z3.BoolVal(len(rs) == 1), z3.BoolVal(len(rs) <= 1)))
        for r in rs:
            p.prove('cycle-path-inside', self.c.followed(it, r, seq[i]))
        return []

    def done(self, it, g, i, seq, length):
        it.p.ghost['inside-done'] = True
        out = []
        for r in self.c.points(it):
            out += self.live(list(self.about(it, r)))
        return out


class ResolveSection(Recorded):
    target = 'enolib.resolver:Resolver.resolve_section'
    args = {'self': TObj(Resolver), 'section': RAW, 'previous_sections': TList(RAW)}
    nick = 'resolve'
    props = ('C01', 'C09', 'C10')
    concerns = {'C09': ('consolidate', 'resolved', 'frame', 'well-formed', 'pre', 'inside')}

    def axioms(self, it, a):
        return super().axioms(it, a) + [IN(a['section'].t, a['section'].t), *transitive()]

    def frame_of(self, it, a):
        only_copies = lambda it, a, r: COPY(r)
        return {**{k: only_copies for k in ('comments', 'mirror', 'extend')}, ('h', 'copy'): only_copies, ('h', 'deep_resolve'): None, 'computed_elements': None, 'computed_elements_map': None}

    def known(self, it, r):
        p = it.p
        c = Val.r(F(it, r, 'copy'))
        t = Val.r(F(it, c, 'template'))
        return z3.Implies(z3.And(p.has('copy', r), is_type(it, r, T.SECTION)), z3.And(p.has('template', c), Val.is_VRef(F(it, c, 'template')), p.has('type', t), is_type(it, t, T.SECTION), placed(it, t)))

    def points(self, it):
        with Here(it, self.pre_heap if hasattr(self, 'pre_heap') else it.p.heap):
            x = self.a['section'].t
            t = Val.r(F(it, Val.r(F(it, x, 'copy')), 'template'))
        return [R0, FRAMED, x, z3.simplify(t)]

    def pre(self, it, a):
        p, x = it.p, a['section'].t
        out = [p.has('type', x), is_type(it, x, T.SECTION)]
        return out + [self.known(it, r) for r in (self.points(it) if a is getattr(self, 'a', None) else [R0])]

    def steady(self, it, a, pre, r):
        """Nothing becomes a copy or unresolved, and what is being resolved stays as it is."""
        p = it.p
        now = [p.has(f, r) for f in ('copy', 'deep_resolve')]
        with Here(it, pre):
            prev = previous(it, a, 'previous_sections')
            was = [p.has(f, r) for f in ('copy', 'deep_resolve')]
            on_path = z3.Contains(prev, z3.Unit(Val.VRef(r)))
        return z3.And([z3.And(z3.Implies(n, w), z3.Implies(on_path, n == w)) for n, w in zip(now, was)])

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None:
            return None
        with Here(it, self.pre_heap):
            own = content(it, self.a['section'].t, 'elements')
        return [Inside(it, seq, self)] if it.p.implied(seq == own) else None

    def followed(self, it, call, to):
        with Here(it, self.pre_heap):
            prev = previous(it, self.a, 'previous_sections')
        return z3.And(call[2]['section'] == to, call[2]['previous_sections'] == z3.Concat(prev, z3.Unit(Val.VRef(self.a['section'].t))))

    def post(self, it, a, out, pre):
        p, x = it.p, a['section'].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        with Here(it, pre):
            copy, deep = p.has('copy', x), p.has('deep_resolve', x)
            t = F(it, Val.r(F(it, x, 'copy')), 'template')
            merge = p.has('deep_copy', x)
            prev = previous(it, a, 'previous_sections')
            cyclic = z3.Contains(prev, z3.Unit(Val.VRef(x)))
        if out.kind == 'raise':
            if mine:
                for _, n, args, heap in errors(p):
                    yield 'cycle-kind', z3.BoolVal(n == 'cyclic_dependency')
                    yield 'cycle-refused', z3.And(cyclic, args[0] == Val.VRef(x), args[-1] == prev)
                if not errors(p):
                    yield 'cycle-free', z3.And(z3.Not(cyclic), z3.BoolVal(bool(p.trace)))
            return
        yield 'cycle-accepted', z3.Not(cyclic)
        yield 'resolved', z3.Not(z3.Or(p.has('copy', x), p.has('deep_resolve', x)))
        for r in [R0] if mine else it.contract.points(it):
            yield 'resolved-only', self.steady(it, a, pre, r)
        if mine:
            start = p.ghost['inside'][1] if 'inside' in p.ghost else 0
            cs, rs = calls(p, 'merge'), calls(p, 'resolve', start)
            yield 'resolved-inside-first', z3.Implies(deep, z3.BoolVal('inside-done' in p.ghost))
            yield 'consolidated-once', z3.And(copy == z3.BoolVal(len(cs) == 1), z3.BoolVal(len(cs) <= 1))
            for c in cs:
                yield 'consolidated-with-template', z3.And(c[2]['section'] == Val.VRef(x), c[2]['template'] == t, c[2]['deep_merge'] == Val.VBool(merge))
                with Here(it, c[3]):
                    yield 'consolidated-after-template', z3.Not(z3.Or(p.has('copy', Val.r(t)), p.has('deep_resolve', Val.r(t))))
                    yield 'consolidated-after-inside', z3.Not(p.has('deep_resolve', x))
            for r in rs:
                yield 'cycle-path', z3.And(copy, self.followed(it, r, t))
        yield from self.kept(it, mine)


# ---------------------------------------------------------------- templates
MAPS = {'_unresolved_sections': '_copy_sections', '_unresolved_non_section_elements': '_copy_non_section_elements'}


def copies(it, a, f):
    """The copies waiting for a template: (is there a map, the map)."""
    p = it.p
    c = Val.r(p.val('_context', a['self'].t))
    return p.has(f, c), z3.simplify(Val.r(F(it, c, f)))


def data_at(it, mr, k):
    """What is known of an entry of the map."""
    p = it.p
    v = z3.Select(p.sel(p.arr('m'), mr), k)
    r = Val.r(v)
    return z3.Implies(z3.Select(p.sel(p.arr('d'), mr), k), z3.And(Val.is_VRef(v), r >= 0, DATA(r), KEYF(r) == k, HELD(r) == mr, *well_formed_data(it, r)))


def found(it, a, k):
    """A template that was found has the key, is of the kind, and is no copy of that very key."""
    p = it.p
    out = []
    for f in MAPS.values():
        there, mr = copies(it, a, f)
        d = Val.r(z3.Select(p.sel(p.arr('m'), mr), k))
        t = F(it, d, 'template')
        x = Val.r(t)
        types = (T.SECTION,) if f == '_copy_sections' else PLAIN
        out.append(z3.Implies(z3.And(there, z3.Select(p.sel(p.arr('d'), mr), k), p.has('template', d)), z3.And(
            Val.is_VRef(t), x >= 0, z3.Not(DATA(x)), p.has('type', x), is_type(it, x, *types), placed(it, x), F(it, x, 'key') == Val.VStr(k),
            z3.Not(z3.And(p.has('template', x), F(it, x, 'template') == Val.VStr(k))))))
    return z3.And(out)


def two_maps(it, a):
    c = Val.r(it.p.val('_context', a['self'].t))
    a1, a2 = (copies(it, a, f)[1] for f in MAPS.values())
    return z3.Implies(z3.And(*[it.p.has(f, c) for f in MAPS.values()]), a1 != a2)


class Scan(Machine):
    """for element in section['elements']"""

    def __init__(self, it, seq, contract):
        super().__init__('scan', seq, [], None, [])
        self.c = contract

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['scan'] = (i, len(p.trace), dict(p.heap), z3.simplify(seq[i]))
        x = z3.simplify(Val.r(seq[i]))
        p.age(x)
        self.c.maps(it)
        fs = [f for k in self.c.keys(it) for f in self.live([('found', found(it, self.c.a, k))])]
        return fs + [z3.Implies(z3.And(i >= 0, i < length), z3.And(element_of(it, seq[i]), z3.Not(DATA(x)), *well_formed(it, x)))]

    def relate(self, it, state, locs, g, i):
        yield 'found', found(it, self.c.a, K0)
        for r, n in ((FRAMED, 'any'), (R0, 'record')):
            yield 'framed ' + n, z3.Or(r < 0, DATA(r), same(it, self.c.pre_heap, 'template', r, True))

    def step(self, it, g, e, i, seq):
        p = it.p
        _, n, heap, e = p.ghost['scan']
        x = z3.simplify(Val.r(e))
        ins = calls(p, 'index', n)
        sec = is_type(it, x, T.SECTION)
        p.prove('indexed-inside', z3.And(sec == z3.BoolVal(len(ins) == 1), z3.BoolVal(len(ins) <= 1)))
        for c in ins:
            p.prove('indexed-inside', c[2]['section'] == e)
        for due, d, h1 in self.c.entries(it, x, n, heap):
            was, now = (lambda: None), F(it, d, 'template')
            with Here(it, h1):
                taken = p.has('template', d)
            p.prove('template-registered', z3.Implies(due, z3.And(z3.Not(taken), p.has('template', d), now == e)))
        h1 = self.c.after(it, n, heap)
        dues = [z3.And(due, d == R1) for due, d, _ in self.c.entries(it, x, n, heap)]
        p.prove('template-otherwise-kept', z3.Or(*dues, same(it, h1, 'template', R1, True)))
        return []

    def done(self, it, g, i, seq, length):
        it.p.ghost['scan-done'] = True
        return []


R1 = z3.Int('any_data')


class FindTemplates(Recorded):
    target = 'enolib.resolver:Resolver.index'
    args = {'self': TObj(Resolver), 'section': RAW}
    nick = 'index'
    props = ('C01', 'C08', 'C09', 'C10')
    concerns = {'C08': ('template', 'found', 'frame'), 'C09': ('template', 'found', 'indexed', 'frame')}

    def frame_of(self, it, a):
        return {'template': lambda it, a, r: DATA(r)}

    def points(self, it):
        return [R0, R1, FRAMED]

    def keys(self, it):
        """Keys that matter: what is known of all is known of these."""
        if 'scan' not in it.p.ghost:
            return [K0]
        return [K0, Val.s(F(it, z3.simplify(Val.r(it.p.ghost['scan'][3])), 'key'))]

    def flags(self, it):
        s = self.a['self'].t
        return {f: Val.b(F(it, s, f)) for f in MAPS}

    def maps(self, it):
        p = it.p
        for f in MAPS.values():
            there, mr = copies(it, self.a, f)
            heap = dict(p.heap)

            def at(k, mr=mr, there=there, heap=heap):
                with Here(it, heap):
                    return [z3.Implies(there, data_at(it, mr, k))]
            p.map_facts[mr.get_id()] = at

    def axioms(self, it, a):
        out = super().axioms(it, a)
        self.maps(it)
        p = it.p
        if a is self.a:
            for flag, f in MAPS.items():
                there, mr = copies(it, a, f)
                out += [z3.Implies(there, data_at(it, mr, K0))]
            out.append(two_maps(it, a))
        return out

    def setup(self, it):
        self.a = super().setup(it)
        return self.a

    def pre(self, it, a):
        p, x = it.p, a['section'].t
        s = a['self'].t
        flags = [z3.Implies(Val.b(F(it, s, g)), z3.And(copies(it, a, f)[0], Val.is_VRef(F(it, Val.r(F(it, s, '_context')), f)))) for g, f in MAPS.items()]
        return [p.has('type', x), is_type(it, x, T.SECTION, T.DOCUMENT), *flags, *[found(it, a, k) for k in ([K0] if a is not getattr(self, 'a', None) else self.keys(it))]]

    def after(self, it, n, heap):
        """The state once what is inside the element has been indexed."""
        got = [t for t in it.p.trace[n:] if t and t[0] == 'called' and t[1] == 'index']
        return got[-1][2] if got else heap

    def entries(self, it, x, n, heap):
        """(whether the element is a template that is asked for, the entry, the state before it is dealt with)"""
        p = it.p
        h1 = self.after(it, n, heap)
        k = Val.s(F(it, x, 'key'))
        sec = is_type(it, x, T.SECTION)
        own = z3.And(p.has('template', x), F(it, x, 'template') == Val.VStr(k))
        for flag, f in MAPS.items():
            there, mr = copies(it, self.a, f)
            on = Val.b(F(it, self.a['self'].t, flag))
            d = z3.simplify(Val.r(z3.Select(p.sel(p.arr('m'), mr), k)))
            yield z3.And(sec if f == '_copy_sections' else z3.Not(sec), on, z3.Select(p.sel(p.arr('d'), mr), k), z3.Not(own)), d, h1

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None:
            return None
        own = content(it, self.a['section'].t, 'elements')
        return [Scan(it, seq, self)] if it.p.implied(seq == own) else None

    def post(self, it, a, out, pre):
        p, x = it.p, a['section'].t
        mine = it.contract is self and a is getattr(self, 'a', None)
        if out.kind == 'raise':
            if mine and 'scan' in p.ghost:
                _, n, heap, e = p.ghost['scan']
                x = z3.simplify(Val.r(e))
                es = errors(p, n)
                for _, name, args, h in es:
                    yield 'template-clash-kind', z3.BoolVal(name == 'two_or_more_templates_found')
                    ok = []
                    with Here(it, h):
                        for due, d, h1 in self.entries(it, x, n, heap):
                            t0 = z3.simplify(content(it, d, 'targets'))[0]
                            ok.append(z3.And(due, p.has('template', d), args[0] == t0, args[1] == F(it, d, 'template'), args[-1] == e))
                    yield 'template-clash', z3.Or(ok)
                if not es:
                    yield 'raised-inside', z3.BoolVal(len(calls(p, 'index', n)) == 1)
            return
        if mine:
            yield 'indexed-all', z3.BoolVal('scan-done' in p.ghost)
        for k in [K0] if mine else it.contract.keys(it):
            yield 'found', found(it, a, k)
        for r in [R0] if mine else it.contract.points(it):
            yield 'record-kept', z3.Or(DATA(r), same(it, pre, 'template', r, True))


class Present(Machine):
    """for copy in ....values(): every one has found a template"""

    def __init__(self, it, seq, mr, contract):
        super().__init__('present', seq, [], None, [])
        self.mr, self.c = mr, contract

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['present'] = (i, len(p.trace), dict(p.heap), z3.simplify(seq[i]), self.mr)
        return [data_at(it, self.mr, z3.simplify(seq[i]))]

    def relate(self, it, state, locs, g, i):
        p = it.p
        k = POS(self.mr, K0)
        yield 'present', z3.Implies(z3.And(k >= 0, k < i), p.has('template', Val.r(z3.Select(p.sel(p.arr('m'), self.mr), p.sel(p.arr('k'), self.mr)[k]))))

    def step(self, it, g, e, i, seq):
        return []


class Outer(Machine):
    """for copy in ....values(): its targets are resolved"""

    def __init__(self, it, seq, mr, contract):
        super().__init__('copies', seq, [], None, [])
        self.mr, self.c = mr, contract

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost.pop('present', None)
        k = z3.simplify(seq[i])
        p.ghost['copies'] = (i, k, self.mr)
        p.ghost['targets-done'] = []
        return [data_at(it, self.mr, k), *self.c.sound(it, self.mr, k), *self.carried(it)]

    def done(self, it, g, i, seq, length):
        it.p.ghost.setdefault(self.name + '-done', []).append(self.mr)
        return []

    def carried(self, it):
        return self.live(list(self.about(it)))

    def about(self, it):
        f = self.c.name_of(it, self.mr)
        yield 'known', self.c.known(it, R0, f)
        for k, r in enumerate(self.c.points(it)):
            now, sec = it.p.has('copy', r), is_type(it, r, T.SECTION)
            with Here(it, self.c.pre_heap):
                same_kind = z3.And(z3.Implies(now, it.p.has('copy', r)), sec == is_type(it, r, T.SECTION))
            yield f'kind {k}', same_kind
        for k, x in enumerate(well_formed(it, R0)):
            yield f'well-formed {k}', x
        for f in ('comments', 'mirror', 'extend', 'copy'):
            yield 'framed ' + f, z3.Or(FRAMED < 0, COPY(FRAMED), same(it, self.c.pre_heap, f, FRAMED, True))
        t = F(it, FRAMED, 'type')
        with Here(it, self.c.pre_heap):
            f = z3.Or(FRAMED < 0, COPY(FRAMED), t == F(it, FRAMED, 'type'))
        yield 'framed type', f

    def relate(self, it, state, locs, g, i):
        yield from self.about(it)

    def step(self, it, g, e, i, seq):
        p = it.p
        p.prove('targets-of-every-copy', z3.BoolVal(len(p.ghost['targets-done']) == 1))
        return []


class Targets(Outer):
    """for target in copy['targets']"""

    def __init__(self, it, seq, mr, contract):
        super().__init__(it, seq, mr, contract)
        self.name = 'targets'

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['target'] = (i, len(p.trace), dict(p.heap))
        x = z3.simplify(Val.r(seq[i]))
        p.age(x)
        types = (T.SECTION,) if self.c.name_of(it, self.mr) == '_copy_sections' else PLAIN
        return [z3.Implies(z3.And(i >= 0, i < length), z3.And(Val.is_VRef(seq[i]), x >= 0, z3.Not(DATA(x)), p.has('type', x), is_type(it, x, *types))), *self.carried(it)]

    def step(self, it, g, e, i, seq):
        p = it.p
        _, n, heap = p.ghost['target']
        with Here(it, heap):
            due = p.has('copy', z3.simplify(Val.r(seq[i])))
        rs = calls(p, 'resolve', n)
        p.prove('resolves-every-copy', z3.And(due == z3.BoolVal(len(rs) == 1), z3.BoolVal(len(rs) <= 1)))
        for r in rs:
            first = r[2].get('element', r[2].get('section'))
            rest = r[2].get('previous_elements', r[2].get('previous_sections'))
            p.prove('resolves-from-here', z3.And(first == seq[i], rest == z3.Empty(SeqVal)) if rest is not None and rest.sort() == SeqVal else first == seq[i])
        return []


class Resolve(Recorded):
    target = 'enolib.resolver:Resolver.resolve'
    args = {'self': TObj(Resolver)}
    nick = 'resolve-all'
    props = ('C01', 'C08', 'C09', 'C10')
    concerns = {'C08': ('resolve', 'target', 'known', 'frame'), 'C09': ('resolve', 'target', 'known', 'frame')}

    def frame_of(self, it, a):
        c = Val.r(F(it, a['self'].t, '_context'))
        only_copies = lambda it, a, r: COPY(r)
        return {**{k: only_copies for k in ('comments', ('v', 'type'), 'mirror', 'extend')}, ('h', 'copy'): only_copies, ('h', 'deep_resolve'): None,
                'template': lambda it, a, r: DATA(r), 'computed_elements': None, 'computed_elements_map': None,
                **{f: (lambda it, a, r: r == c) for f in MAPS.values()}}

    def setup(self, it):
        self.a = super().setup(it)
        return self.a

    def name_of(self, it, mr):
        with Here(it, self.pre_heap):
            for f in MAPS.values():
                if copies(it, self.a, f)[1].eq(mr):
                    return f

    def points(self, it):
        return [R0, FRAMED, z3.simplify(Val.r(F(it, Val.r(F(it, R0, 'copy')), 'template')))]

    def keys(self, it):
        return [K0]

    def doc(self, it, a):
        c = Val.r(F(it, a['self'].t, '_context'))
        return Val.r(F(it, c, 'document'))

    def pre(self, it, a):
        p, s = it.p, a['self'].t
        c = Val.r(F(it, s, '_context'))
        return [z3.And(Val.b(F(it, s, g)) == p.has(f, c), z3.Implies(p.has(f, c), Val.is_VRef(F(it, c, f)))) for g, f in MAPS.items()] + [
            p.has('document', c), Val.is_VRef(F(it, c, 'document')), p.has('type', self.doc(it, a)), is_type(it, self.doc(it, a), T.DOCUMENT), found(it, a, K0)]

    def axioms(self, it, a):
        p = it.p
        out = super().axioms(it, a)
        r = Val.r(F(it, R0, 'copy'))
        for f in MAPS.values():
            there, mr = copies(it, a, f)
            types = (T.SECTION,) if f == '_copy_sections' else PLAIN
            ks = p.sel(p.arr('k'), mr)
            k = POS(mr, K0)
            out += [z3.Implies(there, data_at(it, mr, K0)),
                    # every key of a dictionary is listed
                    z3.Implies(z3.And(there, z3.Select(p.sel(p.arr('d'), mr), K0)), z3.And(k >= 0, k < z3.Length(ks), ks[k] == K0)),
                    # the analyzer: a copy waits under the key of its template
                    z3.Implies(z3.And(p.has('copy', R0), is_type(it, R0, *types)), z3.And(there, z3.Select(p.sel(p.arr('d'), mr), K0), F(it, R0, 'copy') == z3.Select(p.sel(p.arr('m'), mr), K0)))]
        a1, a2 = (copies(it, a, f)[1] for f in MAPS.values())
        self.refs = [a1, a2]
        c = Val.r(F(it, a['self'].t, '_context'))
        return out + [two_maps(it, a), z3.Not(COPY(c)), z3.Not(DATA(c))]

    def known(self, it, r, f):
        p = it.p
        c = Val.r(F(it, r, 'copy'))
        t = Val.r(F(it, c, 'template'))
        types = (T.SECTION,) if f == '_copy_sections' else PLAIN
        return z3.Implies(z3.And(p.has('copy', r), is_type(it, r, *types)), z3.And(p.has('template', c), Val.is_VRef(F(it, c, 'template')), p.has('type', t), is_type(it, t, *types), placed(it, t)))

    def sound(self, it, mr, k):
        return []

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if seq is None:
            return None
        for mr in self.refs:
            if seq.sort() != SeqVal and p.implied(seq == p.sel(p.arr('k'), mr)):
                checked = p.ghost.setdefault('checked', [])
                if not any(m.eq(mr) for m in checked):
                    checked.append(mr)
                    return [Present(it, seq, mr, self)]
                return [Outer(it, seq, mr, self)]
        if 'copies' in p.ghost and seq.sort() == SeqVal:
            _, k, mr = p.ghost['copies']
            d = Val.r(z3.Select(p.sel(p.arr('m'), mr), k))
            if p.implied(seq == content(it, d, 'targets')):
                return [Targets(it, seq, mr, self)]
        return None

    def post(self, it, a, out, pre):
        p, s = it.p, a['self'].t
        c = Val.r(F(it, s, '_context'))
        with Here(it, pre):
            there = {f: p.has(f, c) for f in MAPS.values()}
        if out.kind == 'raise':
            if 'present' in p.ghost and errors(p, p.ghost['present'][1]):
                _, n, heap, k, mr = p.ghost['present']
                for _, name, args, h in errors(p, n):
                    f = self.name_of(it, mr)
                    yield 'missing-kind', z3.BoolVal(name == {'_copy_sections': 'section_not_found', '_copy_non_section_elements': 'non_section_element_not_found'}[f])
                    with Here(it, h):
                        d = Val.r(z3.Select(p.sel(p.arr('m'), mr), k))
                        yield 'missing', z3.And(z3.Not(p.has('template', d)), args[0] == z3.simplify(content(it, d, 'targets'))[0])
            else:
                yield 'refused-by-callee', z3.BoolVal(not errors(p) and bool(calls(p, 'index') + calls(p, 'resolve')))
            return
        ix = calls(p, 'index')
        yield 'indexed', z3.And(z3.BoolVal(len(ix) == 1), *[t[2]['section'] == Val.VRef(self.doc(it, a)) for t in ix])
        for f in MAPS.values():
            yield 'every-copy-resolved', z3.And(z3.Not(p.has(f, c)), there[f] == z3.BoolVal(any(t.eq(copies_at(it, a, pre, f)) for t in p.ghost.get('copies-done', []))))
        yield from self.kept(it, True)


def copies_at(it, a, pre, f):
    with Here(it, pre):
        return copies(it, a, f)[1]


class Begin(Contract):
    """The resolver works on the copies the analyzer left."""
    target = 'enolib.resolver:Resolver.__init__'
    args = {'self': TObj(Resolver), 'context': TObj(Context)}
    props = ('C01', 'C08', 'C09', 'C10')
    maintains = ()

    def setup(self, it):
        a = super().setup(it)
        a['self'] = Ref(it.p.alloc(Resolver), TObj(Resolver))
        return a

    def post(self, it, a, out, pre):
        p, s, c = it.p, a['self'].t, a['context'].t
        yield 'returns', z3.BoolVal(out.kind == 'return')
        yield 'context', z3.And(p.has('_context', s), F(it, s, '_context') == Val.VRef(c))
        for g, f in MAPS.items():
            yield 'copies-noticed', z3.And(p.has(g, s), Val.is_VBool(F(it, s, g)), Val.b(F(it, s, g)) == p.has(f, c))


def contracts():
    return [Begin(), ConsolidateElement(), ResolveElement(), ConsolidateSection(), ResolveSection(), FindTemplates(), Resolve()]


def uses():
    return [Content()]
