"""The analyzer: what one line of the document adds to the instructions.

The records the analyzer builds are raw: nothing is assumed about them but what the loop invariants say. Every iteration of the
main loop is checked against the transition the properties describe; which construct a line is comes from the groups of the match.
"""
import re
import re._parser as sre_parse
import re._constants as C
from pyvc import regex as RX
from pyvc.regex import EOL, LINES, SUBSTR, HIT, eol
from pyvc.loops import Machine
from pyvc.contract import FRAMED
from pyvc.core import REGION, PathEnd
from pyvc.interp import Schema
from enolib.grammar_regex import Grammar
from .lib import *  # noqa: F401,F403
from .lib import F, T, fref
from .world import Context, analyzer, Parsing, ParseError, parsing

RAW, RANGES_ = TRec('Raw'), TRec('RawRanges')
ROLE = z3.Function('role_of_list', I, I)     # what a list is for (set when it is made)
ELEMENTS, ITEMS, ENTRIES, CONTS, COMMENTS, META, LINES_, TARGETS = range(1, 9)
D0, J0 = z3.Int('any_depth'), z3.Int('any_line')
SPANS = ('line', 'key', 'value', 'template', 'comment', 'element_operator', 'entry_operator', 'item_operator', 'copy_operator', 'deep_copy_operator',
         'escape_begin_operator', 'escape_end_operator', 'section_operator', 'multiline_field_operator', 'comment_operator',
         'direct_line_continuation_operator', 'spaced_line_continuation_operator')


# ---------------------------------------------------------------- world
PARSING_PRE = {
    'invalid_line': ((), ()), 'missing_element_for_continuation': ((), ()), 'missing_fieldset_for_fieldset_entry': ((), ()),
    'missing_list_for_list_item': ((), ()), 'section_hierarchy_layer_skip': ((), ('type',)), 'unterminated_multiline_field': (('key', 'type'), ()),
}


def parse_error(name):
    needs, second = PARSING_PRE[name]

    def model(it, args, kw):
        p = it.p
        if kw:
            raise Unsupported('keyword arguments of a parse error')
        xs = [it.force(x) for x in args[1:]]
        if not xs or not all(isinstance(x, Ref) for x in xs):
            raise it.type_error(f'{name} of {args[1:]!r}')
        x = xs[0].t
        r = Val.r(F(it, x, 'ranges'))
        p.prove(f'call({name}).pre', z3.And(p.has('line', x), Val.is_VInt(F(it, x, 'line')), p.has('ranges', x), p.has('line', r), Val.is_VPair(F(it, r, 'line')),
                                            *[p.has(f, x) for f in needs]))
        for y in xs[1:]:
            p.prove(f'call({name}).pre', z3.And(*[p.has(f, y.t) for f in second], z3.Or(F(it, y.t, 'type') == kind(T.DOCUMENT), p.has('line', y.t))))
        p.prove(f'call({name}).context', z3.BoolVal(isinstance(it.force(args[0]), Ref)))
        p.trace.append(('parse-error', name, [Val.VRef(y.t) for y in xs], dict(p.heap)))
        n = p.alloc(ParseError)
        return Ref(n, TObj(ParseError))
    return model


def kind(x):
    return Val.VConst(const_id(x)) if not isinstance(x, str) else Val.VStr(z3.StringVal(x))


def world(w):
    L = TList(RAW)
    w.schemas['Raw'] = Schema('Raw', {'type': TAny(), 'line': TInt(), 'ranges': RANGES_, 'key': TOpt(TStr()), 'value': TStr(), 'comment': TStr(), 'template': TStr(),
                                      'parent': RAW, 'comments': L, 'continuations': L, 'lines': L, 'end': RAW, 'items': L, 'entries': L, 'elements': L,
                                      'copy': TRec('CopyData'), 'deep_copy': TBool(), 'deep_resolve': TBool(), 'spaced': TBool()})
    w.schemas['RawRanges'] = Schema('RawRanges', {f: TSpan() for f in SPANS})
    w.schemas['CopyData'] = Schema('CopyData', {'targets': L, 'template': RAW})
    copies = TMap(TRec('CopyData'))
    w.classes[Context] = Schema('Context', {**w.classes[Context].fields, 'document': RAW, 'meta': L, '_copy_sections': copies, '_copy_non_section_elements': copies},
                                lambda it, r: [it.p.has(f, r) for f in ('input', 'messages', 'reporter')])
    w.classes[analyzer.Analyzer] = Schema('Analyzer', {'_context': TObj(Context), '_depth': TInt(), '_index': TInt(), '_line': TInt()})
    keys = {('line', 'ranges'): RAW, ('line', 'ranges', 'type'): RAW, ('elements', 'type'): RAW, ('line',): RANGES_, ('line', 'value'): RANGES_,
            ('key', 'line', 'multiline_field_operator'): RANGES_, ('targets',): TRec('CopyData'), ('ranges',): RAW}
    other = w.literal_type

    def literal(ks):
        k = tuple(sorted(ks))
        if k in keys:
            return keys[k]
        if 'ranges' in k or 'type' in k:
            return RAW
        return other(ks) or (RANGES_ if set(k) <= set(SPANS) else None)
    w.literal_type = literal
    w.lines = True
    for n in PARSING_PRE:
        w.models[f'enolib.errors.parsing.Parsing.{n}'] = parse_error(n)
    return w


# ---------------------------------------------------------------- the grammar's groups, found by what they capture
def groups():
    R = Grammar.REGEX

    def find(sample, a, b):
        m = R.search(sample)
        if m is None or m.start() != 0:
            raise Unsupported(f'the grammar does not read {sample!r}')
        hit = [g for g in range(1, R.groups + 1) if m.span(g) == (a, b)]
        if len(hit) != 1:
            raise Unsupported(f'which group of the grammar captures {sample[a:b]!r} in {sample!r} is not clear')
        return hit[0]

    def key(prefix, suffix):
        n = len(prefix)
        s, e = prefix + 'abc' + suffix, prefix + '`bcd`' + suffix
        return dict(key=find(s, n, n + 3), escape_begin=find(e, n, n + 1), escaped=find(e, n + 1, n + 4), escape_end=find(e, n + 4, n + 5))
    g = {'blank': dict(op=find('  ', 2, 2) if R.search('  ').end() == 2 else None)}
    g['element'] = dict(op=find('abc  : wxyz', 5, 6), value=find('abc  : wxyz', 7, 11), **key('', '  : wxyz'))
    g['entry'] = dict(op=find('abc  = wxyz', 5, 6), value=find('abc  = wxyz', 7, 11), **key('', '  = wxyz'))
    g['copy'] = dict(op=find('abc  < wxyz', 5, 6), template=find('abc  < wxyz', 7, 11), **key('', '  < wxyz'))
    g['item'] = dict(op=find('- wxyz', 0, 1), value=find('- wxyz', 2, 6))
    g['direct'] = dict(op=find('| wxyz', 0, 1), value=find('| wxyz', 2, 6))
    g['spaced'] = dict(op=find('\\ wxyz', 0, 1), value=find('\\ wxyz', 2, 6))
    g['comment'] = dict(op=find('> wxyz', 0, 1), value=find('> wxyz', 2, 6))
    g['multiline'] = dict(op=find('--  abc', 0, 2), key=find('--  abc', 4, 7))
    g['section'] = dict(op=find('##  abc', 0, 2), copy_op=find('## abc << wxyz', 7, 9), template=find('## abc << wxyz', 10, 14), **key('##  ', ''))
    return g


KINDS = ('blank', 'element', 'item', 'entry', 'direct', 'spaced', 'section', 'multiline', 'comment', 'copy')


def same_pattern(parsed, text):
    """The pattern with its inserted parts has the form `text` has with two placeholders (capturing or not)."""
    want = RX.Parsed(text)
    return shape(parsed.tree) == shape(want.tree)


def shape(tree):
    out = []
    for op, av in tree:
        if op is C.SUBPATTERN:
            out += shape(av[3])
        elif op is C.BRANCH:
            out.append((str(op), tuple(tuple(shape(t)) for t in av[1])))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            out.append((str(op), av[0], av[1], tuple(shape(av[2]))))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            out.append((str(op), av[0], tuple(shape(av[1]))))
        elif op is C.IN:
            out.append((str(op), tuple(sorted(str(x) for x in av))))
        else:
            out.append((str(op), str(av)))
    return out


TERMINATOR = '\n[^\\S\n]*%s(?!-)[^\\S\n]*%s[^\\S\n]*(?=\n|$)' % (chr(RX.HOLE), chr(RX.HOLE + 1))


# ---------------------------------------------------------------- helpers
def is_type(it, r, *types):
    t = F(it, r, 'type')
    return z3.Or([t == kind(x) for x in types])


def lst(it, r, f):
    x = z3.simplify(Val.r(F(it, r, f)))
    it.p.age(x)
    return x


def content(it, r, f):
    return it.p.seq(z3.simplify(lst(it, r, f)))


def span_is(it, rec, f, lo, hi):
    r = z3.simplify(lst(it, rec, 'ranges'))
    return z3.And(it.p.has('ranges', rec), it.p.has(f, r), F(it, r, f) == Val.VPair(lo, hi))


def on_line(it, rec, s, a):
    """The record stands for the line that starts at a."""
    return z3.And(it.p.has('line', rec), F(it, rec, 'line') == Val.VInt(LINES(s, a)), span_is(it, rec, 'line', a, eol(it, s, a)))


class Here:
    """Evaluate in another heap, keeping nothing."""

    def __init__(self, it, heap):
        self.it, self.heap = it, heap

    def __enter__(self):
        self.saved = self.it.p.heap
        self.it.p.heap = {**{k: H0(k) for k in self.saved}, **self.heap}
        return self.it

    def __exit__(self, *a):
        self.it.p.heap = self.saved


def owner(it, a):
    """(context, document, meta list, input) of an analyzer."""
    p = it.p
    c = z3.simplify(Val.r(p.val('_context', a)))
    return c, z3.simplify(Val.r(p.val('document', c))), z3.simplify(Val.r(p.val('meta', c))), z3.simplify(Val.s(p.val('input', c)))


def int_at(it, r, f):
    return Val.i(F(it, r, f))


class AnalyzerContract(Contract):
    args = {'self': TObj(analyzer.Analyzer)}
    maintains = ()
    ground_checks = True
    time_limit = 500

    def frame_of(self, it, a):
        return {}

    def axioms(self, it, a):
        """The context the analyzer works on existed before."""
        p = it.p
        s = a['self'].t
        p.old(s)
        c, d, m, _ = owner(it, s)
        for r in (c, d, m):
            p.old(r)
        it.touch(Ref(c, TObj(Context)), True)
        return [CLS(c) == const_id(Context)]

    def ready(self, it, a):
        """What the caller provides (Context.__init__ is checked against it)."""
        p = it.p
        s = a['self'].t
        c, d, m, text = owner(it, s)
        return [p.has('_context', s), Val.is_VRef(F(it, s, '_context')), p.has('document', c), p.has('meta', c), Val.is_VRef(F(it, c, 'document')), Val.is_VRef(F(it, c, 'meta')),
                p.has('input', c), Val.is_VStr(F(it, c, 'input')), p.has('_index', s), p.has('_line', s), p.has('_depth', s),
                *[Val.is_VInt(F(it, s, f)) for f in ('_index', '_line', '_depth')]]

    def pre(self, it, a):
        return self.ready(it, a) + [ROLE(owner(it, a['self'].t)[2]) == META]


# ---------------------------------------------------------------- what is left of a document after an error
class Rest(Machine):
    """Line by line to the end."""

    def __init__(self, it, start):
        self.s, self.start = owner(it, it.contract.a['self'].t)[3], start
        super().__init__('rest', None, [start, LINES(self.s, start)], None, ['index', 'line'])

    def lemmas(self, it, g, i, seq, length):
        it.p.ghost['rest'] = dict(g=g, heap=dict(it.p.heap), known=it.p.counter)
        eol(it, self.s, g['index'])
        return []

    def relate(self, it, state, locs, g, i):
        p = it.p
        yield 'index', z3.And(g['index'] >= self.start, g['index'] <= z3.Length(self.s), g['line'] == LINES(self.s, g['index']))
        for (k, *n), (sort, t) in locs.items():
            if k == 'local' and sort == 'val':
                r = Val.r(t)
                yield f'first {n[0]}', z3.If(g['index'] == self.start, t == Val.VNone, z3.And(Val.is_VRef(t), on_line(it, r, self.s, self.start)))

    def step(self, it, g, x, i, seq):
        p = it.p
        pos = g['index']
        was = p.ghost['rest']
        c, d, m, s = owner(it, it.contract.a['self'].t)
        recorded(it, was, m, s, pos)
        nxt = eol(it, s, pos) + 1
        return [nxt, LINES(s, nxt)]


def recorded(it, was, m, s, pos):
    """The line at pos was recorded, and nothing else."""
    p = it.p
    with Here(it, was['heap']):
        before = p.seq(m)
    now = z3.simplify(p.seq(m))
    n = now.arg(now.num_args() - 1) if z3.is_app_of(now, z3.Z3_OP_SEQ_CONCAT) else None
    n = n.arg(0) if n is not None and z3.is_app_of(n, z3.Z3_OP_SEQ_UNIT) else None
    if n is None:
        p.prove('place-recorded', FALSE)
        return
    p.prove('place-recorded', z3.And(now == z3.Concat(before, z3.Unit(n)), Val.is_VRef(n), on_line(it, z3.simplify(Val.r(n)), s, pos)))


class Tokenize(AnalyzerContract):
    target = 'enolib.analyzer:Analyzer._tokenize_error_context'
    args = {'self': TObj(analyzer.Analyzer), 'comments': TOpt(TList(RAW))}
    props = ('C01', 'C17', 'C18')
    concerns = {'C18': ('place',), 'C17': ('place',)}
    returns = RAW

    def frame_of(self, it, a):
        s = a['self'].t
        c, d, m, _ = owner(it, s)

        def one(r):
            def allowed(it, a, x):
                return x == r
            allowed.refs = lambda it, a: [r]
            return allowed
        return {('s', ''): one(m), '_index': one(s), '_line': one(s), 'line_count': one(c)}

    def pre(self, it, a):
        s = a['self'].t
        text = owner(it, s)[3]
        n = z3.Length(text)
        index = int_at(it, s, '_index')
        t = it.to_val(a['comments'])
        return super().pre(it, a) + [index >= 0, index <= n, F(it, s, '_line') == Val.VInt(LINES(text, index)), z3.Implies(Val.is_VRef(t), ROLE(Val.r(t)) == COMMENTS)]

    def machines_for(self, it, seq, length, node, env, is_while):
        with Here(it, self.pre_heap):
            start = int_at(it, self.a['self'].t, '_index')
        return [Rest(it, z3.simplify(start))]

    def result(self, it, a):
        r = it.p.fresh('line_record', I)
        it.p.assume(z3.And(r < 0, REGION(r) == 1000 + it.p.counter))
        return Ref(r, RAW)

    def post(self, it, a, out, pre):
        p = it.p
        s = a['self'].t
        c, d, m, text = owner(it, s)
        with Here(it, pre):
            index = z3.simplify(int_at(it, s, '_index'))
        v = it.to_val(out.value)
        yield 'place-first', z3.And(Val.is_VRef(v), on_line(it, z3.simplify(Val.r(v)), text, index))
        n = z3.Length(text)
        eol(it, text, n)
        yield 'place-line-count', z3.And(p.has('line_count', c), F(it, c, 'line_count') == Val.VInt(LINES(text, n) + 1))
        if it.contract is self and not p.session.discovering and 'rest' in p.ghost:
            pos = p.ghost['rest']['g']['index']
            recorded(it, p.ghost['rest'], m, text, pos)
            p.prove('place-last', eol(it, text, pos) == n)


# ---------------------------------------------------------------- the lines of a document
ELEMENT_KINDS = (T.EMPTY_ELEMENT, T.FIELD, T.LIST, T.FIELDSET, T.MULTILINE_FIELD_BEGIN)
COPIES = ('_copy_sections', '_copy_non_section_elements')


def nested(it, recent, depth, D):
    """What is known about the most recent section of depth D (0: the document)."""
    p = it.p
    x = z3.simplify(z3.Select(recent, D))
    inside = z3.And(D >= 0, D <= depth)
    e = F(it, x, 'elements')
    yield 'nesting-kind', z3.Implies(inside, z3.And(p.has('type', x), z3.If(D == 0, is_type(it, x, T.DOCUMENT), is_type(it, x, T.SECTION))))
    yield 'nesting-elements', z3.Implies(inside, z3.And(p.has('elements', x), Val.is_VRef(e), ROLE(Val.r(e)) == ELEMENTS))
    yield 'nesting-parent', z3.Implies(z3.And(inside, D > 0), z3.And(p.has('parent', x), F(it, x, 'parent') == Val.VRef(z3.Select(recent, D - 1)), p.has('line', x)))


class Lines(Machine):
    """One iteration per line (a multiline field counts as one)."""

    def __init__(self, it):
        p = it.p
        self.a = it.contract.a['self'].t
        self.c, self.d, self.m, self.s = owner(it, self.a)
        none = Val.VNone
        zero = z3.IntVal(0)
        eol(it, self.s, zero)
        init = [zero, LINES(self.s, zero), zero, Val.VRef(self.d), none, none, z3.K(I, self.d), z3.Empty(SeqVal), z3.simplify(p.seq(self.m)), z3.IntVal(-1)]
        super().__init__('line', None, init, None, ['index', 'line', 'depth', 'section', 'elem', 'cont', 'recent', 'pend', 'meta', 'prev'])

    def lemmas(self, it, g, i, seq, length):
        p = it.p
        p.ghost['iter'] = dict(g=g, heap=dict(p.heap), known=p.counter, matches=len(p.ghost.get('matches', ())), misses=len(p.ghost.get('misses', ())), machine=self)
        out = []
        for D in (g['depth'], g['depth'] - 1, z3.IntVal(0)):
            out += self.at_depth(it, D)
        for n in ('section', 'elem', 'cont'):
            p.aged(z3.simplify(Val.r(g[n])), p.counter, Val.is_VRef(g[n]))
        eol(it, self.s, g['index'])
        p.map_facts.clear()
        for f in COPIES:
            r = z3.simplify(lst(it, self.c, f))
            heap = dict(p.heap)
            p.map_facts[r.get_id()] = lambda k, r=r, heap=heap, f=f: self.copied(it, f, r, k, heap)
            p.ghost[('keep', f)] = r
        return out

    def at_depth(self, it, D):
        """The invariant at one depth, as of the beginning of the iteration."""
        p = it.p
        w = p.ghost['iter']
        with Here(it, w['heap']):
            out = self.live(list(nested(it, w['g']['recent'], w['g']['depth'], D)))
            x = z3.simplify(z3.Select(w['g']['recent'], D))
            p.aged(x, w['known'])
            p.aged(lst(it, x, 'elements'), w['known'], z3.And(p.has('elements', x), Val.is_VRef(F(it, x, 'elements'))))
        return out

    def copied(self, it, f, r, k, heap):
        if ('line', 'relate', 'copied-data') in self.info.dead:
            return []
        with Here(it, heap):
            return [z3.Implies(it.p.has(f, self.c), copy_data(it, r, k))]

    def relate(self, it, state, locs, g, i):
        p = it.p
        n = z3.Length(self.s)
        yield 'place-index', z3.And(g['index'] >= 0, g['index'] <= n + 1, g['line'] == LINES(self.s, g['index']), g['line'] >= 0, g['depth'] >= 0)
        yield 'place-prev', z3.If(g['index'] == 0, g['prev'] == -1, z3.And(g['prev'] >= 0, g['prev'] < n, g['index'] == eol(it, self.s, g['prev']) + 1))
        yield 'nesting-section', z3.And(g['section'] == Val.VRef(z3.Select(g['recent'], g['depth'])), z3.Select(g['recent'], 0) == self.d)
        yield from nested(it, g['recent'], g['depth'], D0)
        for name, roles in (('elem', True), ('cont', False)):
            t = g[name]
            r = z3.simplify(Val.r(t))
            parts = [Val.is_VRef(t), p.has('type', r)]
            if roles:
                parts.append(is_type(it, r, *ELEMENT_KINDS))
                for k, f, role in ((T.LIST, 'items', ITEMS), (T.FIELDSET, 'entries', ENTRIES)):
                    parts.append(z3.Implies(is_type(it, r, k), z3.And(p.has(f, r), Val.is_VRef(F(it, r, f)), ROLE(lst(it, r, f)) == role)))
            else:
                parts.append(z3.Implies(p.has('continuations', r), z3.And(Val.is_VRef(F(it, r, 'continuations')), ROLE(lst(it, r, 'continuations')) == CONTS, z3.Not(is_type(it, r, T.EMPTY_ELEMENT)))))
            yield 'attach-' + name, z3.Or(t == Val.VNone, z3.And(parts))
        yield 'comment-ignored', p.seq(self.m) == g['meta']
        for key, (sort, t) in locs.items():
            if key[0] in ('local', 'cell') and sort == 'val':
                r = z3.simplify(Val.r(t))
                yield f'comment-pending {key[1:]}', z3.If(t == Val.VNone, g['pend'] == z3.Empty(SeqVal),
                                                          z3.And(Val.is_VRef(t), p.seq(r) == g['pend'], z3.Length(g['pend']) > 0, ROLE(r) == COMMENTS))
        for f in COPIES:
            t = F(it, self.c, f)
            yield 'copied-' + f, z3.Implies(p.has(f, self.c), Val.is_VRef(t))
        yield 'copied-data', z3.And([z3.Implies(p.has(f, self.c), copy_data(it, z3.simplify(lst(it, self.c, f)), z3.String('any_key'))) for f in COPIES])

    REQUIRED = ('place-index', 'place-prev', 'nesting-section', 'nesting-kind', 'nesting-elements', 'nesting-parent', 'attach-elem', 'attach-cont',
                'comment-ignored', 'copied-_copy_sections', 'copied-_copy_non_section_elements', 'copied-data')

    def established(self, it):
        """The invariants the argument rests on are inductive."""
        p = it.p
        for n in self.REQUIRED:
            p.prove(n, z3.BoolVal((self.name, 'relate', n) not in self.info.dead))

    # ------------------------------------------------------------ one line
    def read(self, it):
        """(match of the line's pattern or None, further matches) of this iteration."""
        p = it.p
        w = p.ghost['iter']
        P = z3.StringVal(Grammar.REGEX.pattern)
        new = p.ghost.get('matches', ())[w['matches']:]
        lines = [m for m in new if m['pattern'].eq(P)]
        missed = [m for m in p.ghost.get('misses', ())[w['misses']:] if m['pattern'].eq(P)]
        if len(lines) + len(missed) != 1:
            raise Unsupported('the line is not matched exactly once')
        return (lines or [None])[0], (missed or [None])[0], [m for m in new if m not in lines]

    def kinds(self, it, m):
        G = it.contract.groups
        return [k for k in KINDS if it.p.check(m['lo'](G[k]['op']) >= 0)]

    def step(self, it, g, x, i, seq):
        p = it.p
        self.established(it)
        m, missed, others = self.read(it)
        if m is None:
            p.prove('text-invalid', FALSE)
            raise PathEnd()
        s, a = self.s, g['index']
        p.prove('text-line', z3.And(m['s'] == s, m['i'] == a, m['lo'](0) == a))
        ks = self.kinds(it, m)
        if len(ks) != 1:
            p.prove('text-kind', FALSE)
            raise PathEnd()
        w = p.ghost['iter']
        return Line(self, it, g, w, m, others, ks[0]).check()


def copy_data(it, r, k):
    """Under every key of the dictionary there is a record with a list of targets."""
    p = it.p
    d, m = p.sel(p.arr('d'), r), p.sel(p.arr('m'), r)
    t = z3.Select(m, k)
    x = Val.r(t)
    return z3.Implies(z3.Select(d, k), z3.And(Val.is_VRef(t), p.has('targets', x), Val.is_VRef(F(it, x, 'targets')), ROLE(lst(it, x, 'targets')) == TARGETS))


class Line:
    """The transition of one line, and what follows for the machine."""

    def __init__(self, machine, it, g, w, m, others, k):
        self.M, self.it, self.g, self.w, self.m, self.others, self.k = machine, it, g, w, m, others, k
        self.p, self.s, self.a = it.p, machine.s, g['index']
        self.G = it.contract.groups[k]
        self.new = [n for n in self.p.allocs if -lit(n) > w['known']]
        self.sec = z3.simplify(z3.Select(g['recent'], g['depth']))

    def group(self, name):
        return self.m['lo'](self.G[name]), self.m['hi'](self.G[name])

    def has(self, name):
        return self.m['lo'](self.G[name]) >= 0

    def before(self, fn):
        with Here(self.it, self.w['heap']):
            return fn()

    def record(self, *types):
        """The record made for the line."""
        ids = [kind(t) for t in types]
        out = []
        for n in self.new:
            t = z3.simplify(F(self.it, n, 'type'))
            if any(t.eq(x) for x in ids):
                out.append(n)
        return out[0] if len(out) == 1 else None

    def roles(self):
        """What the lists made here are for."""
        p, it = self.p, self.it
        done = {}
        mine = {lit(n) for n in self.new}
        for f, role in (('elements', ELEMENTS), ('items', ITEMS), ('entries', ENTRIES), ('continuations', CONTS), ('lines', LINES_), ('comments', COMMENTS), ('targets', TARGETS)):
            a = p.heap.get(('v', f))
            while a is not None and z3.is_app_of(a, z3.Z3_OP_STORE):
                r = z3.simplify(Val.r(a.arg(2)))
                n = lit(r)
                if n in mine and n not in done:
                    done[n] = role
                a = a.arg(0)
        for n in self.new:
            p.assume(ROLE(n) == done.get(lit(n), COMMENTS))
        self.made = done

    def say(self, name, f):
        self.p.prove(name, f)

    # ------------------------------------------------------------ parts of the record
    def text(self, name, field, lo, hi):
        it, p = self.it, self.p
        self.say(f'{name}', z3.And(p.has(field, self.n), F(it, self.n, field) == Val.VStr(SUBSTR(self.s, lo, hi)), span_is(it, self.n, field, lo, hi)))

    def optional(self, name, field, group):
        it, p = self.it, self.p
        lo, hi = self.group(group)
        r = z3.simplify(lst(it, self.n, 'ranges'))
        self.say(name, z3.If(lo >= 0, z3.And(p.has(field, self.n), F(it, self.n, field) == Val.VStr(SUBSTR(self.s, lo, hi)), span_is(it, self.n, field, lo, hi)),
                             z3.And(z3.Not(p.has(field, self.n)), z3.Not(p.has(field, r)))))

    def operator(self, field, lo, hi):
        self.say('text-' + field, span_is(self.it, self.n, field, lo, hi))

    def key(self):
        plain = self.has('key')
        for name, cond, lo, hi in (('text-key', plain, *self.group('key')), ('text-escaped-key', z3.Not(plain), *self.group('escaped'))):
            it, p = self.it, self.p
            self.say(name, z3.Implies(cond, z3.And(p.has('key', self.n), F(it, self.n, 'key') == Val.VStr(SUBSTR(self.s, lo, hi)), span_is(it, self.n, 'key', lo, hi))))
        for g, f in (('escape_begin', 'escape_begin_operator'), ('escape_end', 'escape_end_operator')):
            self.say('text-escape', z3.Implies(z3.Not(plain), span_is(self.it, self.n, f, *self.group(g))))

    def comments(self):
        it, p = self.it, self.p
        t = F(it, self.n, 'comments')
        self.say('comment-attached', z3.If(self.g['pend'] == z3.Empty(SeqVal), z3.Not(p.has('comments', self.n)),
                                           z3.And(p.has('comments', self.n), Val.is_VRef(t), p.seq(z3.simplify(Val.r(t))) == self.g['pend'])))

    def appended(self, name, owner_, field):
        """The record is the last of the list, which is otherwise as it was."""
        it, p = self.it, self.p
        r = z3.simplify(lst(it, owner_, field))
        old = self.before(lambda: p.seq(r))
        new = p.seq(r)
        fresh = lit(r) is not None and -lit(r) > self.w['known']
        self.say(name, z3.And(p.has(field, owner_), Val.is_VRef(F(it, owner_, field)), new == (z3.Unit(Val.VRef(self.n)) if fresh else z3.Concat(old, z3.Unit(Val.VRef(self.n))))))
        return r

    def parent(self, name, r):
        self.say(name, z3.And(self.p.has('parent', self.n), F(self.it, self.n, 'parent') == Val.VRef(r)))

    def absent(self, name, *fields):
        self.say(name, z3.And([z3.Not(self.p.has(f, self.n)) for f in fields]))

    # ------------------------------------------------------------ the transition
    def check(self):
        g, it, p = dict(self.g), self.it, self.p
        self.roles()
        self.lists = []                      # lists that may have grown
        self.kinds, self.attached = [], []   # records that may have changed type; (record, field) that may have been set
        k = self.k
        types = {'element': (T.FIELD, T.EMPTY_ELEMENT), 'item': (T.LIST_ITEM,), 'entry': (T.FIELDSET_ENTRY,), 'direct': (T.CONTINUATION,), 'spaced': (T.CONTINUATION,),
                 'section': (T.SECTION,), 'multiline': (T.MULTILINE_FIELD_BEGIN,), 'comment': (T.COMMENT,), 'copy': (T.EMPTY_ELEMENT,)}.get(k)
        self.n = None
        if types:
            self.n = self.record(*types)
            if self.n is None:
                self.say(f'text-kind-{k}', FALSE)
                raise PathEnd()
            self.say('text-place', on_line(it, self.n, self.s, self.a))
        nxt = dict(g)
        nxt['index'], nxt['prev'] = self.m['hi'](0) + 1, self.a
        getattr(self, 'k_' + ('continuation' if k in ('direct', 'spaced') else k))(g, nxt)
        nxt['line'] = LINES(self.s, nxt['index'])
        if k in ('blank', 'direct', 'spaced'):
            nxt['meta'] = z3.Concat(g['meta'], g['pend'])
            self.lists.append(self.M.m)
        if k != 'comment':
            nxt['pend'] = z3.Empty(SeqVal)
        self.say('place-progress', nxt['index'] > g['index'])
        self.frame()
        return [nxt[n] for n in self.M.names]

    def k_blank(self, g, nxt):
        pass

    def k_comment(self, g, nxt):
        self.optional('comment-text', 'comment', 'value')
        self.operator('comment_operator', *self.group('op'))
        nxt['pend'] = z3.Concat(g['pend'], z3.Unit(Val.VRef(self.n)))
        self.comment_list = True

    def into_section(self, nxt, name='nesting'):
        self.parent(name + '-parent', self.sec)
        self.lists.append(self.appended(name + '-order', self.sec, 'elements'))
        self.comments()

    def k_element(self, g, nxt):
        it = self.it
        self.say('text-kind', is_type(it, self.n, T.FIELD) == self.has('value'))
        self.key()
        self.optional('text-value', 'value', 'value')
        self.operator('element_operator', *self.group('op'))
        self.into_section(nxt)
        self.absent('text-only', 'items', 'entries', 'continuations', 'template', 'lines')
        nxt['elem'] = nxt['cont'] = Val.VRef(self.n)

    def k_copy(self, g, nxt):
        self.key()
        self.text('text-template', 'template', *self.group('template'))
        self.operator('copy_operator', *self.group('op'))
        self.into_section(nxt)
        self.absent('text-only', 'items', 'entries', 'continuations', 'value', 'lines')
        self.target('_copy_non_section_elements')
        nxt['elem'], nxt['cont'] = Val.VRef(self.n), Val.VNone

    def target(self, field):
        """The copy is registered under the name of its template."""
        it, p = self.it, self.p
        lo, hi = self.group('template')
        key = SUBSTR(self.s, lo, hi)
        m = z3.simplify(lst(it, self.M.c, field))
        t = z3.Select(p.sel(p.arr('m'), m), key)
        x = z3.simplify(Val.r(t))
        l = z3.simplify(lst(it, x, 'targets'))
        sq = p.seq(l)
        self.say('copied-registered', z3.And(p.has(field, self.M.c), z3.Select(p.sel(p.arr('d'), m), key), Val.is_VRef(t), p.has('targets', x), z3.Length(sq) > 0,
                                             sq[z3.Length(sq) - 1] == Val.VRef(self.n), p.has('copy', self.n), F(it, self.n, 'copy') == t))
        self.maps = m

    def k_item(self, g, nxt):
        self.under('item', T.LIST, 'items', 'item_operator')
        nxt['cont'] = Val.VRef(self.n)

    def k_entry(self, g, nxt):
        self.key()
        self.under('entry', T.FIELDSET, 'entries', 'entry_operator')
        nxt['cont'] = Val.VRef(self.n)

    def under(self, what, typ, field, op):
        it, p = self.it, self.p
        e = z3.simplify(Val.r(self.g['elem']))
        ok = self.before(lambda: z3.And(Val.is_VRef(self.g['elem']), is_type(it, e, typ, T.EMPTY_ELEMENT)))
        self.say(f'attach-{what}-fits', ok)
        self.say(f'attach-{what}-kind', is_type(it, e, typ))
        self.optional('text-value', 'value', 'value')
        self.operator(op, *self.group('op'))
        self.parent(f'attach-{what}-parent', e)
        self.lists.append(self.appended(f'attach-{what}-order', e, field))
        self.comments()
        self.absent('text-only', 'continuations')
        self.kinds.append(e)
        self.attached.append((e, field))

    def k_continuation(self, g, nxt):
        it, p = self.it, self.p
        c = z3.simplify(Val.r(g['cont']))
        self.say('attach-continuation-fits', Val.is_VRef(g['cont']))
        self.optional('continued-text', 'value', 'value')
        self.operator(self.k + '_line_continuation_operator', *self.group('op'))
        self.say('continued-spaced', z3.And(p.has('spaced', self.n), F(it, self.n, 'spaced') == Val.VBool(TRUE)) if self.k == 'spaced' else
                 z3.Or(z3.Not(p.has('spaced', self.n)), F(it, self.n, 'spaced') == Val.VBool(FALSE)))
        self.lists.append(self.appended('continued-order', c, 'continuations'))
        was = self.before(lambda: F(it, c, 'type'))
        self.say('attach-continuation-kind', F(it, c, 'type') == z3.If(was == kind(T.EMPTY_ELEMENT), kind(T.FIELD), was))
        self.kinds.append(c)
        self.attached.append((c, 'continuations'))

    def k_section(self, g, nxt):
        it, p = self.it, self.p
        lo, hi = self.group('op')
        k = hi - lo
        self.say('nesting-layer', z3.And(k >= 1, k <= g['depth'] + 1))
        up = z3.simplify(z3.Select(g['recent'], k - 1))
        for f in self.M.at_depth(it, k - 1):
            p.assume(f)
        self.key()
        self.operator('section_operator', lo, hi)
        self.parent('nesting-parent', up)
        self.lists.append(self.appended('nesting-order', up, 'elements'))
        self.comments()
        e = z3.simplify(lst(it, self.n, 'elements'))
        self.say('nesting-empty', z3.And(p.has('elements', self.n), p.seq(e) == z3.Empty(SeqVal), z3.BoolVal(self.made.get(lit(e)) == ELEMENTS)))
        tlo, thi = self.group('template')
        clo, chi = self.group('copy_op')
        copy = tlo >= 0
        self.optional('copied-template', 'template', 'template')
        deep = chi - clo == 2
        self.say('copied-deep', z3.And(p.has('deep_copy', self.n), F(it, self.n, 'deep_copy') == Val.VBool(TRUE)) == z3.And(copy, deep))
        self.say('copied-operator', z3.Implies(copy, z3.If(deep, span_is(it, self.n, 'deep_copy_operator', clo, chi), span_is(it, self.n, 'copy_operator', clo, chi))))
        self.maps = None
        if p.check(copy):
            self.target('_copy_sections')
            j = z3.simplify(z3.Select(g['recent'], D0))
            p.aged(j, self.w['known'])
            self.say('copied-marked', z3.Implies(z3.And(D0 > 0, D0 < k), z3.And(p.has('deep_resolve', j), F(it, j, 'deep_resolve') == Val.VBool(TRUE))))
        else:
            self.say('copied-none', z3.Not(p.has('copy', self.n)))
        nxt['recent'] = z3.Store(g['recent'], k, self.n)
        nxt['depth'] = k
        nxt['section'] = Val.VRef(self.n)
        nxt['elem'] = nxt['cont'] = Val.VNone

    def terminator(self):
        """The match (or miss) of the end of the multiline field."""
        p = self.p
        found = [m for m in self.others]
        return found

    def k_multiline(self, g, nxt):
        it, p = self.it, self.p
        s = self.s
        self.text('multiline-key', 'key', *self.group('key'))
        self.operator('multiline_field_operator', *self.group('op'))
        self.into_section(nxt)
        if len(self.others) != 1:
            raise Unsupported('the end of a multiline field is not found by one search')
        t = self.others[0]
        terminator_is(self, t)
        first, end = self.m['hi'](0) + 1, t['lo'](0)
        n = self.n
        l = z3.simplify(lst(it, n, 'lines'))
        sq = p.seq(l)
        size = size_of(sq)
        some = end != first - 1
        self.say('multiline-none', z3.Implies(z3.Not(some), z3.Not(p.has('lines', n))))
        self.say('multiline-some', z3.Implies(some, z3.And(p.has('lines', n), Val.is_VRef(F(it, n, 'lines')), size > 0)))
        if p.check(some):
            for name, f in lines_facts(it, s, sq, first):
                self.say(name, z3.Implies(some, f))
            self.say('multiline-to-the-end', z3.Implies(some, ref_at(it, sq, size - 1, lambda z: z3.And([span_is(it, z, f, Val.lo(F(it, lst(it, z, 'ranges'), 'line')), end)
                                                                                                  for f in ('line', 'value')]))))
        x = z3.simplify(lst(it, n, 'end'))
        eol(it, s, end + 1)
        self.say('multiline-end', z3.And(p.has('end', n), Val.is_VRef(F(it, n, 'end')), on_line(it, x, s, end + 1), span_is(it, x, 'multiline_field_operator', *t['operator']),
                                         span_is(it, x, 'key', *t['key'])))
        self.absent('text-only', 'items', 'entries', 'continuations', 'value', 'template')
        nxt['index'], nxt['prev'] = t['hi'](0) + 1, end + 1
        nxt['elem'] = nxt['cont'] = Val.VNone

    # ------------------------------------------------------------ and nothing else
    def frame(self):
        it, p, w = self.it, self.p, self.w
        r = FRAMED
        M = self.M
        for key, arr in list(p.heap.items()):
            base = w['heap'].get(key, H0(key))
            if arr.eq(base):
                continue
            sort, f = key
            ok = [r < -w['known'], z3.Select(arr, r) == z3.Select(base, r)]
            name = 'place'
            if f.startswith('_'):
                ok.append(r == M.a)
                if f in COPIES:
                    ok.append(r == M.c)
                name = 'place'
            elif sort in 'dmk':
                name = 'copied'
                if getattr(self, 'maps', None) is not None:
                    ok.append(r == self.maps)
            elif sort == 's':
                name = 'attach'
                ok += [r == l for l in self.lists]
                if self.k == 'comment':
                    ok.append(ROLE(r) == COMMENTS)
                if getattr(self, 'maps', None) is not None:
                    ok.append(ROLE(r) == TARGETS)
            elif f == 'type':
                name = 'attach'
                for e in self.kinds:
                    ok.append(z3.And(r == e, z3.Select(w['heap'].get(('v', 'type'), H0(('v', 'type'))), e) == kind(T.EMPTY_ELEMENT)))
            elif f == 'deep_resolve':
                continue
            else:
                name = 'attach'
                ok += [r == e for e, field in self.attached if field == f]
            self.say(f'{name}-unchanged-{f or sort}', z3.Or(ok))


def parts(sq):
    """(the beginning, the items known one by one) of a list."""
    if z3.is_app_of(sq, z3.Z3_OP_SEQ_CONCAT):
        base, items = parts(sq.arg(0))
        for x in sq.children()[1:]:
            b, more = parts(x)
            if b is not None:
                return sq, []
            items = items + more
        return base, items
    if z3.is_app_of(sq, z3.Z3_OP_SEQ_UNIT):
        return None, [sq.arg(0)]
    if z3.is_app_of(sq, z3.Z3_OP_SEQ_EMPTY):
        return None, []
    return sq, []


def ref_at(it, sq, j, fn):
    """What fn says about the record at j."""
    base, items = parts(z3.simplify(sq))
    n = z3.IntVal(0) if base is None else z3.Length(base)
    out = []
    if base is not None:
        raw = Val.r(base[j])
        it.p.age(raw)
        r = z3.simplify(raw)
        if raw.get_id() in it.p.older:
            it.p.older[r.get_id()] = (r, it.p.older[raw.get_id()][1])
        out.append(z3.Implies(j < n, z3.And(Val.is_VRef(base[j]), fn(r))))
    for k, x in enumerate(items):
        out.append(z3.Implies(j == n + k, z3.And(Val.is_VRef(x), fn(z3.simplify(Val.r(x))))))
    return z3.And(out)


def size_of(sq):
    base, items = parts(z3.simplify(sq))
    return z3.IntVal(len(items)) if base is None else z3.Length(base) + len(items)


def lines_facts(it, s, sq, first):
    """The lines of a multiline field, at any index, lie one below the other."""
    p = it.p
    size = size_of(sq)
    inside = z3.And(J0 >= 0, J0 < size)

    def lo(r):
        return Val.lo(F(it, lst(it, r, 'ranges'), 'line'))

    def good(r):
        return z3.And(p.has('line', r), F(it, r, 'line') == Val.VInt(LINES(s, lo(r))), span_is(it, r, 'line', lo(r), EOL(s, lo(r))), span_is(it, r, 'value', lo(r), EOL(s, lo(r))), p.has('type', r))
    yield 'multiline-line', z3.Implies(inside, ref_at(it, sq, J0, good))
    yield 'multiline-first', z3.Implies(z3.And(inside, J0 == 0), ref_at(it, sq, J0, lambda x: lo(x) == first))
    yield 'multiline-next', z3.Implies(z3.And(inside, J0 + 1 < size), ref_at(it, sq, J0, lambda x: ref_at(it, sq, J0 + 1, lambda y: lo(y) == EOL(s, lo(x)) + 1)))


def terminator_is(line, t):
    """The search for the end of the field: from the end of its first line, for the same dashes and the same key."""
    p = line.p
    if not same_pattern(t['parsed'], TERMINATOR):
        raise Unsupported('the pattern that ends a multiline field has another form')
    (olo, ohi), (klo, khi) = line.group('op'), line.group('key')
    holes = t['parsed'].holes
    ok = [t['s'] == line.s, t['i'] == line.m['hi'](0), z3.BoolVal(t['name'] == 'search'), z3.BoolVal(len(holes) == 2)]
    if len(holes) == 2:
        ok += [holes[0] == SUBSTR(line.s, olo, ohi), holes[1] == RX.RE_ESCAPE(SUBSTR(line.s, klo, khi))]
    line.say('multiline-terminator', z3.And(ok))
    if 'lo' in t:
        # the groups around the two inserted parts
        at = {}
        hole_groups(t['parsed'].tree, at, None)
        t['operator'] = (t['lo'](at.get(0, 0)), t['hi'](at.get(0, 0)))
        t['key'] = (t['lo'](at.get(1, 0)), t['hi'](at.get(1, 0)))


def hole_groups(tree, out, group):
    for op, av in tree:
        if op is C.LITERAL and av >= RX.HOLE and av < RX.HOLE + 2:
            out[av - RX.HOLE] = group or 0
        elif op is C.SUBPATTERN:
            hole_groups(av[3], out, av[0] if av[0] is not None else group)


# ---------------------------------------------------------------- loops within a line
class Up(Machine):
    """From the current section towards the document."""

    def __init__(self, it, lines):
        w = it.p.ghost['iter']
        self.M, self.w = lines, w
        m, _, _ = lines.read(it)
        lo, hi = m['lo'](it.contract.groups['section']['op']), m['hi'](it.contract.groups['section']['op'])
        self.width = hi - lo
        g = w['g']
        super().__init__('up', None, [g['depth'], Val.VRef(z3.Select(g['recent'], g['depth']))], None, ['depth', 'section'])

    def lemmas(self, it, g, i, seq, length):
        out = self.M.at_depth(it, g['depth']) + self.M.at_depth(it, g['depth'] - 1)
        return out

    def relate(self, it, state, locs, g, i):
        yield 'depth', z3.And(g['depth'] >= self.width, g['depth'] <= self.w['g']['depth'])
        yield 'section', g['section'] == Val.VRef(z3.Select(self.w['g']['recent'], g['depth']))

    def step(self, it, g, x, i, seq):
        return [g['depth'] - 1, Val.VRef(z3.Select(self.w['g']['recent'], g['depth'] - 1))]


class Mark(Machine):
    """From the parent of a copied section to the document."""

    def __init__(self, it, lines):
        w = it.p.ghost['iter']
        self.M, self.w = lines, w
        m, _, _ = lines.read(it)
        lo, hi = m['lo'](it.contract.groups['section']['op']), m['hi'](it.contract.groups['section']['op'])
        self.width = hi - lo
        self.recent = w['g']['recent']
        super().__init__('mark', None, [self.width - 1, Val.VRef(z3.Select(self.recent, self.width - 1))], None, ['at', 'section'])

    def lemmas(self, it, g, i, seq, length):
        return self.M.at_depth(it, g['at']) + self.M.at_depth(it, g['at'] - 1)

    def relate(self, it, state, locs, g, i):
        p = it.p
        yield 'at', z3.And(g['at'] >= 0, g['at'] < self.width)
        yield 'section', g['section'] == Val.VRef(z3.Select(self.recent, g['at']))
        x = z3.simplify(z3.Select(self.recent, D0))
        p.aged(x, self.w['known'])
        yield 'marked', z3.Implies(z3.And(D0 > g['at'], D0 < self.width), z3.And(p.has('deep_resolve', x), F(it, x, 'deep_resolve') == Val.VBool(TRUE)))

    def step(self, it, g, x, i, seq):
        return [g['at'] - 1, Val.VRef(z3.Select(self.recent, g['at'] - 1))]


class Within(Machine):
    """The lines of a multiline field."""

    def __init__(self, it, lines):
        p = it.p
        self.M, self.w = lines, p.ghost['iter']
        m, _, others = lines.read(it)
        self.s = lines.s
        self.first = z3.simplify(m['hi'](0) + 1)
        self.end = others[0]['lo'](0) if others and others[0]['s'].eq(self.s) else z3.Length(self.s)
        eol(it, self.s, self.first)
        self.lists = {}
        super().__init__('within', None, [self.first, LINES(self.s, self.first)], None, ['index', 'line'])

    def lemmas(self, it, g, i, seq, length):
        eol(it, self.s, g['index'])
        return [g['line'] == LINES(self.s, g['index'])]

    def relate(self, it, state, locs, g, i):
        p = it.p
        yield 'index', z3.And(g['index'] >= self.first, g['index'] <= self.end, g['line'] == LINES(self.s, g['index']))
        rs = {str(t): t for k, (sort, t) in locs.items() if k[0] == 'local-ref'}
        for n in p.allocs:
            if -lit(n) > self.w['known']:
                r = z3.simplify(lst(it, n, 'lines'))
                if lit(r) is not None:
                    rs[str(r)] = r
        for k, r in rs.items():
            sq = p.seq(r)
            size = size_of(sq)
            for name, f in lines_facts(it, self.s, sq, self.first):
                yield f'{name} {k}', f
            yield f'until {k}', z3.If(size == 0, g['index'] == self.first, ref_at(it, sq, size - 1, lambda x: g['index'] == EOL(self.s, Val.lo(F(it, lst(it, x, 'ranges'), 'line'))) + 1))

    def step(self, it, g, x, i, seq):
        nxt = eol(it, self.s, g['index']) + 1
        eol(it, self.s, nxt)
        return [nxt, LINES(self.s, nxt)]


class Analyze(AnalyzerContract):
    target = 'enolib.analyzer:Analyzer.analyze'
    props = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17', 'C18')
    concerns = {'C02': ('text-',), 'C03': ('nesting-',), 'C04': ('attach-',), 'C05': ('continued-',), 'C06': ('multiline-',), 'C07': ('comment-',),
                'C08': ('copied-',), 'C09': ('copied-',), 'C10': ('copied-',), 'C17': ('place-', 'text-place', 'error-'), 'C18': ('place-',)}
    raises = (ParseError,)
    obligation_timeout = 15.0
    parallel = 8

    def verify(self, world):
        self.groups = groups()
        return super().verify(world)

    def frame_of(self, it, a):
        return None

    def finish(self, it, a, out, pre):
        """The frame is proved line by line."""
        p = it.p
        if out.kind == 'raise' and not issubclass(out.cls, ParseError):
            p.prove(f'raises-nothing-else[{out.cls.__name__} {getattr(out, "why", "")}]', FALSE)
            return
        for name, f in self.post(it, a, out, pre):
            p.prove(name, f)

    def ready(self, it, a):
        p = it.p
        s = a['self'].t
        c, d, m, text = owner(it, s)
        e = F(it, d, 'elements')
        return super().ready(it, a) + [F(it, s, f) == Val.VInt(z3.IntVal(0)) for f in ('_index', '_line', '_depth')] + [
            p.has('type', d), F(it, d, 'type') == kind(T.DOCUMENT), p.has('elements', d), Val.is_VRef(e), p.seq(Val.r(e)) == z3.Empty(SeqVal),
            z3.Not(p.has('parent', d)), p.seq(m) == z3.Empty(SeqVal), z3.Not(p.has('_copy_sections', c)), z3.Not(p.has('_copy_non_section_elements', c))]

    def pre(self, it, a):
        e = Val.r(F(it, owner(it, a['self'].t)[1], 'elements'))
        return super().pre(it, a) + [ROLE(e) == ELEMENTS, e >= 0]

    def machines_for(self, it, seq, length, node, env, is_while):
        p = it.p
        if 'iter' not in p.ghost:
            return [Lines(it)]
        M = p.ghost['iter']['machine']
        m, _, others = M.read(it)
        if m is None:
            return None
        ks = M.kinds(it, m)
        if ks == ['section']:
            return [Up(it, M), Mark(it, M)]
        if ks == ['multiline']:
            return [Within(it, M)]
        return None

    def post(self, it, a, out, pre):
        p = it.p
        c, d, m, s = owner(it, a['self'].t)
        n = z3.Length(s)
        if out.kind == 'return':
            eol(it, s, n)
            yield 'place-line-count', z3.And(p.has('line_count', c), F(it, c, 'line_count') == Val.VInt(LINES(s, n) + 1))
            w = p.ghost.get('iter')
            if w is None:
                eol(it, s, z3.IntVal(0))
                yield 'text-nothing', n == 0
                return
            w['machine'].established(it)
            yield 'text-whole-input', w['g']['index'] >= n
            yield 'comment-ignored', p.seq(m) == z3.Concat(w['g']['meta'], w['g']['pend'])
            return
        yield from self.failure(it, out, s)

    def failure(self, it, out, s):
        """The error is the one the line calls for, and is about that line."""
        p = it.p
        w = p.ghost.get('iter')
        calls = [t for t in p.trace if t[0] == 'parse-error']
        if w is None or len(calls) != 1:
            yield 'error-source', FALSE
            return
        _, name, args, heap = calls[0]
        M, g = w['machine'], w['g']
        m, missed, others = M.read(it)
        x = z3.simplify(Val.r(args[0]))
        a = g['index']
        with Here(it, heap):
            place = on_line(it, x, s, a)
        yield 'error-place-line', place
        if missed is not None:
            p.prove('text-line', z3.And(missed['s'] == s, missed['i'] == a))
            yield 'text-error', z3.BoolVal(name == 'invalid_line')
            return
        p.prove('text-line', z3.And(m['s'] == s, m['i'] == a))
        wrong = m['lo'](0) != a
        if name == 'invalid_line':
            yield 'text-error', wrong
            return
        yield 'text-error-line', z3.Not(wrong)
        ks = M.kinds(it, m)
        k = ks[0] if len(ks) == 1 else None
        e = z3.simplify(Val.r(g['elem']))

        def before(fn):
            with Here(it, w['heap']):
                return fn()
        if name == 'missing_list_for_list_item':
            yield 'attach-error', z3.And(z3.BoolVal(k == 'item'), z3.Not(before(lambda: z3.And(Val.is_VRef(g['elem']), is_type(it, e, T.LIST, T.EMPTY_ELEMENT)))))
        elif name == 'missing_fieldset_for_fieldset_entry':
            yield 'attach-error', z3.And(z3.BoolVal(k == 'entry'), z3.Not(before(lambda: z3.And(Val.is_VRef(g['elem']), is_type(it, e, T.FIELDSET, T.EMPTY_ELEMENT)))))
        elif name == 'missing_element_for_continuation':
            yield 'attach-error', z3.And(z3.BoolVal(k in ('direct', 'spaced')), g['cont'] == Val.VNone)
        elif name == 'section_hierarchy_layer_skip':
            lo, hi = m['lo'](self.groups['section']['op']), m['hi'](self.groups['section']['op'])
            yield 'nesting-error', z3.And(z3.BoolVal(k == 'section'), hi - lo > g['depth'] + 1)
            yield 'nesting-error-section', args[1] == g['section'] if len(args) > 1 else FALSE
        elif name == 'unterminated_multiline_field':
            t = [z for z in p.ghost.get('misses', ())[w['misses']:]]
            yield 'multiline-error', z3.BoolVal(k == 'multiline' and len(t) == 1 and not others)
            if k == 'multiline' and len(t) == 1:
                line = Line(M, it, g, w, m, others, k)
                terminator_is(line, t[0])
                lo, hi = line.group('key')
                with Here(it, heap):
                    f = z3.And(p.has('key', x), F(it, x, 'key') == Val.VStr(SUBSTR(s, lo, hi)), span_is(it, x, 'key', lo, hi))
                yield 'multiline-error-key', f
        else:
            yield 'error-kind', FALSE


def contracts():
    return [Tokenize(), Analyze()]
