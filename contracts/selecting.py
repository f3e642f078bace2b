"""Selections and the errors built from them: enolib.errors (C17, C10, C06)."""
from .lib import *  # noqa: F401,F403
from .lib import Contract, F, fref, T, TRUE, FALSE, LAST, log1, msg, only
from pyvc.loops import Machine
from . import errs
from .errs import first, last, refs
from .world import INSTR, CTX, REP0, RSTEP, SNIP, Parsing, Validation

HEIGHT = z3.Function('HEIGHT', I, I)      # of the tree of an element's content
PLAIN = TRec('End')                       # any instruction with a line and ranges
STEP = TRec('Step')                       # an element on the way of resolving copies


class LastIn(Contract):
    """last_in: the instruction of the last line of an element."""
    target = 'enolib.errors.selections:last_in'
    args = {'element': INSTR}
    returns = INSTR
    maintains = ()
    props = ('C17',)

    def tail(self, it, x):
        """(condition, the part of x its last line belongs to, whether that is looked into in turn)"""
        p = it.p
        return [(z3.And(p.has('continuations', x), type_in(it, x, T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY)), last(it, x, 'continuations'), False),
                (z3.And(type_in(it, x, T.LIST), p.has('items', x)), last(it, x, 'items'), True),
                (z3.And(type_in(it, x, T.FIELDSET), p.has('entries', x)), last(it, x, 'entries'), True),
                (type_in(it, x, T.MULTILINE_FIELD_BEGIN), Val.r(F(it, x, 'end')), False),
                (z3.And(type_in(it, x, T.SECTION), z3.Length(refs(it, x, 'elements')) > 0), last(it, x, 'elements'), True)]

    def axioms(self, it, a):
        x = a['element'].t
        out, rest = [], []
        for c, t, deep in self.tail(it, x):
            out.append(z3.Implies(c, LAST(x) == (LAST(t) if deep else t)))
            if deep:
                out.append(z3.Implies(c, z3.And(0 <= HEIGHT(t), HEIGHT(t) < HEIGHT(x))))
            rest.append(c)
        return out + [z3.Implies(z3.Not(z3.Or(rest)), LAST(x) == x)]

    def measure(self, it, a):
        return HEIGHT(a['element'].t)

    def post(self, it, a, out, pre):
        return [('last', returned(it, out, Val.VRef(LAST(a['element'].t))))]

    def result(self, it, a):
        r = LAST(a['element'].t)
        it.p.assume(z3.And(r >= 0, it.p.has('line', r), it.p.has('ranges', r)))
        v = Ref(r, TRec('End'))
        it.touch(v)
        return v


class Cursor(Contract):
    """cursor: the position at one end of a range of an instruction."""
    target = 'enolib.errors.selections:cursor'
    inline = True
    maintains = ()
    props = ('C17',)

    def __init__(self, name, pos):
        self.range, self.pos = name, pos
        self.args = {'instruction': INSTR, 'range': Const(name), 'position': Const(pos)}
        self.label = f'cursor[{name}, {"begin" if pos == 0 else "end"}]'

    def pre(self, it, a):
        x = a['instruction'].t
        p = it.p
        return [p.has('ranges', x), p.has('line', x), p.has(self.range, Val.r(F(it, x, 'ranges')))]

    def post(self, it, a, out, pre):
        if out.kind != 'return' or not isinstance(out.value, Ref):
            return [('cursor', FALSE)]
        x = a['instruction'].t
        i = Val.i(it.p.val('index', out.value.t))
        return [('cursor', is_cursor(it, out.value, (x, self.range, self.pos))),
                ('column-is-that-of-the-index', z3.And(0 <= Val.i(it.p.val('column', out.value.t)), i - Val.i(it.p.val('column', out.value.t)) == span(it, x, 'line', 0))),
                ('inside-the-line', z3.And(span(it, x, 'line', 0) <= i, i <= span(it, x, 'line', 1)))]


class Maker(Contract):
    """A function that makes an error: its text, what is reported, what it selects."""
    maintains = ()
    inline = True
    klass = None
    concerns = {'C21': ('message-exists', 'message-arity')}

    def __init__(self, name, args, spec, props=('C17',), pre=None):
        self.name, self.args, self.props = name, {'context': CTX, **args}, props + ('C21',)
        if spec is not None:
            self.spec = spec
        mod = 'parsing:Parsing' if self.klass is ParseError else 'validation:Validation'
        self.target = f'enolib.errors.{mod}.{name}'
        self.extra = pre

    def pre(self, it, a):
        return self.extra(it, a) if self.extra else []

    def post(self, it, a, out, pre):
        v = out.value if out.kind == 'return' else None
        if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (self.klass,)):
            return [('returns-error', FALSE)]
        return error_object(it, v, *self.spec(it, a['context'].t, a))


class ParseErr(Maker):
    klass = ParseError


class ValidErr(Maker):
    klass = ValidationError


def line_error(message, name='instruction', key=False):
    """Error about the line of one instruction."""
    def spec(it, c, a):
        x = a[name].t
        n = Val.VInt(Val.i(F(it, x, 'line')) + 1)
        text = msg(message, n, F(it, x, 'template')) if key else msg(message, n)
        return Val.VStr(text), log1(it, c, 'report_line', x), [(TRUE, ((x, 'line', 0), (x, 'line', 1)))]
    return spec


def has_template(name):
    return lambda it, a: [it.p.has('template', a[name].t), it.p.has('ranges', a[name].t)]


def is_copy(name):
    return lambda it, a: [it.p.has('template', a[name].t), it.p.has('ranges', a[name].t), it.p.has('line', a[name].t), it.p.has('template', fref(it, a[name].t, 'ranges'))]


def two_templates(it, c, a):
    x, f, s = a['copy'].t, a['first_template'].t, a['second_template'].t
    log = RSTEP(RSTEP(log1(it, c, 'report_line', x), z3.StringVal('question_line'), Val.VRef(f)), z3.StringVal('question_line'), Val.VRef(s))
    return Val.VStr(msg('two_or_more_templates_found', F(it, x, 'template'))), log, [(TRUE, ((x, 'line', 0), (x, 'line', 1)))]


def layer_skip(it, c, a):
    x, s = a['section'].t, a['super_section'].t
    log = log1(it, c, 'report_line', x)
    log = z3.If(type_in(it, s, T.DOCUMENT), log, RSTEP(log, z3.StringVal('indicate_line'), Val.VRef(s)))
    return Val.VStr(msg('section_hierarchy_layer_skip', Val.VInt(Val.i(F(it, x, 'line')) + 1))), log, [(TRUE, ((x, 'line', 0), (x, 'line', 1)))]


def parse_errors():
    yield ParseErr('missing_element_for_continuation', {'continuation': PLAIN}, line_error('missing_element_for_continuation', 'continuation'), ('C17', 'C04'))
    yield ParseErr('missing_fieldset_for_fieldset_entry', {'entry': PLAIN}, line_error('missing_fieldset_for_fieldset_entry', 'entry'), ('C17', 'C04', 'C08'))
    yield ParseErr('missing_list_for_list_item', {'item': PLAIN}, line_error('missing_list_for_list_item', 'item'), ('C17', 'C04', 'C08'))
    yield ParseErr('non_section_element_not_found', {'copy': INSTR}, line_error('non_section_element_not_found', 'copy', True), ('C17', 'C10'), is_copy('copy'))
    yield ParseErr('section_not_found', {'copy': INSTR}, line_error('section_not_found', 'copy', True), ('C17', 'C10'), is_copy('copy'))
    yield ParseErr('two_or_more_templates_found', {'copy': INSTR, 'first_template': INSTR, 'second_template': INSTR}, two_templates, ('C17', 'C10'),
                   lambda it, a: is_copy('copy')(it, a) + [it.p.has('line', a['first_template'].t), it.p.has('line', a['second_template'].t)])
    yield ParseErr('section_hierarchy_layer_skip', {'section': PLAIN, 'super_section': INSTR}, layer_skip, ('C17', 'C03'))


def validation_errors():
    def plain(fn, *names):
        return lambda it, c, a: fn(it, c, *[a[n].t if isinstance(a[n], Ref) else it.to_val(a[n]) for n in names])

    def no_doc(it, a):
        return [z3.Not(type_in(it, a['element'].t, T.DOCUMENT))]
    em = {'message': TAny(), 'element': INSTR}
    yield ValidErr('comment_error', em, plain(errs.comment_error, 'element', 'message'), ('C17', 'C14', 'C07'))
    yield ValidErr('element_error', em, plain(errs.element_error, 'element', 'message'), ('C17',))
    yield ValidErr('key_error', em, plain(errs.key_error, 'element', 'message'), ('C17', 'C14'), no_doc)
    yield ValidErr('missing_comment', {'element': INSTR}, plain(errs.missing_comment, 'element'), ('C17', 'C14'))
    yield ValidErr('missing_value', {'element': INSTR}, plain(errs.missing_value, 'element'), ('C17', 'C14'),
                   lambda it, a: [type_in(it, a['element'].t, T.FIELD, T.EMPTY_ELEMENT, T.MULTILINE_FIELD_BEGIN, T.FIELDSET_ENTRY, T.LIST_ITEM)])
    yield ValidErr('unexpected_element', {'message': TOpt(TStr()), 'element': INSTR}, plain(errs.unexpected_element, 'element', 'message'), ('C17', 'C15'),
                   lambda it, a: [z3.Or(Val.is_VNone(it.to_val(a['message'])), z3.Length(Val.s(it.to_val(a['message']))) > 0)])
    yield ValidErr('value_error', em, plain(errs.value_error, 'element', 'message'), ('C17', 'C14'),
                   lambda it, a: [type_in(it, a['element'].t, T.FIELD, T.EMPTY_ELEMENT, T.MULTILINE_FIELD_BEGIN, T.FIELDSET_ENTRY, T.LIST_ITEM)])
    from .missing import M
    for n in ('element', 'empty', 'field', 'fieldset', 'list', 'section', 'fieldset_entry'):
        spec = lambda it, c, a, n=n: errs.missing_element(it, c, a['parent'].t, 'missing_' + n, it.to_val(a['key']))
        v = ValidErr('missing_element', {'key': TOpt(TStr()), 'parent': INSTR, 'message': Const('missing_' + n)}, spec, ('C17', 'C11', 'C13'))
        v.label = f'Validation.missing_element[{n}]'
        yield v
    for n in ('empty', 'field', 'fieldset', 'list', 'section'):
        for what, fn in (('unexpected_element_type', errs.unexpected_element_type),):
            spec = lambda it, c, a, n=n: errs.unexpected_element_type(it, c, a['section'].t, 'expected_' + n, it.to_val(a['key']))
            v = ValidErr(what, {'key': TOpt(TStr()), 'section': INSTR, 'message': Const('expected_' + n)}, spec, ('C17', 'C11', 'C12', 'C23'))
            v.label = f'Validation.{what}[{n}]'
            yield v


# ---------------------------------------------------------------- errors whose report takes a loop or a pattern
class LogChain(Machine):
    """What is reported: one line after the other, those that qualify."""

    def __init__(self, it, seq, start, qualifies, result=None):
        super().__init__('log', seq, [start], None, ['log'])
        self.qualifies, self.result_fn = qualifies, result

    def step(self, it, g, x, i, seq):
        return [z3.If(self.qualifies(it, x.t), RSTEP(g['log'], z3.StringVal('indicate_line'), Val.VRef(x.t)), g['log'])]

    def done(self, it, g, i, seq, length):
        return [self.result_fn == g['log']] if self.result_fn is not None else []


class Unterminated(ParseErr):
    """The field, and every line recorded after it."""
    LOG = z3.Function('UNTERMINATED', I, I, I)

    def __init__(self):
        super().__init__('unterminated_multiline_field', {'field': INSTR}, None, ('C17', 'C06'),
                         lambda it, a: [it.p.has('line', a['field'].t), it.p.has('ranges', a['field'].t), it.p.has('key', a['field'].t)])

    def machines_for(self, it, seq, length, node, env, is_while):
        c, x = self.a['context'].t, self.a['field'].t
        if seq is None:
            return []
        return [LogChain(it, seq, log1(it, c, 'report_element', x), lambda it, r: Val.i(F(it, r, 'line')) > Val.i(F(it, x, 'line')), self.LOG(c, x))]

    def spec(self, it, c, a):
        x = a['field'].t
        text = msg('unterminated_multiline_field', F(it, x, 'key'), Val.VInt(Val.i(F(it, x, 'line')) + 1))
        return Val.VStr(text), self.LOG(c, x), [(TRUE, ((x, 'line', 0), (x, 'line', 1)))]


class Cyclic(ParseErr):
    """The copy that closes the cycle, or the first copy in it, and the elements of the cycle."""
    COPY = z3.Function('CYCLE_COPY', I, I)
    LOG = z3.Function('CYCLE_LOG', I, I)

    def __init__(self):
        super().__init__('cyclic_dependency', {'instruction': STEP, 'instruction_chain': TList(STEP)}, None, ('C17', 'C10'), None)
    check_ms = 150

    def chain(self, it, a):
        s = it.p.seq(a['instruction_chain'].t)
        k = z3.IndexOf(s, z3.Unit(Val.VRef(a['instruction'].t)), z3.IntVal(0))
        return k, z3.SubSeq(s, k, z3.Length(s) - k)

    def pre(self, it, a):
        j, m = z3.Int('j!chain'), z3.Int('copy_in_chain')
        k, s = self.chain(it, a)
        n = z3.Length(s)
        here = lambda i: it.p.has('template', Val.r(s[i]))
        it.touch(it.typed(s[m], STEP, True))
        # the instruction is in the chain, and the cycle contains a copy
        return [k >= 0, k < z3.Length(it.p.seq(a['instruction_chain'].t)), n > 0,
                0 <= m, m < n, here(m), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(here(j)))),
                self.copy(it, a) == z3.If(here(n - 1), Val.r(s[n - 1]), Val.r(s[m]))]

    def copy(self, it, a):
        return self.COPY(a['instruction_chain'].t)

    def machines_for(self, it, seq, length, node, env, is_while):
        a = self.a
        if seq is None:
            return []
        y = self.copy(it, a)
        if it.p.test(seq == self.chain(it, a)[1]):
            return [LogChain(it, seq, log1(it, a['context'].t, 'report_line', y), lambda it, r: r != y, self.LOG(a['instruction_chain'].t))]
        return []

    def spec(self, it, c, a):
        y = self.copy(it, a)
        text = msg('cyclic_dependency', Val.VInt(Val.i(F(it, y, 'line')) + 1), F(it, y, 'template'))
        return Val.VStr(text), self.LOG(a['instruction_chain'].t), [(TRUE, ((y, 'template', 0), (y, 'template', 1)))]


class InvalidLine(ParseErr):
    """A line that is no construct: the whole line, or an escaped key without an end."""

    def __init__(self):
        super().__init__('invalid_line', {'instruction': PLAIN}, None, ('C17', 'C02', 'C01'), None)

    def post(self, it, a, out, pre):
        from pyvc import regex
        v = out.value if out.kind == 'return' else None
        if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (ParseError,)):
            return [('returns-error', FALSE)]
        c, x = a['context'].t, a['instruction'].t
        lo, hi = span(it, x, 'line', 0), span(it, x, 'line', 1)
        line = z3.SubString(Val.s(F(it, c, 'input')), lo, hi - lo)
        n = Val.VInt(Val.i(F(it, x, 'line')) + 1)
        s = it.force(it.getattr(v, 'selection'))
        b, e = it.getitem(s, Const('from')), it.getitem(s, Const('to'))
        open_key = z3.Const('unterminated_key', B)
        P = z3.StringVal(Parsing.UNTERMINATED_ESCAPED_KEY.pattern)
        zero = z3.IntVal(0)
        hit = regex.HIT['match'](P, line, zero)
        col = regex.HI['match'](P, line, zero, z3.IntVal(1))
        after = z3.And(it.p.val('index', b.t) == Val.VInt(lo + col), it.p.val('column', b.t) == Val.VInt(col), it.p.val('line', b.t) == F(it, x, 'line'))
        return [('error-text', it.to_val(it.getattr(v, 'text')) == Val.VStr(z3.If(hit, msg('unterminated_escaped_key', n), msg('invalid_line', n)))),
                ('error-message', it.str_(it.getattr(v, 'message')) == z3.Concat(it.text(it.getattr(v, 'text')), z3.StringVal('\n\n'), it.str_(it.getattr(v, 'snippet')))),
                ('error-snippet', it.str_(it.getattr(v, 'snippet')) == SNIP(log1(it, c, 'report_line', x))),
                ('error-cursor', cursor_is_from(it, v)),
                ('selects-to-the-end-of-the-line', is_cursor(it, e, (x, 'line', 1))),
                ('selects-from-the-key-or-the-line', z3.If(hit, after, is_cursor(it, b, (x, 'line', 0)))),
                ('selection-inside-the-line', z3.And(lo <= Val.i(it.p.val('index', b.t)), Val.i(it.p.val('index', b.t)) <= hi))]

    def axioms(self, it, a):
        x = a['instruction'].t
        return [span(it, x, 'line', 1) <= z3.Length(Val.s(F(it, a['context'].t, 'input')))]


def ranges():
    from .world import RANGES
    return RANGES


def uses():
    return [LastIn()]


def contracts():
    cursors = [Cursor(n, p) for n in ranges() if not n.endswith('continuation_operator') and n not in ('comment_operator', 'comment') for p in (0, 1)]
    return [LastIn(), Unterminated(), Cyclic(), InvalidLine()] + cursors + list(parse_errors()) + list(validation_errors())
