"""Schemas, representation invariants and models of the parts that are not under contract here."""
import sys
import importlib
import inspect
import os
sys.path.insert(0, os.environ.get('ENOLIB_PATH', '/repo/python'))
import z3
import enolib
from enolib import constants, context, error_types, lookup, register, parse, resolver, analyzer
from enolib.elements import (element, element_base, empty, field, fieldset, fieldset_entry, list as list_mod, list_item, section,
                             section_element, value_element_base)
from enolib.elements.missing import (missing_element_base, missing_empty, missing_field, missing_fieldset, missing_fieldset_entry,
                                     missing_list, missing_section, missing_section_element, missing_value_element_base)
from enolib.errors import parsing, selections, validation
from enolib.messages import en, de, es
from enolib.reporters import reporter
from pyvc.terms import *  # noqa: F401,F403
from pyvc.terms import V, Val, SeqVal, Const, SB, SI, SS, Tup, Ref, Dyn, Clo, Opaque, TAny, TNone, TBool, TInt, TStr, TSpan, TFn, TEnum, TList, TMap, TRec, TObj, TUnion, TOpt, alts, Unsupported, const_id, TRUE, FALSE
from pyvc.core import CLS, I, B, S, PyExc, H0, lit
from pyvc.interp import World, Schema, NONE

T = constants.InstructionType
Context = context.Context
Section, SectionElement, Element = section.Section, section_element.SectionElement, element.Element
Field, Fieldset, FieldsetEntry, List, ListItem, Empty = field.Field, fieldset.Fieldset, fieldset_entry.FieldsetEntry, list_mod.List, list_item.ListItem, empty.Empty
M = {'element': missing_section_element.MissingSectionElement, 'empty': missing_empty.MissingEmpty, 'field': missing_field.MissingField,
     'fieldset': missing_fieldset.MissingFieldset, 'entry': missing_fieldset_entry.MissingFieldsetEntry, 'list': missing_list.MissingList,
     'section': missing_section.MissingSection}
MISSING = tuple(M.values())
Parsing, Validation = parsing.Parsing, validation.Validation
ValidationError, ParseError = error_types.ValidationError, error_types.ParseError
LOCALES = (en, de, es)

# ---------------------------------------------------------------- logical functions
MSG0 = z3.Function('MSG0', S, S)                     # wording of a message
MSG1 = z3.Function('MSG1', S, Val, S)
MSG2 = z3.Function('MSG2', S, Val, Val, S)
REP0 = z3.Function('REP0', I, I)                     # reporter of a context, nothing reported
RSTEP = z3.Function('RSTEP', I, S, Val, I)           # after reporting one instruction
RSTEPS = z3.Function('RSTEPS', I, S, SeqVal, I)      # after reporting a list of instructions
SNIP = z3.Function('SNIP', I, S)
IKEY = z3.Function('IKEY', I, S)                     # key of an instruction (never reassigned)


def type_in(it, r, *types):
    t = it.p.val('type', r)
    return z3.Or([t == Val.VConst(const_id(x)) for x in types])


def is_vref(t):
    return Val.is_VRef(t)


# ---------------------------------------------------------------- instruction records
KEYED = (T.EMPTY_ELEMENT, T.FIELD, T.FIELDSET, T.FIELDSET_ENTRY, T.LIST, T.MULTILINE_FIELD_BEGIN, T.SECTION)
ELEMENT_TYPES = KEYED + (T.LIST_ITEM, T.DOCUMENT)


class X:
    """An instruction for the declarative invariants below, symbolic or concrete."""


class SymX(X):
    def __init__(self, it, r):
        self.it, self.r = it, r
        self.And, self.Or, self.Not, self.Implies = z3.And, z3.Or, z3.Not, z3.Implies

    def has(self, f):
        return self.it.p.has(f, self.r)

    def type(self, *types):
        return type_in(self.it, self.r, *types)

    def int(self, f):
        return Val.i(self.it.p.val(f, self.r))

    def span(self, f):
        t = self.it.p.val(f, self.r)
        return Val.lo(t), Val.hi(t)

    def size(self, f):
        return z3.Length(self.it.p.seq(Val.r(self.it.p.val(f, self.r))))

    def strlen(self, f):
        return z3.Length(Val.s(self.it.p.val(f, self.r)))

    def true(self, f):
        return self.it.p.val(f, self.r) == Val.VBool(TRUE)

    def sub(self, f):
        return SymX(self.it, Val.r(self.it.p.val(f, self.r)))

    def falsy_never(self, f):
        return z3.Length(Val.s(self.it.p.val(f, self.r))) > 0

    def extra(self):
        """Definitions that have no runtime counterpart."""
        return [z3.Implies(self.has('key'), self.it.p.val('key', self.r) == Val.VStr(IKEY(self.r)))]


class ConX(X):
    """The same invariants on a live dictionary."""
    And = staticmethod(lambda *a: all(a))
    Or = staticmethod(lambda *a: any(a))
    Not = staticmethod(lambda a: not a)
    Implies = staticmethod(lambda a, b: not a or b)

    def __init__(self, d):
        self.d = d

    def has(self, f):
        return f in self.d

    def type(self, *types):
        return self.d.get('type') in types

    def int(self, f):
        return self.d.get(f, 0)

    def span(self, f):
        return self.d.get(f, (0, 0))

    def size(self, f):
        return len(self.d.get(f, ()))

    def strlen(self, f):
        return len(self.d.get(f, ''))

    def true(self, f):
        return self.d.get(f) is True

    def sub(self, f):
        return ConX(self.d.get(f, {}))

    def falsy_never(self, f):
        return bool(self.d.get(f))

    def extra(self):
        return []


def inv_instr(x):
    """Facts about every element instruction of a parsed and resolved document."""
    doc = x.type(T.DOCUMENT)
    r = x.sub('ranges')
    yield 'type', x.And(x.has('type'), x.type(*ELEMENT_TYPES))
    yield 'line', x.Implies(x.Not(doc), x.And(x.has('line'), x.int('line') >= 0))
    yield 'ranges', x.Implies(x.Not(doc), x.And(x.has('ranges'), r.has('line')))
    yield 'no-ranges', x.Implies(doc, x.Not(x.has('ranges')))
    yield 'key', x.Implies(x.type(*KEYED), x.And(x.has('key'), r.has('key'), x.falsy_never('key')))
    yield 'no-key', x.Implies(x.type(T.LIST_ITEM, T.DOCUMENT), x.Not(x.has('key')))
    yield 'parent', x.Implies(x.Not(doc), x.has('parent'))
    yield 'no-parent', x.Implies(doc, x.Not(x.has('parent')))
    yield 'elements', x.Implies(x.type(T.DOCUMENT, T.SECTION), x.has('elements'))
    yield 'item_operator', x.Implies(x.type(T.LIST_ITEM), r.has('item_operator'))
    yield 'entry_operator', x.Implies(x.type(T.FIELDSET_ENTRY), r.has('entry_operator'))
    yield 'operator', x.Implies(x.type(T.FIELD, T.EMPTY_ELEMENT), x.Or(r.has('template'), r.has('element_operator')))
    yield 'template', x.Implies(r.has('template'), x.has('template'))
    yield 'value', x.Implies(x.has('value'), r.has('value'))
    yield 'continuations', x.Implies(x.has('continuations'), x.And(x.type(T.FIELD, T.LIST_ITEM, T.FIELDSET_ENTRY), x.size('continuations') > 0))
    yield 'lines', x.Implies(x.has('lines'), x.And(x.type(T.MULTILINE_FIELD_BEGIN), x.size('lines') > 0))
    yield 'end', x.Implies(x.type(T.MULTILINE_FIELD_BEGIN), x.has('end'))
    yield 'comments', x.Implies(x.has('comments'), x.And(x.Not(doc), x.size('comments') > 0))
    yield 'items', x.Implies(x.has('items'), x.And(x.type(T.LIST), x.size('items') > 0))
    yield 'entries', x.Implies(x.has('entries'), x.And(x.type(T.FIELDSET), x.size('entries') > 0))
    yield 'extend', x.Implies(x.has('extend'), x.And(x.Not(x.has('mirror')), x.Or(x.And(x.type(T.LIST), x.has('items')), x.And(x.type(T.FIELDSET), x.has('entries')), x.type(T.SECTION))))
    yield 'list', x.Implies(x.type(T.LIST), x.Or(x.has('items'), x.has('mirror')))
    yield 'fieldset', x.Implies(x.type(T.FIELDSET), x.Or(x.has('entries'), x.has('mirror')))
    yield 'field', x.Implies(x.type(T.FIELD), x.Or(x.has('value'), x.has('continuations'), x.has('mirror')))
    yield 'mirror', x.Implies(x.has('mirror'), x.And(x.type(T.FIELD, T.LIST, T.FIELDSET, T.SECTION), x.Or(x.type(T.SECTION), x.And(x.has('template'), r.has('template'))), x.Not(x.has('items')), x.Not(x.has('entries')), x.Not(x.has('value')), x.Not(x.has('continuations'))))
    yield 'mirror-kind', x.Implies(x.has('mirror'), x.And(x.Not(x.sub('mirror').has('mirror')), x.Or(
        x.And(x.type(T.FIELD), x.sub('mirror').type(T.FIELD, T.MULTILINE_FIELD_BEGIN)), x.And(x.type(T.LIST), x.sub('mirror').type(T.LIST)),
        x.And(x.type(T.FIELDSET), x.sub('mirror').type(T.FIELDSET)), x.And(x.type(T.SECTION), x.sub('mirror').type(T.SECTION)))))
    yield 'extend-kind', x.Implies(x.has('extend'), x.Or(
        x.And(x.type(T.LIST), x.sub('extend').type(T.LIST)), x.And(x.type(T.FIELDSET), x.sub('extend').type(T.FIELDSET)), x.And(x.type(T.SECTION), x.sub('extend').type(T.SECTION))))
    yield 'item-parent', x.Implies(x.type(T.LIST_ITEM), x.sub('parent').type(T.LIST))
    yield 'entry-parent', x.Implies(x.type(T.FIELDSET_ENTRY), x.sub('parent').type(T.FIELDSET))
    yield 'element-parent', x.Implies(x.type(T.EMPTY_ELEMENT, T.FIELD, T.LIST, T.FIELDSET, T.MULTILINE_FIELD_BEGIN, T.SECTION), x.sub('parent').type(T.SECTION, T.DOCUMENT))
    for e in x.extra():
        yield 'key-definition', e


def inv_plain(*required):
    def inv(x):
        for f in required:
            yield f, x.has(f)
        r = x.sub('ranges')
        yield 'line', x.And(x.has('line'), x.int('line') >= 0, x.has('ranges'), r.has('line'))
        yield 'value', x.Implies(x.has('value'), r.has('value'))
    return inv


def inv_step(x):
    r = x.sub('ranges')
    yield 'line', x.And(x.has('line'), x.int('line') >= 0, x.has('ranges'), r.has('line'))
    yield 'template', x.Implies(x.has('template'), r.has('template'))


def inv_comment(x):
    yield from inv_plain()(x)
    r = x.sub('ranges')
    yield 'comment-range', x.Implies(x.has('comment'), x.And(r.has('comment'), r.span('comment')[0] >= r.span('line')[0], x.falsy_never('comment')))


def inv_ranges(x):
    yield 'line-order', x.And(x.span('line')[0] >= 0, x.span('line')[0] <= x.span('line')[1])
    for f in RANGES:
        if f != 'line':
            yield f, x.Implies(x.has(f), x.And(x.span('line')[0] <= x.span(f)[0], x.span(f)[0] <= x.span(f)[1], x.span(f)[1] <= x.span('line')[1]))


RANGES = ('line', 'key', 'value', 'template', 'comment', 'element_operator', 'entry_operator', 'item_operator', 'copy_operator', 'deep_copy_operator',
          'escape_begin_operator', 'escape_end_operator', 'section_operator', 'multiline_field_operator', 'comment_operator',
          'direct_line_continuation_operator', 'spaced_line_continuation_operator')

INSTR = TRec('Instr')
RECORDS = {
    'Ranges': ({f: TSpan() for f in RANGES}, inv_ranges),
    'Comment': ({'line': TInt(), 'ranges': TRec('Ranges'), 'comment': TStr(), 'type': TEnum(T.COMMENT)}, inv_comment),
    'Cont': ({'line': TInt(), 'ranges': TRec('Ranges'), 'value': TStr(), 'spaced': TBool(), 'type': TEnum(T.CONTINUATION)}, inv_plain()),
    'Line': ({'line': TInt(), 'ranges': TRec('Ranges'), 'type': TEnum(T.MULTILINE_FIELD_VALUE)}, inv_plain()),
    'Step': ({'line': TInt(), 'ranges': TRec('Ranges'), 'template': TStr()}, inv_step),
    'End': ({'line': TInt(), 'ranges': TRec('Ranges')}, inv_plain()),
    'Instr': ({'type': TEnum(*ELEMENT_TYPES), 'line': TInt(), 'ranges': TRec('Ranges'), 'key': TStr(), 'value': TStr(), 'template': TStr(), 'parent': INSTR,
               'comments': TList(TRec('Comment')), 'continuations': TList(TRec('Cont')), 'lines': TList(TRec('Line')), 'end': TRec('End'),
               'items': TList(INSTR), 'entries': TList(INSTR), 'elements': TList(INSTR), 'mirror': INSTR, 'extend': INSTR, 'deep_copy': TBool(),
               'computed_value': TOpt(TStr()), 'computed_comment': TOpt(TStr()), 'computed_items': TList(INSTR),
               'computed_elements': TList(INSTR), 'computed_entries': TList(INSTR), 'computed_elements_map': TMap(TList(INSTR)), 'computed_entries_map': TMap(TList(INSTR))}, inv_instr),
}


def sym_inv(fn):
    def inv(it, r):
        return [f for _, f in fn(SymX(it, r))]
    return inv


# ---------------------------------------------------------------- opaque parts: messages and reporters
def message_names(call):
    """Messages every locale provides, with the arity of those that take parameters."""
    out = None
    for m in LOCALES:
        d = {}
        for k, v in vars(m).items():
            if k.startswith('__'):
                continue
            d[k] = len(inspect.signature(v).parameters) if callable(v) else None
        out = d if out is None else {k: v for k, v in out.items() if k in d and d[k] == v}
    return out


MESSAGE_NAMES = message_names(None)
MESSAGES = Opaque('messages')
REPORTER_CLASS = Opaque('reporter-class')


class MessagesModel:
    def getattr(self, it, o, name):
        if isinstance(name, V):
            if not isinstance(name, Const):
                raise Unsupported('computed message name')
            name = name.py
        if name not in MESSAGE_NAMES:
            it.p.prove(f'message-exists({name})', FALSE)
            raise it.exc(AttributeError, name)
        it.p.prove(f'message-exists({name})', TRUE)
        it.p.session.messages = getattr(it.p.session, 'messages', set()) | {name}
        if MESSAGE_NAMES[name] is None:
            return SS(MSG0(z3.StringVal(name)))
        return Opaque('message', name=name, arity=MESSAGE_NAMES[name])


class MessageModel:
    def call(self, it, o, args, kw):
        name, n = o.data['name'], o.data['arity']
        it.p.prove(f'message-arity({name})', n == len(args) and not kw)
        if n != len(args) or kw:
            raise it.type_error(f'{name}() takes {n} arguments')
        v = [it.to_val(a) for a in args]
        return SS((MSG1 if n == 1 else MSG2)(z3.StringVal(name), *v))

    def callable(self, it, o):
        return Const(True)


class ReporterClassModel:
    def call(self, it, o, args, kw):
        c = it.force(args[0])
        n = it.p.alloc(reporter.Reporter)
        r = Ref(n, TObj(reporter.Reporter))
        it.p.put('h', '_log', n, TRUE)
        it.p.put('v', '_log', n, Val.VInt(REP0(c.t)))
        return r


def report(name, many=False):
    def model(it, args, kw):
        r, x = it.force(args[0]), it.force(args[1])
        log = Val.i(it.p.val('_log', r.t))
        if many:
            seq, _ = it.seq_of(x)
            new = RSTEPS(log, z3.StringVal(name), seq)
        else:
            new = RSTEP(log, z3.StringVal(name), it.to_val(x))
            pre = REPORT_PRE.get(name)
            if pre is not None:
                it.p.prove(f'call(Reporter.{name}).pre', pre(it, x))
        it.p.put('v', '_log', r.t, Val.VInt(new))
        return r
    return model


def _needs_line(it, x):
    return z3.Or(type_in(it, x.t, T.DOCUMENT), it.p.has('line', x.t))


REPORT_PRE = {'report_multiline_value': lambda it, x: it.p.has('lines', x.t), 'indicate_line': lambda it, x: it.p.has('line', x.t),
              'question_line': lambda it, x: it.p.has('line', x.t), 'report_line': _needs_line, 'report_element': _needs_line, 'report_comments': _needs_line}


def snippet(it, args, kw):
    r = it.force(args[0])
    return SS(SNIP(Val.i(it.p.val('_log', r.t))))


OUTCOME = z3.Function('loader_outcome', Val, Val, I, I)      # 0 returns, 1 ValueError, 2 another exception
RESULT = z3.Function('loader_result', Val, Val, I, Val)


class OtherError(Exception):
    """Any exception of a loader that is not a ValueError."""
    unknown = True
    excludes = (ValueError,)


def opaque_call(it, f, args, kw):
    """A function of the caller: returns anything, or raises a ValueError or another exception."""
    if kw:
        raise Unsupported('keyword call of an unknown function')
    p = it.p
    n = len(p.trace)
    a = [it.to_val(x) for x in args]
    k = p.choose(3)
    if k == 0:
        r = p.fresh('result', Val)
        p.trace.append(('call', f.t, a, 'return', r))
        return Dyn(r, TAny())
    cls = ValueError if k == 1 else OtherError
    e = p.fresh('exc', I)
    p.assume(z3.And(e < 0, CLS(e) == const_id(cls)))
    p.trace.append(('call', f.t, a, cls.__name__, e))
    p.ghost[('raised-unknown', str(e))] = True
    raise PyExc(cls, Ref(e, TObj(cls)))


def pretty(it, args, kw):
    """InstructionType.pretty is evaluated on the live enum."""
    x = it.force(args[0])
    if isinstance(x, Const):
        return it.live(x.py.pretty())
    if isinstance(x, Dyn) and isinstance(x.typ, TEnum) and all(isinstance(c, T) for c in x.typ.members):
        return SS(PRETTY(x.t))
    raise Unsupported('pretty of an unknown type')


def PRETTY(t):
    """pretty() of a type, evaluated on the live enum."""
    out = z3.StringVal('')
    for x in T:
        out = z3.If(t == Val.VConst(const_id(x)), z3.StringVal(str(x.pretty())), out)
    return out


REC_TYPES = {('column', 'index', 'line'): TRec('Cursor'), ('from', 'to'): TRec('Selection')}
ELEM_CLASSES = (Section, SectionElement, Element, Field, Fieldset, FieldsetEntry, List, ListItem, Empty)
CTX = TObj(Context)


def base_fields(parent):
    return {'_context': CTX, '_instruction': INSTR, '_parent': parent, '_touched': TBool()}


def sel_inv(it, r):
    """A section element has been used as at most one kind, which fits its instruction."""
    p = it.p
    out = []
    child = {'_empty': (T.EMPTY_ELEMENT, (T.EMPTY_ELEMENT,)), '_field': (T.FIELD, (T.FIELD, T.MULTILINE_FIELD_BEGIN, T.EMPTY_ELEMENT)),
             '_fieldset': (T.FIELDSET, (T.FIELDSET, T.EMPTY_ELEMENT)), '_list': (T.LIST, (T.LIST, T.EMPTY_ELEMENT)), '_section': (T.SECTION, (T.SECTION,))}
    ins = Val.r(p.val('_instruction', r))
    y = p.val('_yielded', r)
    for f, (kind, types) in child.items():
        c = Val.r(p.val(f, r))
        out.append(z3.Implies(p.has(f, r), z3.And(p.has('_yielded', r), y == Val.VConst(const_id(kind)), type_in(it, ins, *types),
                                                  p.val('_instruction', c) == p.val('_instruction', r), p.val('_parent', c) == p.val('_parent', r),
                                                  p.val('_context', c) == p.val('_context', r))))
    out.append(z3.Implies(p.has('_yielded', r), z3.Or([p.has(f, r) for f in child])))
    out.append(z3.And(p.has('_instruction', r), p.has('_context', r), p.has('_parent', r)))
    return out


def section_element_inv(it, r):
    return sel_inv(it, r) + [type_in(it, Val.r(it.p.val('_instruction', r)), *(x for x in ELEMENT_TYPES if x not in (T.DOCUMENT,)))]


def inst_type(*types):
    def inv(it, r):
        p = it.p
        return [p.has('_instruction', r), p.has('_context', r), p.has('_parent', r), type_in(it, Val.r(p.val('_instruction', r)), *types)]
    return inv


def plus(inv, *fields):
    def both(it, r):
        return inv(it, r) + [it.p.has(f, r) for f in fields]
    return both


def missing_inv(it, r):
    return [it.p.has('_key', r), it.p.has('_parent', r)]


KEY = TOpt(TStr())


def base_world():
    w = World()
    for n, (f, inv) in RECORDS.items():
        w.schemas[n] = Schema(n, f, sym_inv(inv))
    w.schemas['Cursor'] = Schema('Cursor', {'column': TInt(), 'index': TInt(), 'line': TInt()})
    raw = TList(TRec('RawRecord'))
    w.schemas['RawRecord'] = Schema('RawRecord', {'type': TStr(), 'comment': TOpt(TStr()), 'key': TStr(), 'value': TOpt(TStr()), 'items': raw, 'entries': raw, 'elements': raw})
    w.schemas['Selection'] = Schema('Selection', {'from': TRec('Cursor'), 'to': TRec('Cursor')})
    sec, fs, li = TOpt(TObj(Section)), TOpt(TObj(Fieldset)), TOpt(TObj(List))
    kinds = TEnum(T.EMPTY_ELEMENT, T.FIELD, T.FIELDSET, T.LIST, T.SECTION)
    sel = {**base_fields(sec), '_empty': TObj(Empty), '_field': TObj(Field), '_fieldset': TObj(Fieldset), '_list': TObj(List), '_section': TObj(Section), '_yielded': kinds}
    w.classes = {
        Context: Schema('Context', {'input': TStr(), 'document': INSTR, 'messages': TEnum(MESSAGES), 'reporter': TEnum(REPORTER_CLASS), 'source': TAny(),
                                    'line_count': TInt(), 'meta': TList(TRec('End'))},
                        lambda it, r: [it.p.has(f, r) for f in ('input', 'messages', 'reporter', 'document', 'meta', 'line_count')]),
        SectionElement: Schema('SectionElement', sel, section_element_inv),
        Element: Schema('Element', {**sel, '_fieldset_entry': TObj(FieldsetEntry), '_list_item': TObj(ListItem)}, sel_inv),
        Section: Schema('Section', {**base_fields(sec), '_all_elements_required': TBool(), '_instantiated_elements': TList(TObj(SectionElement)),
                                    '_instantiated_elements_map': TMap(TList(TObj(SectionElement)))}, plus(inst_type(T.SECTION, T.DOCUMENT), '_all_elements_required')),
        Fieldset: Schema('Fieldset', {**base_fields(sec), '_all_entries_required': TBool(), '_instantiated_entries': TList(TObj(FieldsetEntry)),
                                      '_instantiated_entries_map': TMap(TList(TObj(FieldsetEntry)))}, plus(inst_type(T.FIELDSET, T.EMPTY_ELEMENT), '_all_entries_required')),
        List: Schema('List', {**base_fields(sec), '_instantiated_items': TList(TObj(ListItem))}, inst_type(T.LIST, T.EMPTY_ELEMENT)),
        Field: Schema('Field', base_fields(sec), inst_type(T.FIELD, T.MULTILINE_FIELD_BEGIN, T.EMPTY_ELEMENT)),
        Empty: Schema('Empty', base_fields(sec), inst_type(T.EMPTY_ELEMENT)),
        FieldsetEntry: Schema('FieldsetEntry', base_fields(fs), inst_type(T.FIELDSET_ENTRY)),
        ListItem: Schema('ListItem', base_fields(li), inst_type(T.LIST_ITEM)),
        reporter.Reporter: Schema('Reporter', {'_log': TInt()}),
        error_types.Error: Schema('Error', {}),
        OtherError: Schema('OtherError', {}),
    }
    owner = {M['entry']: TUnion(TObj(Fieldset), TObj(M['fieldset']))}
    for c in MISSING:
        w.classes[c] = Schema(c.__name__, {'_key': KEY, '_parent': owner.get(c, TUnion(TObj(Section), TObj(M['section'])))}, missing_inv)
    w.opaque = {'messages': MessagesModel(), 'message': MessageModel(), 'reporter-class': ReporterClassModel()}
    q = 'enolib.reporters.reporter.Reporter.'
    for n in ('report_comments', 'report_element', 'report_line', 'report_missing_element', 'report_multiline_value', 'indicate_line', 'question_line'):
        w.models[q + n] = report(n)
    w.models[q + 'report_elements'] = report('report_elements', True)
    w.models[q + 'snippet'] = snippet
    w.models['enolib.constants.InstructionType.pretty'] = pretty
    w.models['opaque-call'] = opaque_call
    w.literal_type = lambda keys: REC_TYPES.get(tuple(sorted(keys)))
    return w
