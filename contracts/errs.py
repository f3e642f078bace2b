"""What each error says, points at and shows: specifications shared by the contracts."""
from pyvc.interp import truthy
from .lib import *  # noqa: F401,F403
from .lib import F, span, log1, msg, keyed_msg, type_in, T, LAST, element_cases, missing_cases


def refs(it, x, name):
    return it.p.seq(Val.r(F(it, x, name)))


def first(it, x, name):
    return Val.r(refs(it, x, name)[0])


def last(it, x, name):
    s = refs(it, x, name)
    return Val.r(s[z3.Length(s) - 1])


def comment_error(it, c, x, message):
    p = it.p
    doc, has = type_in(it, x, T.DOCUMENT), p.has('comments', x)
    one = z3.And(has, z3.Length(refs(it, x, 'comments')) == 1)
    c0, cn = first(it, x, 'comments'), last(it, x, 'comments')
    text = p.has('comment', c0)
    line = ((x, 'line', 0), (x, 'line', 0))
    return (Val.VStr(msg('comment_error', message)), log1(it, c, 'report_comments', x),
            [(doc, None), (z3.And(z3.Not(doc), one, text), ((c0, 'comment', 0), (c0, 'comment', 1))),
             (z3.And(z3.Not(doc), one, z3.Not(text)), ((c0, 'line', 0), (c0, 'line', 1))),
             (z3.And(z3.Not(doc), has, z3.Not(one)), ((c0, 'line', 0), (cn, 'line', 1))), (z3.And(z3.Not(doc), z3.Not(has)), line)])


def element_error(it, c, x, message):
    return message, log1(it, c, 'report_element', x), element_cases(it, x)


def key_error(it, c, x, message):
    y = z3.If(type_in(it, x, T.LIST_ITEM), Val.r(F(it, x, 'parent')), x)
    return Val.VStr(msg('key_error', message)), log1(it, c, 'report_line', y), [(TRUE, ((y, 'key', 0), (y, 'key', 1)))]


def missing_comment(it, c, x):
    doc = type_in(it, x, T.DOCUMENT)
    return Val.VStr(msg('missing_comment')), log1(it, c, 'report_line', x), [(doc, None), (z3.Not(doc), ((x, 'line', 0), (x, 'line', 0)))]


def missing_element(it, c, x, name, key):
    return Val.VStr(keyed_msg(name, key)), log1(it, c, 'report_missing_element', x), missing_cases(it, x)


def missing_value(it, c, x):
    p = it.p
    field = type_in(it, x, T.FIELD, T.EMPTY_ELEMENT, T.MULTILINE_FIELD_BEGIN)
    entry, item = type_in(it, x, T.FIELDSET_ENTRY), type_in(it, x, T.LIST_ITEM)
    r = Val.r(F(it, x, 'ranges'))
    text = z3.If(field, msg('missing_field_value', F(it, x, 'key')), z3.If(entry, msg('missing_fieldset_entry_value', F(it, x, 'key')),
                 msg('missing_list_item_value', F(it, Val.r(F(it, x, 'parent')), 'key'))))
    tpl, op = p.has('template', r), p.has('element_operator', r)
    cont = z3.And(type_in(it, x, T.FIELD), p.has('continuations', x))
    k = last(it, x, 'continuations')
    cases = []
    for fc, fp in [(z3.And(field, tpl), (x, 'template', 1)), (z3.And(field, z3.Not(tpl), op), (x, 'element_operator', 1)),
                   (z3.And(field, z3.Not(tpl), z3.Not(op)), (x, 'line', 1)), (entry, (x, 'entry_operator', 1)), (item, (x, 'item_operator', 1))]:
        cases += [(z3.And(fc, cont), (fp, (k, 'line', 1))), (z3.And(fc, z3.Not(cont)), (fp, (x, 'line', 1)))]
    return Val.VStr(text), log1(it, c, 'report_element', x), cases


def value_error(it, c, x, message):
    p = it.p
    r = Val.r(F(it, x, 'ranges'))
    copy, multi = p.has('mirror', x), type_in(it, x, T.MULTILINE_FIELD_BEGIN)
    lines = p.has('lines', x)
    l0, ln, k = first(it, x, 'lines'), last(it, x, 'lines'), last(it, x, 'continuations')
    has, cont = p.has('value', r), p.has('continuations', x)
    log = z3.If(copy, log1(it, c, 'report_line', x), z3.If(z3.And(multi, lines), log1(it, c, 'report_multiline_value', x), log1(it, c, 'report_element', x)))
    cases = [(copy, ((x, 'key', 0), (x, 'key', 1))), (z3.And(z3.Not(copy), multi, lines), ((l0, 'line', 0), (ln, 'line', 1))),
             (z3.And(z3.Not(copy), multi, z3.Not(lines)), ((x, 'line', 1), (x, 'line', 1)))]
    rest = z3.And(z3.Not(copy), z3.Not(multi))
    eop, nop = p.has('element_operator', r), p.has('entry_operator', r)
    item = type_in(it, x, T.LIST_ITEM)
    for fc, fp in [(has, (x, 'value', 0)), (z3.And(z3.Not(has), eop), (x, 'element_operator', 1)), (z3.And(z3.Not(has), z3.Not(eop), nop), (x, 'entry_operator', 1)),
                   (z3.And(z3.Not(has), z3.Not(eop), z3.Not(nop), item), (x, 'item_operator', 1)),
                   (z3.And(z3.Not(has), z3.Not(eop), z3.Not(nop), z3.Not(item)), (x, 'line', 1))]:
        for tc, tp in [(cont, (k, 'line', 1)), (z3.And(z3.Not(cont), has), (x, 'value', 1)), (z3.And(z3.Not(cont), z3.Not(has)), (x, 'line', 1))]:
            cases.append((z3.And(rest, fc, tc), (fp, tp)))
    return Val.VStr(msg('value_error', message)), log, cases


def unexpected_element(it, c, x, message):
    text = z3.If(truthy(message), message, Val.VStr(msg('unexpected_element')))
    return text, log1(it, c, 'report_element', x), element_cases(it, x)


def unexpected_element_type(it, c, x, name, key):
    return Val.VStr(keyed_msg(name, key)), log1(it, c, 'report_element', x), element_cases(it, x)


def unexpected_multiple(it, c, seq, name, key):
    """seq: instructions of the elements."""
    x = Val.r(seq[0])
    return Val.VStr(keyed_msg(name, key)), RSTEPS(REP0(c), z3.StringVal('report_elements'), seq), element_cases(it, x)
