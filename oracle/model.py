"""Reference model of the query API over oracle.spec documents.

Every operation yields an Outcome that the real library must match.  The model
keeps exactly the state the properties mention: what was touched, what kind an
element was yielded as, and which sections require all their elements.
"""
import json


class Outcome:
    def __init__(self, kind, value=None, text=None, sel=None, about=None, exc=None):
        self.kind, self.value, self.text, self.sel, self.about, self.exc = kind, value, text, sel, about, exc

    def __repr__(self):
        return f'Outcome({self.kind}, {self.value!r}, text={self.text!r}, sel={self.sel}, exc={self.exc!r})'


class Raise(Exception):
    def __init__(self, outcome):
        self.outcome = outcome


def lines_of(node, first=None, last=None):
    return set(range((first or node.line).no, (last or node.last_line()).no + 1))


def sel_element(node):
    if node.kind == 'document':
        return (0, 0), set()
    return (node.line.begin, node.last_line().end), lines_of(node)


def sel_comments(node):
    if node.kind == 'document':
        return (0, 0), set()
    lines = node.comments()
    if not lines:
        return (node.line.begin, node.line.begin), {node.no}
    if len(lines) == 1:
        return lines[0].ranges.get('comment', (lines[0].begin, lines[0].end)), {lines[0].no}
    return (lines[0].begin, lines[-1].end), {l.no for l in lines}


def sel_value(node):
    if node.is_mirror():
        return node.line.ranges['key'], {node.no}
    if node.kind == 'multiline':
        if node.lines:
            return (node.lines[0].begin, node.lines[-1].end), {l.no for l in node.lines}
        return (node.line.end, node.line.end), {node.no}
    r = node.line.ranges
    last = node.continuations[-1] if node.continuations else None
    if 'value' in r:
        begin = r['value'][0]
    else:
        op = next((r[k] for k in ('element_operator', 'entry_operator', 'item_operator') if k in r), None)
        begin = op[1] if op else node.line.end
    end = last.end if last else r['value'][1] if 'value' in r else node.line.end
    return (begin, end), lines_of(node)


def sel_missing_value(node):
    r = node.line.ranges
    op = next((r[k] for k in ('template', 'element_operator', 'entry_operator', 'item_operator') if k in r), None)
    begin = op[1] if op else node.line.end
    end = node.continuations[-1].end if node.kind == 'field' and node.continuations else node.line.end
    return (begin, end), {node.no}


def sel_missing(node):
    if node.kind == 'document':
        return (0, 0), set()
    return (node.line.end, node.line.end), {node.no}


COMPATIBLE = {
    'empty': ('empty',),
    'field': ('field', 'multiline', 'empty'),
    'fieldset': ('fieldset', 'empty'),
    'list': ('list', 'empty'),
    'section': ('section',),
    'fieldset_entry': ('entry',),
    'list_item': ('item',),
}


class Env:
    """The document, the locale and the loaders an operation sequence uses."""

    def __init__(self, doc, messages):
        self.doc, self.messages = doc, messages
        self.calls = []

    def text(self, name, *args):
        m = getattr(self.messages, name)
        return m(*args) if callable(m) else m

    def fail(self, text, where, alternatives=()):
        sel, about = where
        raise Raise(Outcome('raise', exc='ValidationError', text=[text, *alternatives], sel=[sel], about=about))

    def load(self, loader, arg, error):
        self.calls.append(arg)
        try:
            return LOADERS[loader](arg)
        except ValueError as e:
            error(e)
        except Exception as e:
            raise Raise(Outcome('raise', exc=e))


class Boom(Exception):
    pass


class SubValueError(ValueError):
    pass


def _raiser(exc):
    def loader(arg):
        raise exc(f'bad {arg}') if exc is not SubValueError else SubValueError('', arg)
    return loader


def _value_error_if_long(arg):
    if len(arg) > 2:
        raise ValueError(f'{arg} is too long')
    return len(arg)


def _bare(arg):
    raise ValueError()


LOADERS = {
    'upper': str.upper,
    'none': lambda a: None,
    'zero': lambda a: 0,
    'false': lambda a: False,
    'blank': lambda a: '',
    'list': lambda a: [a],
    'same': lambda a: a,
    'invalid': _raiser(ValueError),
    'subclass': _raiser(SubValueError),
    'bare': _bare,
    'boom': _raiser(Boom),
    'key': _raiser(KeyError),
    'type': _raiser(TypeError),
    'long': _value_error_if_long,
    'int': int,
}
MISSING_NAMES = {'element': 'missing_element', 'empty': 'missing_empty', 'field': 'missing_field', 'fieldset': 'missing_fieldset',
                 'list': 'missing_list', 'section': 'missing_section', 'fieldset_entry': 'missing_fieldset_entry'}


class M:
    kind = None

    def __init__(self, env, node, parent=None):
        self.env, self.node, self._parent, self.touched = env, node, parent, False

    # ------------------------------------------------------------- all elements
    def named(self, name, key):
        return self.env.text(name) if key is None else self.env.text(name + '_with_key', key)

    def comment(self, loader, required):
        self.touched = True
        c = self.node.comment() if self.node.kind != 'document' else None
        if not c:
            if required:
                where = ((0, 0), set()) if self.node.kind == 'document' else ((self.node.line.begin,) * 2, {self.node.no})
                self.env.fail(self.env.text('missing_comment'), where)
            return None
        if loader is None:
            return c
        return self.env.load(loader, c, lambda e: self.env.fail(self.env.text('comment_error', e), sel_comments(self.node)))

    def thekey(self):
        return self.node.parent.key if self.node.kind == 'item' else self.node.key

    def key_where(self):
        n = self.node.parent if self.node.kind == 'item' else self.node
        return n.line.ranges['key'], {n.no}

    def op_key(self, loader):
        self.touched = True
        return self.env.load(loader, self.thekey(), lambda e: self.env.fail(self.env.text('key_error', e), self.key_where()))

    def op_string_key(self):
        self.touched = True
        return self.thekey()

    def op_optional_comment(self, loader): return self.comment(loader, False)
    def op_required_comment(self, loader): return self.comment(loader, True)
    def op_optional_string_comment(self): return self.comment(None, False)
    def op_required_string_comment(self): return self.comment(None, True)
    def op_raw(self): return self.node.raw()

    def op_touch(self):
        self.touch()

    def touch(self):
        self.touched = True

    def created(self, text, where):
        return Outcome('error', text=[text], sel=[where[0]], about=where[1])

    def message(self, m, arg):
        if m == 'F':
            self.env.calls.append(arg)
            return f'F({arg})'
        return m

    def op_comment_error(self, m):
        return self.created(self.env.text('comment_error', self.message(m, self.node.comment() if self.node.kind != 'document' else None)), sel_comments(self.node))

    def op_key_error(self, m):
        return self.created(self.env.text('key_error', self.message(m, self.thekey())), self.key_where())

    def op_error(self, m):
        return self.created(self.message(m, self), sel_element(self.node))

    def op_parent(self):
        return self._parent

    def untouched(self):
        """All nodes an assertion may name, the empty list if everything was touched."""
        return [] if self.touched else [self.node]


class MValue(M):
    def value(self, loader, required):
        self.touched = True
        v = self.node.value()
        if v is None:
            if required:
                name = {'entry': 'missing_fieldset_entry_value', 'item': 'missing_list_item_value'}.get(self.node.kind, 'missing_field_value')
                self.env.fail(self.env.text(name, self.thekey()), sel_missing_value(self.node))
            return None
        if loader is None:
            return v
        return self.env.load(loader, v, lambda e: self.env.fail(self.env.text('value_error', e), sel_value(self.node)))

    def op_optional_string_value(self): return self.value(None, False)
    def op_required_string_value(self): return self.value(None, True)
    def op_optional_value(self, loader): return self.value(loader, False)
    def op_required_value(self, loader): return self.value(loader, True)

    def op_value_error(self, m):
        return self.created(self.env.text('value_error', self.message(m, self.node.value())), sel_value(self.node))


class MEmpty(M): kind = 'empty'
class MField(MValue): kind = 'field'
class MEntry(MValue): kind = 'entry'
class MItem(MValue): kind = 'item'


class MList(M):
    kind = 'list'

    def __init__(self, *a):
        super().__init__(*a)
        self.children = None

    def items(self):
        if self.children is None:
            self.children = [MItem(self.env, n, self) for n in self.node.all_items()]
        return self.children

    def op_items(self):
        self.touched = True
        return list(self.items())

    def op_length(self):
        self.touched = True
        return len(self.items())

    def values(self, loader, required):
        self.touched = True
        return [i.value(loader, required) for i in self.items()]

    def op_optional_string_values(self): return self.values(None, False)
    def op_required_string_values(self): return self.values(None, True)
    def op_optional_values(self, loader): return self.values(loader, False)
    def op_required_values(self, loader): return self.values(loader, True)

    def touch(self):
        self.touched = True
        for i in self.items():
            i.touched = True

    def untouched(self):
        inner = [i.node for i in self.items() if not i.touched]
        return inner if self.touched else [self.node] + inner


class MFieldset(M):
    kind = 'fieldset'

    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.children = None
        self.all_required = bool(parent and parent.all_required)

    def entries(self, key=None):
        if self.children is None:
            self.children = [MEntry(self.env, n, self) for n in self.node.all_entries()]
        return [e for e in self.children if not key or e.node.key == key]

    def entry(self, key, required):
        self.touched = True
        found = self.entries(key)
        if not found:
            if required or self.all_required:
                self.env.fail(self.named('missing_fieldset_entry', key), sel_missing(self.node))
            return MMissing(self.env, 'fieldset_entry', key, self) if required is None else None
        if len(found) > 1:
            about = set().union(*(lines_of(e.node) for e in found))
            self.env.fail(self.named('expected_single_fieldset_entry', key), (sel_element(found[0].node)[0], about))
        return found[0]

    def op_entry(self, key=None): return self.entry(key, None)
    def op_optional_entry(self, key=None): return self.entry(key, False)
    def op_required_entry(self, key=None): return self.entry(key, True)

    def op_entries(self, key=None):
        self.touched = True
        return self.entries(key)

    def op_all_entries_required(self, required=True):
        self.all_required = required

    def op_assert_all_touched(self, message=None, only=None, skip=None):
        bad = [e for e in self.entries() if in_scope(e.node.key, only, skip) and not e.touched]
        assertion(self, message, [e.node for e in bad])

    def touch(self):
        self.touched = True
        for e in self.entries():
            e.touched = True

    def untouched(self):
        inner = [e.node for e in self.entries() if not e.touched]
        return inner if self.touched else [self.node] + inner


def in_scope(key, only, skip):
    return not (skip and key in skip) and not (only and key not in only)


def assertion(m, message, nodes):
    if nodes:
        texts, sels, about = [], [], []
        for n in nodes:
            texts.append(m.env.text('unexpected_element') if message is None else ('F ' + json.dumps(n.raw())) if message == 'F' else message)
            s, a = sel_element(n)
            sels.append(s)
            about.append(a)
        raise Raise(Outcome('raise', exc='ValidationError', text=texts, sel=sels, about=about))


class MSection(M):
    kind = 'section'

    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.children = None
        self.all_required = bool(parent and parent.all_required)

    def elements(self, key=None):
        if self.children is None:
            self.children = [MElement(self.env, n, self) for n in self.node.content()]
        return [e for e in self.children if not key or e.node.key == key]

    def single(self, kind, key, required):
        self.touched = True
        found = self.elements(key)
        if not found:
            if required or self.all_required:
                self.env.fail(self.named(MISSING_NAMES[kind], key), sel_missing(self.node))
            return MMissing(self.env, kind, key, self) if required is None else None
        if len(found) > 1:
            about = set().union(*(lines_of(e.node) for e in found))
            self.env.fail(self.named('expected_single_' + kind, key), (sel_element(found[0].node)[0], about))
        e = found[0]
        if kind == 'element':
            return e
        if e.node.type() not in COMPATIBLE[kind]:
            self.env.fail(self.named('expected_' + kind, key), sel_element(e.node))
        return e.to(kind)

    def plural(self, kind, key):
        self.touched = True
        out = []
        for e in self.elements(key):
            if e.node.type() not in COMPATIBLE[kind]:
                self.env.fail(self.named(f'expected_{kind}s', key), sel_element(e.node))
            out.append(e.to(kind))
        return out

    def op_elements(self, key=None):
        self.touched = True
        return self.elements(key)

    def op_all_elements_required(self, required=True):
        self.all_required = required
        for e in self.elements():
            for kind, child in e.yielded.items():
                if kind == 'section':
                    child.op_all_elements_required(required)
                elif kind == 'fieldset':
                    child.all_required = required

    def op_assert_all_touched(self, message=None, only=None, skip=None):
        nodes = []
        for e in self.elements():
            if in_scope(e.node.key, only, skip):
                nodes += e.untouched()
        assertion(self, message, nodes)

    def touch(self):
        self.touched = True
        for e in self.elements():
            e.touch()

    def untouched(self):
        inner = [n for e in self.elements() for n in e.untouched()]
        return inner if self.touched else [self.node] + inner


def _single(kind, required):
    def op(self, key=None):
        return self.single(kind, key, required)
    return op


for _k in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
    setattr(MSection, f'op_{_k}', _single(_k, None))
    setattr(MSection, f'op_optional_{_k}', _single(_k, False))
    setattr(MSection, f'op_required_{_k}', _single(_k, True))
for _k in ('field', 'fieldset', 'list', 'section'):
    setattr(MSection, f'op_{_k}s', (lambda kind: lambda self, key=None: self.plural(kind, key))(_k))

CLASSES = {'empty': MEmpty, 'field': MField, 'fieldset': MFieldset, 'list': MList, 'section': MSection,
           'fieldset_entry': MEntry, 'list_item': MItem}
PRETTY = {'empty': 'empty_element'}


class MElement(M):
    kind = 'element'

    def __init__(self, *a):
        super().__init__(*a)
        self.yielded = {}

    def to(self, kind):
        if kind in self.yielded:
            return self.yielded[kind]
        wrong = self.node.type() not in COMPATIBLE[kind]
        if self.yielded:
            first = next(iter(self.yielded))
            out = Outcome('raise', exc='TypeError', text=PRETTY.get(first, first))
            if wrong:
                out.alternative = Outcome('raise', exc='ValidationError', text=[self.env.text('expected_' + kind)], sel=[sel_element(self.node)[0]], about=sel_element(self.node)[1])
            raise Raise(out)
        if wrong:
            self.env.fail(self.env.text('expected_' + kind), sel_element(self.node))
        made = CLASSES[kind](self.env, self.node, self._parent)
        self.yielded[kind] = made
        return made

    def op_to_empty(self): return self.to('empty')
    def op_to_field(self): return self.to('field')
    def op_to_fieldset(self): return self.to('fieldset')
    def op_to_list(self): return self.to('list')
    def op_to_section(self): return self.to('section')
    def yields(self, kind): return self.node.type() in COMPATIBLE[kind]
    def op_yields_empty(self): return self.yields('empty')
    def op_yields_field(self): return self.yields('field')
    def op_yields_fieldset(self): return self.yields('fieldset')
    def op_yields_list(self): return self.yields('list')
    def op_yields_section(self): return self.yields('section')

    def touch(self):
        for child in self.yielded.values():
            child.touch()

    def untouched(self):
        if not self.yielded:
            return [self.node]
        return [n for child in self.yielded.values() for n in child.untouched()]


class MMissing:
    """Null object standing for an absent element."""

    def __init__(self, env, kind, key, parent):
        self.env, self.kind, self.key, self.parent = env, kind, key, parent

    def report(self):
        outer = self
        while isinstance(outer.parent, MMissing):
            outer = outer.parent
        name = MISSING_NAMES[outer.kind]
        text = outer.parent.named(name, outer.key)
        alt = [outer.parent.named('missing_element', outer.key)] if outer.kind == 'empty' else []
        self.env.fail(text, sel_missing(outer.parent.node), alt)

    def query(self, kind, key):
        return MMissing(self.env, kind, key, self)


def _missing_ops():
    def const(v):
        return lambda self, *a: list(v) if isinstance(v, list) else v

    def required(self, *a):
        self.report()
    ops = {'element': {}, 'empty': {}, 'field': {}, 'fieldset': {}, 'list': {}, 'section': {}, 'fieldset_entry': {}}
    for k, d in ops.items():
        for n in ('key', 'string_key', 'required_comment', 'required_string_comment'):
            d[n] = required
        for n in ('optional_comment', 'optional_string_comment', 'raw'):
            d[n] = const(None)
        if k in ('field', 'fieldset_entry'):
            d['required_string_value'] = d['required_value'] = required
            d['optional_string_value'] = d['optional_value'] = const(None)
        if k == 'list':
            for n in ('items', 'optional_string_values', 'optional_values', 'required_string_values', 'required_values'):
                d[n] = const([])
        if k == 'fieldset':
            d['entries'], d['optional_entry'], d['required_entry'] = const([]), const(None), required
            d['entry'] = lambda self, key=None: self.query('fieldset_entry', key)
        if k == 'section':
            for q in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
                d[q] = (lambda q: lambda self, key=None: self.query(q, key))(q)
                d['optional_' + q], d['required_' + q] = const(None), required
            for q in ('elements', 'fields', 'fieldsets', 'lists', 'sections'):
                d[q] = const([])
        if k == 'element':
            for q in ('empty', 'field', 'fieldset', 'list', 'section'):
                d['to_' + q] = (lambda q: lambda self: MMissing(self.env, q, self.key, self.parent))(q)
    return ops


MISSING_OPS = _missing_ops()
