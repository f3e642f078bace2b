"""Values, comments, keys, loaders, conversions, parents (C14, C17, C22, C23)."""
from .lib import *  # noqa: F401,F403
from .lib import Method, Contract, F, fref, M, T, TRUE, FALSE, LAST
from . import errs

VALUE = z3.Function('VALUE', I, Val)         # value of an instruction, as C05/C06 define it: None or a string
COMMENT = z3.Function('COMMENT', I, Val)     # comment of an instruction, as C07 defines it
KEY = TOpt(TStr())
FN = TFn()


def nullable(t):
    return z3.Or(Val.is_VNone(t), Val.is_VStr(t))


def cache_only(field):
    """Frame of a reading function: only the cache of instructions changes."""
    return {('h', field): None, ('v', field): None}


class ContextRead(Contract):
    """Context.value / Context.comment: a fixed function of the instruction; only its cache changes."""
    args = {'self': TObj(Context), 'element': INSTR}
    returns = TOpt(TStr())
    raises = ()
    spec = None
    maintains = ()

    def post(self, it, a, out, pre):
        t = self.spec(a['element'].t)
        res = [('result', returned(it, out, t)), ('nullable', nullable(t))]
        if self.nonempty:
            res.append(('nonempty', z3.Implies(Val.is_VStr(t), z3.Length(Val.s(t)) > 0)))
        return res


class ContextValue(ContextRead):
    target = 'enolib.context:Context.value'
    spec = staticmethod(VALUE)
    nonempty = False
    frame = cache_only('computed_value')


class ContextComment(ContextRead):
    target = 'enolib.context:Context.comment'
    spec = staticmethod(COMMENT)
    nonempty = True
    frame = cache_only('computed_comment')


class LastIn(Contract):
    """last_in: the instruction of the last line of an element; it does not begin before the element."""
    target = 'enolib.errors.selections:last_in'
    args = {'element': INSTR}
    returns = INSTR
    maintains = ()

    def post(self, it, a, out, pre):
        return [('last', returned(it, out, Val.VRef(LAST(a['element'].t))))]

    def result(self, it, a):
        r = LAST(a['element'].t)
        it.p.assume(z3.And(r >= 0, it.p.has('line', r), it.p.has('ranges', r)))
        v = Ref(r, TRec('End'))
        it.touch(v)
        return v


def assumed():
    """Contracts used at call sites; their own verification lives in values.py / ranges.py."""
    return [ContextValue(), ContextComment(), LastIn()]


READ = {**cache_only('computed_value'), **cache_only('computed_comment')}
TOUCH = {**READ, '_touched': only('self')}


def touched(it, a):
    return [('touched', z3.And(it.p.has('_touched', a['self'].t), F(it, a['self'].t, '_touched') == Val.VBool(TRUE)))]


def calls(it):
    return [t for t in it.p.trace if t[0] == 'call']


def loader_outcome(it, a, out, subject, report, absent, translated):
    """The loader is called at most once, with the subject; report(message) is the spec of the translated error."""
    res = []
    loader = a.get('loader')
    none = TRUE if loader is None else Val.is_VNone(it.to_val(loader))
    made = calls(it)
    if not made:
        res.append(('loader-called', none if absent is None else z3.Or(none, absent)))
        return res, False
    c = made[0]
    res.append(('loader-called-once', z3.And(z3.BoolVal(len(made) == 1), z3.Not(none))))
    if loader is None:
        return res, True
    res.append(('loader-is-the-given-one', c[1] == it.to_val(loader)))
    res.append(('loader-argument', z3.And(z3.BoolVal(len(c[2]) == 1), c[2][0] == subject)))
    if absent is not None:
        res.append(('not-called-when-absent', z3.Not(absent)))
    if c[3] == 'return':
        res.append(('result-unchanged', returned(it, out, c[4])))
    elif c[3] == 'ValueError':
        res += error(it, out, ValidationError, *report(Val.VRef(c[4])))
    else:
        res.append(('other-exceptions-pass', z3.And(out.value.t == c[4]) if out.kind == 'raise' and out.cls is OtherError else FALSE))
    return res, True


class ValueQuery(Method):
    """_value and the value queries built on it."""
    raises = (ValidationError, OtherError)
    frame = TOUCH
    props = ('C14', 'C17', 'C22', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    required = None       # None: parameter `required`

    def post(self, it, a, out, pre):
        me = a['self'].t
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        v = VALUE(x)
        absent = Val.is_VNone(v)
        res, called = loader_outcome(it, a, out, v, lambda m: errs.value_error(it, c, x, m), absent, True)
        req = it.truth(a['required']) if self.required is None else z3.BoolVal(self.required)
        if not called:
            if out.kind == 'raise':
                res += [('raises-only-if-absent', z3.And(absent, req))]
                res += error(it, out, ValidationError, *errs.missing_value(it, c, x))
            else:
                res += [('value', z3.If(absent, z3.And(z3.Not(req), returned(it, out, Val.VNone)), returned(it, out, v)))]
        return res + touched(it, a)


class CommentQuery(Method):
    raises = (ValidationError, OtherError)
    frame = TOUCH
    props = ('C14', 'C17', 'C22', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    required = None

    def post(self, it, a, out, pre):
        me = a['self'].t
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        v = COMMENT(x)
        absent = Val.is_VNone(v)
        res, called = loader_outcome(it, a, out, v, lambda m: errs.comment_error(it, c, x, m), absent, True)
        req = it.truth(a['required']) if self.required is None else z3.BoolVal(self.required)
        if not called:
            if out.kind == 'raise':
                res += [('raises-only-if-absent', z3.And(absent, req))]
                res += error(it, out, ValidationError, *errs.missing_comment(it, c, x))
            else:
                res += [('comment', z3.If(absent, z3.And(z3.Not(req), returned(it, out, Val.VNone)), returned(it, out, v)))]
        return res + touched(it, a)


def key_of(it, x):
    return z3.If(type_in(it, x, T.LIST_ITEM), F(it, Val.r(F(it, x, 'parent')), 'key'), F(it, x, 'key'))


class KeyQuery(Method):
    raises = (ValidationError, OtherError)
    frame = {'_touched': only('self')}
    props = ('C14', 'C17', 'C22', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    plain = False

    def pre(self, it, a):
        return [z3.Not(type_in(it, fref(it, a['self'].t, '_instruction'), T.DOCUMENT))]

    def post(self, it, a, out, pre):
        me = a['self'].t
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        k = key_of(it, x)
        if self.plain:
            return [('key', returned(it, out, k))] + (touched(it, a) if self.name != '_key' else [])
        res, called = loader_outcome(it, a, out, k, lambda m: errs.key_error(it, c, x, m), None, True)
        return res + [('loader-was-called', z3.BoolVal(called))] + touched(it, a)


class PlainKey(KeyQuery):
    raises = ()
    plain = True


class MakeError(Method):
    """error(), key_error(), value_error(), comment_error(): the error for a message (or message function)."""
    raises = (ValueError, OtherError)
    frame = READ
    props = ('C14', 'C17', 'C22', 'C21')
    concerns = {'C21': ('message-exists', 'message-arity')}
    spec = None
    subject = None
    callable_message = False

    def setup(self, it):
        a = super().setup(it)
        if not self.callable_message:
            it.p.assume(z3.Not(z3.Function('callable', Val, B)(it.to_val(a['message']))))
        return a

    def pre(self, it, a):
        return [z3.Not(type_in(it, fref(it, a['self'].t, '_instruction'), T.DOCUMENT))] if self.name == 'key_error' else []

    def post(self, it, a, out, pre):
        me = a['self'].t
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        made = calls(it)
        message = it.to_val(a['message'])
        if self.callable_message:
            res = [('message-function-called-once', z3.BoolVal(len(made) == 1)), ('message-function-argument', made[0][2][0] == self.subject(it, a, x))] if made else [('message-function-called', FALSE)]
            if made and made[0][3] != 'return':
                return res + [('exception-passes', out.value.t == made[0][4] if out.kind == 'raise' else FALSE)]
            if made:
                message = made[0][4]
        else:
            res = [('message-is-no-function', z3.BoolVal(not made))]
        v = out.value if out.kind == 'return' else None
        if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (ValidationError,)):
            return res + [('returns-error', FALSE)]
        return res + error_object(it, v, *self.spec_fn(it, c, x, message))


class Init(Method):
    """Constructor: what it is given is what it keeps."""
    name = '__init__'
    frame = {n: only('self') for n in ('_context', '_instruction', '_parent', '_all_elements_required', '_all_entries_required')}
    props = ('C16', 'C23')
    maintains = ()
    inherits = None

    def setup(self, it):
        a = super().setup(it)
        n = it.p.alloc(self.cls)
        a['self'] = Ref(n, TObj(self.cls))
        return a

    def post(self, it, a, out, pre):
        me = a['self'].t
        res = [('returns', returned(it, out, Val.VNone)), ('context', F(it, me, '_context') == it.to_val(a['context'])), ('instruction', F(it, me, '_instruction') == it.to_val(a['instruction'])),
               ('parent', F(it, me, '_parent') == it.to_val(a['parent'])), ('untouched', z3.Not(it.p.has('_touched', me)))]
        if self.inherits:
            p = it.to_val(a['parent'])
            res.append(('requirement-inherited', z3.If(Val.is_VNone(p), F(it, me, self.inherits) == Val.VBool(FALSE), F(it, me, self.inherits) == F(it, Val.r(p), '_all_elements_required'))))
        return res


KINDS = {'empty': (Empty, T.EMPTY_ELEMENT, (T.EMPTY_ELEMENT,)), 'field': (Field, T.FIELD, (T.FIELD, T.MULTILINE_FIELD_BEGIN, T.EMPTY_ELEMENT)),
         'fieldset': (Fieldset, T.FIELDSET, (T.FIELDSET, T.EMPTY_ELEMENT)), 'list': (List, T.LIST, (T.LIST, T.EMPTY_ELEMENT)), 'section': (Section, T.SECTION, (T.SECTION,))}


class Convert(Method):
    """to_*: the same object again, or a new one of this kind, or a TypeError / ValidationError that leaves everything as it was."""
    raises = (ValidationError, TypeError)
    props = ('C23', 'C22', 'C11', 'C16')
    concerns = {'C16': ('requirement-inherited',)}
    kind = None

    def frame_of(self, it, a):
        return {'_yielded': only('self'), '_' + self.kind: only('self')}

    def post(self, it, a, out, pre):
        me = a['self'].t
        cls, kind, types = KINDS[self.kind]
        f = '_' + self.kind
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        with at_pre(it, pre):
            had, yielded, old = it.p.has(f, me), it.p.has('_yielded', me), F(it, me, f)
            was = F(it, me, '_yielded')
            par = F(it, me, '_parent')
        fits = type_in(it, x, *types)
        if out.kind == 'return':
            v = out.value
            if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (cls,)):
                return [('kind', FALSE)]
            return [('same-object', z3.Implies(had, Val.VRef(v.t) == old)), ('new-object', z3.Implies(z3.Not(had), z3.And(z3.Not(yielded), fits, v.t < 0))),
                    ('kept', z3.And(it.p.has(f, me), F(it, me, f) == Val.VRef(v.t), it.p.has('_yielded', me), F(it, me, '_yielded') == Val.VConst(const_id(kind)))),
                    ('element-context', F(it, v.t, '_context') == F(it, me, '_context')), ('element-instruction', F(it, v.t, '_instruction') == F(it, me, '_instruction')),
                    ('element-parent', F(it, v.t, '_parent') == par), ('fits', fits),
                    ('new-is-untouched', z3.Implies(z3.Not(had), z3.Not(it.p.has('_touched', v.t))))] + self.inherited(it, v, had, par)
        same = [('unchanged', z3.And(it.p.has('_yielded', me) == yielded, it.p.has(f, me) == had))]
        if out.cls is TypeError:
            args = it.p.ghost.get(('args', str(out.value.t)), [])
            res = [('already-yielded', z3.And(yielded, z3.Not(had)))]
            if len(args) == 1 and it.is_str(args[0]):
                for k, (_, kk, _t) in KINDS.items():
                    name = kk.pretty()
                    res.append(('names-the-first-kind', z3.Implies(was == Val.VConst(const_id(kk)), z3.Contains(it.str_(args[0]), z3.StringVal(f'yielded as {name} ')))))
            else:
                res.append(('names-the-first-kind', FALSE))
            return res + same
        return [('incompatible', z3.And(z3.Not(had), z3.Not(fits)))] + same + error(it, out, ValidationError, *errs.unexpected_element_type(it, c, x, 'expected_' + self.kind, Val.VNone))


    def inherited(self, it, v, had, par):
        flag = {'section': '_all_elements_required', 'fieldset': '_all_entries_required'}.get(self.kind)
        if flag is None:
            return []
        above = z3.If(Val.is_VNone(par), Val.VBool(FALSE), F(it, Val.r(par), '_all_elements_required'))
        return [('requirement-inherited', z3.Implies(z3.Not(had), F(it, v.t, flag) == above))]


class ConvertInner(Method):
    """Element.to_list_item / to_fieldset_entry (elements found by lookup)."""
    cls = Element
    raises = (ValidationError,)
    props = ('C23', 'C19', 'C22')
    kind = None

    def frame_of(self, it, a):
        return {'_' + self.kind: only('self')}

    def axioms(self, it, a):
        # an element that was converted fits its kind
        me = a['self'].t
        f, (cls, typ) = '_' + self.kind, INNER[self.kind]
        x = fref(it, me, '_instruction')
        c = Val.r(F(it, me, f))
        return [z3.Implies(it.p.has(f, me), z3.And(type_in(it, x, typ), F(it, c, '_instruction') == F(it, me, '_instruction'), F(it, c, '_context') == F(it, me, '_context')))]

    def post(self, it, a, out, pre):
        me = a['self'].t
        f, (cls, typ) = '_' + self.kind, INNER[self.kind]
        x, c = fref(it, me, '_instruction'), fref(it, me, '_context')
        with at_pre(it, pre):
            had, old = it.p.has(f, me), F(it, me, f)
        fits = type_in(it, x, typ)
        if out.kind == 'return':
            v = out.value
            if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (cls,)):
                return [('kind', FALSE)]
            return [('same-object', z3.Implies(had, Val.VRef(v.t) == old)), ('new-object', z3.Implies(z3.Not(had), v.t < 0)), ('kept', z3.And(it.p.has(f, me), F(it, me, f) == Val.VRef(v.t))),
                    ('fits', fits), ('element-instruction', F(it, v.t, '_instruction') == F(it, me, '_instruction')), ('element-context', F(it, v.t, '_context') == F(it, me, '_context'))]
        return [('incompatible', z3.And(z3.Not(had), z3.Not(fits)))] + error(it, out, ValidationError, *errs.unexpected_element_type(it, c, x, 'expected_' + self.kind, Val.VNone))


INNER = {'fieldset_entry': (FieldsetEntry, T.FIELDSET_ENTRY), 'list_item': (ListItem, T.LIST_ITEM)}


class Yields(Method):
    props = ('C23', 'C22')
    types = ()

    def post(self, it, a, out, pre):
        x = fref(it, a['self'].t, '_instruction')
        return [('exactly-compatible-kinds', it.truth(out.value) == type_in(it, x, *self.types) if out.kind == 'return' else FALSE)]


class Parent(Method):
    """parent(): the object it was obtained from; without one, an object for the parent instruction; the document has none."""
    props = ('C23', 'C22')
    of = None

    def post(self, it, a, out, pre):
        me = a['self'].t
        p, x = F(it, me, '_parent'), fref(it, me, '_instruction')
        if out.kind != 'return':
            return [('returns', FALSE)]
        doc = type_in(it, x, T.DOCUMENT)
        v = it.force(out.value)
        if isinstance(v, Const) and v.py is None:
            return [('only-the-document-has-none', doc)]
        if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (self.of,)):
            return [('kind', FALSE)]
        return [('not-the-document', z3.Not(doc)), ('the-object-it-was-obtained-from', z3.Implies(Val.is_VRef(p), Val.VRef(v.t) == p)),
                ('parent-instruction', z3.Implies(Val.is_VNone(p), z3.And(v.t < 0, F(it, v.t, '_instruction') == F(it, x, 'parent'), F(it, v.t, '_context') == F(it, me, '_context'))))]


class Touch(Method):
    name = 'touch'
    frame = {'_touched': only('self')}
    props = ('C15', 'C22')

    def post(self, it, a, out, pre):
        return [('returns-nothing', returned(it, out, Val.VNone))] + touched(it, a)


def contracts():
    out = []
    valued = (Field, FieldsetEntry, ListItem)
    for cls in (Section, Field, Fieldset, FieldsetEntry, List, ListItem, Empty, SectionElement, Element):
        opt = {'loader': FN}
        q = [(CommentQuery, '_comment', {'loader': TOpt(FN), 'required': TBool()}, None), (CommentQuery, 'optional_comment', opt, False), (CommentQuery, 'required_comment', opt, True),
             (CommentQuery, 'optional_string_comment', {}, False), (CommentQuery, 'required_string_comment', {}, True)]
        if cls in valued:
            q += [(ValueQuery, '_value', {'loader': TOpt(FN), 'required': TBool()}, None), (ValueQuery, 'optional_value', opt, False), (ValueQuery, 'required_value', opt, True),
                  (ValueQuery, 'optional_string_value', {}, False), (ValueQuery, 'required_string_value', {}, True)]
        for c, n, args, req in q:
            out.append(c(cls=cls, name=n, args=args, required=req))
        out.append(KeyQuery(cls=cls, name='key', args={'loader': FN}))
        out.append(PlainKey(cls=cls, name='string_key', frame={'_touched': only('self')}))
        out.append(PlainKey(cls=cls, name='_key', frame={}))
        makers = [('error', errs.element_error, lambda it, a, x: Val.VRef(a['self'].t)), ('key_error', errs.key_error, lambda it, a, x: key_of(it, x)),
                  ('comment_error', errs.comment_error, lambda it, a, x: COMMENT(x))]
        if cls in valued:
            makers.append(('value_error', errs.value_error, lambda it, a, x: VALUE(x)))
        for n, spec, subject in makers:
            for fn in (False, True):
                out.append(MakeError(cls=cls, name=n, args={'message': FN if fn else TAny()}, spec_fn=spec, subject=subject, callable_message=fn,
                                     label=None))
                c = out[-1]
                c.subject, c.label = subject, f'{cls.__name__}.{n}({"function" if fn else "text"})'
        if 'touch' not in cls.__dict__ and cls not in (SectionElement, Element):
            out.append(Touch(cls=cls))
        for n, inh in (('__init__', {Section: '_all_elements_required', Fieldset: '_all_entries_required'}.get(cls)),):
            parent = {FieldsetEntry: TOpt(TObj(Fieldset)), ListItem: TOpt(TObj(List))}.get(cls, TOpt(TObj(Section)))
            out.append(Init(cls=cls, args={'context': TObj(Context), 'instruction': INSTR, 'parent': parent}, inherits=inh))
        if cls not in (SectionElement, Element):
            out.append(Parent(cls=cls, name='parent', of={FieldsetEntry: Fieldset, ListItem: List}.get(cls, Section)))
    for cls in (SectionElement, Element):
        for k, (_, _, types) in KINDS.items():
            out.append(Convert(cls=cls, name='to_' + k, kind=k))
            out.append(Yields(cls=cls, name='yields_' + k, types=types))
    for k, (_, typ) in INNER.items():
        out.append(ConvertInner(name='to_' + k, kind=k))
        out.append(Yields(cls=Element, name='yields_' + k, types=(typ,)))
    return out
