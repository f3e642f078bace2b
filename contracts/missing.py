"""Missing-element proxies (C13)."""
from .lib import *  # noqa: F401,F403
from .lib import Method, Contract, F, fref, MISSING, M, T, TRUE, FALSE
from . import errs

OUT = z3.Function('OUTERMOST', I, I)         # outermost missing element of a chain of proxies
DEPTH = z3.Function('DEPTH', I, I)           # length of the chain
ABOUT = z3.Function('ABOUT', I, I)           # the missing element an error is about
NAMES = {M['field']: 'missing_field', M['fieldset']: 'missing_fieldset', M['list']: 'missing_list', M['section']: 'missing_section'}


def cls_in(r, *classes):
    return z3.Or([CLS(r) == const_id(c) for c in classes])


def chain(it, r):
    """Definition of OUT and DEPTH at r."""
    p = fref(it, r, '_parent')
    inner = cls_in(p, *MISSING)
    return [OUT(r) == z3.If(inner, OUT(p), r), DEPTH(r) >= 0, DEPTH(p) >= 0, z3.Implies(inner, DEPTH(p) < DEPTH(r))]


def about(it, out, m, cls=None):
    """The exception is the spec error about the missing element m (outermost: its parent exists)."""
    if out.kind != 'raise' or out.cls is not ValidationError:
        return [('raises-missing', FALSE)]
    if lit(out.value.t) is None:                       # raised by a callee: its contract says what it is about
        return [('raises-missing', ABOUT(out.value.t) == m)]
    parent = fref(it, m, '_parent')
    x, c = fref(it, parent, '_instruction'), fref(it, parent, '_context')
    res = []
    for k, name in list(NAMES.items()) + [(M['entry'], 'missing_fieldset_entry'), (M['empty'], 'missing_element'), (M['element'], 'missing_element')]:
        if cls is not None and k is not cls:
            continue
        t, log, cases = errs.missing_element(it, c, x, name, F(it, m, '_key'))
        res += when(TRUE if k is cls else CLS(m) == const_id(k), error_object(it, out.value, t, log, cases))
    return res + [('outermost', cls_in(parent, Section, Fieldset))]


class MissingError(Method):
    """_missing_error of a proxy: reports the outermost missing element."""
    name = '_missing_error'
    raises = (ValidationError,)
    inline = False
    props = ('C13',)

    def axioms(self, it, a):
        return chain(it, a['self'].t)

    def measure(self, it, a):
        return DEPTH(a['self'].t)

    def post(self, it, a, out, pre):
        m = OUT(a['self'].t)
        if out.kind == 'raise' and lit(out.value.t) is None and it.contract is not self:
            return [('about', ABOUT(out.value.t) == m)]
        if out.kind == 'raise' and lit(out.value.t) is None and it.depth == 0:
            return about(it, out, m)
        if out.kind == 'raise' and lit(out.value.t) is None:
            return [('about', ABOUT(out.value.t) == m)]
        if out.kind == 'return':
            return [('never-returns', FALSE)]
        return [('is-outermost', m == a['self'].t)] + about(it, out, a['self'].t, self.cls)


class Required(Method):
    """Required queries (and key access) on a proxy raise the error about the outermost missing element."""
    raises = (ValidationError,)
    props = ('C13',)

    def axioms(self, it, a):
        return chain(it, a['self'].t)

    def post(self, it, a, out, pre):
        if out.kind == 'raise' and lit(out.value.t) is not None:
            return [('is-outermost', OUT(a['self'].t) == a['self'].t)] + about(it, out, a['self'].t, self.cls)
        return about(it, out, OUT(a['self'].t))


class Nothing(Method):
    props = ('C13',)

    def post(self, it, a, out, pre):
        return [('returns-nothing', returned(it, out, Val.VNone))]


class Plural(Method):
    props = ('C13',)

    def post(self, it, a, out, pre):
        v = out.value if out.kind == 'return' else None
        ok = isinstance(v, Ref) and isinstance(v.typ, TList)
        return [('returns-empty-list', z3.And(v.t < 0, it.p.seq(v.t) == z3.Empty(SeqVal)) if ok else FALSE)]


class Yes(Method):
    props = ('C13',)

    def post(self, it, a, out, pre):
        return [('is-true', returned(it, out, Val.VBool(TRUE)))]


class Proxy(Method):
    """Plain queries return a further proxy below this one; conversions a proxy in its place."""
    props = ('C13',)
    made = None
    converts = False

    def post(self, it, a, out, pre):
        v = out.value if out.kind == 'return' else None
        if not (isinstance(v, Ref) and isinstance(v.typ, TObj) and v.typ.classes == (self.made,)):
            return [('returns-proxy', FALSE)]
        if self.converts:
            key, parent = F(it, a['self'].t, '_key'), F(it, a['self'].t, '_parent')
        else:
            key, parent = it.to_val(a['key']) if 'key' in a else Val.VNone, Val.VRef(a['self'].t)
        return [('new-proxy', v.t < 0), ('proxy-key', F(it, v.t, '_key') == key), ('proxy-parent', F(it, v.t, '_parent') == parent)]


def contracts():
    out = []
    loader = {'_loader': TFn()}
    base = {**{n: (Required, {}) for n in ('required_string_comment', 'string_key')},
            **{n: (Required, loader) for n in ('key', 'required_comment')},
            'optional_comment': (Nothing, loader), 'optional_string_comment': (Nothing, {}), 'raw': (Nothing, {})}
    valued = {'optional_string_value': (Nothing, {}), 'optional_value': (Nothing, loader), 'required_string_value': (Required, {}), 'required_value': (Required, loader)}
    key, _key = {'key': KEY}, {'_key': KEY}
    kinds = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
    sec = {}
    for k in kinds:
        sec[k] = (Proxy, key, dict(made=M[k]))
        sec['optional_' + k] = (Nothing, _key)
        sec['required_' + k] = (Required, _key)
        if k != 'empty':
            sec[k + 's'] = (Plural, _key)
    tables = {
        M['section']: sec,
        M['fieldset']: {'entries': (Plural, _key), 'entry': (Proxy, key, dict(made=M['entry'])), 'optional_entry': (Nothing, _key), 'required_entry': (Required, _key)},
        M['list']: {**{n: (Plural, {}) for n in ('items', 'optional_string_values', 'required_string_values')}, **{n: (Plural, loader) for n in ('optional_values', 'required_values')}},
        M['element']: {**{'to_' + k: (Proxy, {}, dict(made=M[k], converts=True)) for k in kinds[1:]}, **{'yields_' + k: (Yes, {}) for k in kinds[1:]}},
        M['field']: valued, M['entry']: valued, M['empty']: {},
    }
    for cls, table in tables.items():
        out.append(MissingError(cls=cls, args={'_element': TObj(*MISSING)}))
        for n, spec in {**base, **table}.items():
            out.append(spec[0](cls=cls, name=n, args=spec[1], **(spec[2] if len(spec) > 2 else {})))
    return out
