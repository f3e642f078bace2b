"""Building blocks of the specifications."""
from .world import *  # noqa: F401,F403
from .world import MSG0, MSG1, MSG2, REP0, RSTEP, RSTEPS, SNIP, IKEY, type_in
from pyvc.contract import Contract, Out, At, only


def F(it, r, name):
    """Value of a field of an object (Val term)."""
    return it.p.val(name, r)


def fref(it, r, name):
    return z3.simplify(Val.r(F(it, r, name)))


def instr(it, o):
    """Instruction of an element object."""
    return fref(it, o.t, '_instruction')


def ctx(it, o):
    return fref(it, o.t, '_context')


def at_pre(it, heap):
    # an array nothing had read at entry is the initial one
    return At(it, {k: heap.get(k, H0(k)) for k in it.p.heap})


def span(it, r, name, pos):
    t = F(it, Val.r(F(it, r, 'ranges')), name)
    return Val.hi(t) if pos else Val.lo(t)


def log1(it, c, name, x):
    return RSTEP(REP0(c), z3.StringVal(name), Val.VRef(x))


def msg(name, *args):
    n = z3.StringVal(name)
    return MSG0(n) if not args else MSG1(n, *args) if len(args) == 1 else MSG2(n, *args)


def keyed_msg(name, key):
    """Text of a message that mentions the key if one was given (key: Val)."""
    return z3.If(Val.is_VNone(key), MSG0(z3.StringVal(name)), MSG1(z3.StringVal(name + '_with_key'), key))


def is_cursor(it, cur, place):
    """cur is the position `place` = (instruction, range, 0 begin | 1 end)."""
    x, rng, pos = place
    idx = span(it, x, rng, pos)
    c = cur.t
    return z3.And(it.p.val('index', c) == Val.VInt(idx), it.p.val('column', c) == Val.VInt(idx - span(it, x, 'line', 0)), it.p.val('line', c) == F(it, x, 'line'))


def sel_of(it, e):
    return it.getattr(e, 'selection')


def selection_is(it, e, cases):
    """cases: list of (condition, None for the document's beginning | (from place, to place))."""
    s = it.force(sel_of(it, e))
    out = []
    if isinstance(s, Const):
        ok = s.py == {'from': {'column': 0, 'index': 0, 'line': 0}, 'to': {'column': 0, 'index': 0, 'line': 0}}
        for c, places in cases:
            out.append(z3.Implies(c, z3.BoolVal(ok and places is None)))
    else:
        a, b = it.getitem(s, Const('from')), it.getitem(s, Const('to'))
        for c, places in cases:
            out.append(z3.Implies(c, FALSE if places is None else z3.And(is_cursor(it, a, places[0]), is_cursor(it, b, places[1]))))
    return z3.And(out)


def cursor_is_from(it, e):
    s = it.force(sel_of(it, e))
    c = it.getattr(e, 'cursor')
    f = it.getitem(s, Const('from'))
    return it.identical(c, f) if not (isinstance(c, Const) and isinstance(f, Const)) else z3.BoolVal(c.py is f.py)


def error(it, out, cls, text, log, cases):
    """Obligations: the outcome is exactly this error."""
    if out.kind != 'raise' or out.cls is not cls:
        return [('error', FALSE)]
    return error_object(it, out.value, text, log, cases)


def error_object(it, e, text, log, cases):
    sn = it.str_(it.getattr(e, 'snippet'))
    res = [('error-text', it.to_val(it.getattr(e, 'text')) == text),
           ('error-message', it.str_(it.getattr(e, 'message')) == z3.Concat(it.text(it.getattr(e, 'text')), z3.StringVal('\n\n'), sn)),
           ('error-cursor', cursor_is_from(it, e))]
    if log is not None:
        res.append(('error-snippet', sn == SNIP(log)))
    if cases is not None:
        res.append(('error-selection', selection_is(it, e, cases)))
    return res


def when(cond, items):
    """Obligations that hold under a condition."""
    return [(n, z3.Implies(cond, f)) for n, f in items]


def missing_cases(it, parent):
    doc = type_in(it, parent, T.DOCUMENT)
    return [(doc, None), (z3.Not(doc), ((parent, 'line', 1), (parent, 'line', 1)))]


def missing_error(it, out, c, key, parent, name):
    """ValidationError for an absent element `name` below the instruction `parent`."""
    return error(it, out, ValidationError, Val.VStr(keyed_msg(name, key)), log1(it, c, 'report_missing_element', parent), missing_cases(it, parent))


LAST = z3.Function('LAST', I, I)     # last instruction belonging to an element


def element_cases(it, x):
    doc = type_in(it, x, T.DOCUMENT)
    return [(doc, None), (z3.Not(doc), ((x, 'line', 0), (LAST(x), 'line', 1)))]


def returns(out):
    return out.kind == 'return'


def returned(it, out, term):
    return it.to_val(out.value) == term if out.kind == 'return' else FALSE


class Method(Contract):
    """Contract of a method; the class invariant of self is assumed and re-established."""
    cls = None
    name = None
    inline = True

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        owner = next((c for c in self.cls.__mro__ if self.name in c.__dict__), None)
        owner = owner or self.cls       # if it is gone, verify() says so
        self.target = f'{owner.__module__}:{owner.__qualname__}.{self.name}'
        self.args = {'self': TObj(self.cls), **self.args}
        self.label = f'{self.cls.__name__}.{self.name}'


def nth_lemma(it, t, k):
    """A theorem about sequences the solvers are slow to find: the k-th element of a + [x]."""
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.is_app_of(t.arg(t.num_args() - 1), z3.Z3_OP_SEQ_UNIT):
        x = t.arg(t.num_args() - 1).arg(0)
        a = t.arg(0) if t.num_args() == 2 else z3.Concat(*t.children()[:-1])
        n = z3.Length(a)
        it.p.assume(z3.And(z3.Implies(z3.And(k >= 0, k < n), t[k] == a[k]), z3.Implies(k == n, t[k] == x), z3.Length(t) == n + 1))


def nth_of_concat(it, a, b, k):
    """A theorem about sequences: the k-th element of a + b."""
    t = z3.Concat(a, b)
    n = z3.Length(a)
    it.p.assume(z3.And(z3.Implies(z3.And(k >= 0, k < n), t[k] == a[k]), z3.Implies(z3.And(k >= n, k < n + z3.Length(b)), t[k] == b[k - n]), z3.Length(t) == n + z3.Length(b)))
