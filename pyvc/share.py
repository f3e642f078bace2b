"""What a process learned about the loops of a function, for the process that started it."""
import io
import pickle
import z3
from .terms import Val, const_id, const_obj, _consts, join_types
from . import core

ACCESSORS = {Val.accessor(i, j).name(): Val.accessor(i, j) for i in range(Val.num_constructors()) for j in range(Val.constructor(i).arity())}
SORTS = [z3.IntSort(), z3.BoolSort(), z3.StringSort(), Val, core.SeqVal, core.SeqS, *core.SORTS.values()]


class Lost(Exception):
    """Not something that can be handed over."""


def pack(t):
    if z3.is_int_value(t):
        return ('int', t.as_long())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        for k, s in enumerate(SORTS):
            if s == t.sort():
                return ('const', t.decl().name(), k)
        raise Lost()
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return ('neg', pack(t.arg(0)))
    if z3.is_app_of(t, z3.Z3_OP_SELECT):
        return ('select', pack(t.arg(0)), pack(t.arg(1)))
    if z3.is_app_of(t, z3.Z3_OP_DT_ACCESSOR) and t.decl().name() in ACCESSORS:
        return ('get', t.decl().name(), pack(t.arg(0)))
    raise Lost()


def unpack(t):
    if t[0] == 'int':
        return z3.IntVal(t[1])
    if t[0] == 'const':
        return z3.Const(t[1], SORTS[t[2]])
    if t[0] == 'neg':
        return -unpack(t[1])
    if t[0] == 'select':
        return z3.Select(unpack(t[1]), unpack(t[2]))
    return ACCESSORS[t[1]](unpack(t[2]))


class Pickler(pickle.Pickler):
    known = 0

    def persistent_id(self, x):
        if isinstance(x, z3.ExprRef):
            return ('term', pack(x))
        if isinstance(x, z3.AstRef):
            raise Lost()
        if type(x).__module__ != 'builtins' and id(x) in _consts:
            if _consts[id(x)] >= self.known:
                raise Lost()
            return ('constant', _consts[id(x)])
        if type(x) is object:
            raise Lost()
        return None


class Unpickler(pickle.Unpickler):
    def persistent_load(self, p):
        return unpack(p[1]) if p[0] == 'term' else const_obj(p[1])


PARTS = ('fields', 'types', 'varied', 'dead', 'bound', 'rebound', 'rebound_seen', 'acc_type', 'elems')


def dump(loops, known):
    """What is known about the loops; None if it cannot be handed over."""
    out = io.BytesIO()
    p = Pickler(out)
    p.known = known
    try:
        p.dump({k: {n: i.__dict__[n] for n in PARTS if n in i.__dict__} for k, i in loops.items()})
    except (Lost, pickle.PicklingError, TypeError, AttributeError):
        return None
    return out.getvalue()


def merge(loops, data, Info):
    for k, d in Unpickler(io.BytesIO(data)).load().items():
        i = loops.setdefault(k, Info())
        for key, refs in d['fields'].items():
            old = i.fields.get(key, set())
            if refs is None or old is None:
                i.fields[key] = None
            else:
                i.fields[key] = set(old) | {r for r in refs if not any(r.eq(o) for o in old)}
        for n, t in d['types'].items():
            i.types[n] = t if n not in i.types else i.types[n] if i.types[n] == t else join_types(i.types[n], t)
        for n, t in d.get('elems', {}).items():
            known = i.__dict__.setdefault('elems', {})
            known[n] = t if known.get(n) is None or known[n] == t else join_types(known[n], t)
        for n in ('varied', 'dead', 'bound', 'rebound', 'rebound_seen'):
            if n in d:
                i.__dict__.setdefault(n, set()).update(d[n])
        if 'acc_type' in d:
            old = i.__dict__.get('acc_type')
            i.acc_type = d['acc_type'] if old is None or d['acc_type'] is None else join_types(old, d['acc_type'])
