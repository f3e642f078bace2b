"""Value universe of the verifier: a z3 datatype for Python values, the executor's
value classes, and the annotation types that carry data-structure invariants."""
import z3

z3.set_param('model.compact', True)

_V = z3.Datatype('Val')
_V.declare('VNone')
_V.declare('VBool', ('b', z3.BoolSort()))
_V.declare('VInt', ('i', z3.IntSort()))
_V.declare('VStr', ('s', z3.StringSort()))
_V.declare('VRef', ('r', z3.IntSort()))
_V.declare('VPair', ('lo', z3.IntSort()), ('hi', z3.IntSort()))
_V.declare('VConst', ('c', z3.IntSort()))
_V.declare('VInf')
Val = _V.create()
SeqVal = z3.SeqSort(Val)
SeqStr = z3.SeqSort(z3.StringSort())
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

_consts, _const_objs = {}, []


def const_id(obj):
    """Interned identity of a live Python object (enum member, class, function...)."""
    k = id(obj)
    if k not in _consts:
        _consts[k] = len(_const_objs)
        _const_objs.append(obj)
    return _consts[k]


def const_obj(i):
    return _const_objs[i]


class Unsupported(Exception):
    """The construct is outside the subset the verifier translates."""


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('py',)

    def __init__(self, py):
        self.py = py

    def __repr__(self):
        return f'Const({self.py!r})'


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'Tup{self.items}'


class SB(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SB({self.t})'


class SI(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SI({self.t})'


class SS(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SS({self.t})'


class Ref(V):
    __slots__ = ('t', 'typ')

    def __init__(self, t, typ=None):
        self.t, self.typ = t, typ

    def __repr__(self):
        return f'Ref({self.t}:{self.typ})'


class Dyn(V):
    __slots__ = ('t', 'typ')

    def __init__(self, t, typ=None):
        self.t, self.typ = t, typ

    def __repr__(self):
        return f'Dyn({self.t}:{self.typ})'


class Clo(V):
    """A function of the verified source: AST plus its environment."""
    __slots__ = ('node', 'env', 'glob', 'name', 'defaults', 'kwdefaults', 'owner', 'qual')

    def __init__(self, node, env, glob, name, defaults=(), kwdefaults=None, owner=None, qual=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults, self.owner, self.qual = list(defaults), dict(kwdefaults or {}), owner, qual

    def __repr__(self):
        return f'Clo({self.name})'


class Star(V):
    """Arguments handed over as a whole: all further positional ones, or all further named ones (under '**')."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Bound(V):
    __slots__ = ('fn', 'recv')

    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv

    def __repr__(self):
        return f'Bound({self.fn},{self.recv})'


class Meth(V):
    """Builtin method of a builtin value: str.join, list.append, dict.get ..."""
    __slots__ = ('name', 'recv')

    def __init__(self, name, recv):
        self.name, self.recv = name, recv


class GenV(V):
    __slots__ = ('node', 'env')

    def __init__(self, node, env):
        self.node, self.env = node, env


class IterV(V):
    """A view to iterate over: seq (z3 Seq of Val), element annotation, wrapper kind."""
    __slots__ = ('kind', 'seq', 'typ', 'extra')

    def __init__(self, kind, seq, typ=None, extra=None):
        self.kind, self.seq, self.typ, self.extra = kind, seq, typ, extra


class SuperV(V):
    __slots__ = ('cls', 'recv')

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Opaque(V):
    """Value interpreted by a model hook (regex match, locale module, ...)."""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, **data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f'Opaque({self.kind})'


class UnboundV(V):
    __slots__ = ()


# ---------------------------------------------------------------- annotations
class T:
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return type(self).__name__ + (str(self.__dict__) if self.__dict__ else '')


class TAny(T): pass
class TNone(T): pass
class TBool(T): pass
class TInt(T): pass
class TStr(T): pass
class TSpan(T): pass
class TFn(T): pass


class TEnum(T):
    """One of the given live constants (compared by identity)."""
    def __init__(self, *members):
        self.members = members

    def __repr__(self):
        return f'TEnum({[getattr(m, "name", m) for m in self.members]})'


class TList(T):
    def __init__(self, elem):
        self.elem = elem


class TMap(T):
    """dict with dynamic string keys."""
    def __init__(self, elem):
        self.elem = elem


class TRec(T):
    """dict with constant keys described by a schema, by name."""
    def __init__(self, schema):
        self.schema = schema


class TObj(T):
    """instance of one of the named classes (qualified by module)."""
    def __init__(self, *classes):
        self.classes = tuple(classes)


class TUnion(T):
    def __init__(self, *ts):
        flat = []
        for t in ts:
            for u in (t.ts if isinstance(t, TUnion) else (t,)):
                if u not in flat:
                    flat.append(u)
        self.ts = tuple(flat)


def TOpt(t):
    return TUnion(TNone(), t)


def alts(t):
    return t.ts if isinstance(t, TUnion) else (t,)


def join_types(a, b):
    if a is None or b is None:
        return TAny()
    if a == b:
        return a
    if isinstance(a, TAny) or isinstance(b, TAny):
        return TAny()
    out = []
    for t in alts(a) + alts(b):
        if isinstance(t, TEnum):
            old = next((u for u in out if isinstance(u, TEnum)), None)
            if old is not None:
                out.remove(old)
                t = TEnum(*(old.members + tuple(m for m in t.members if m not in old.members)))
        if isinstance(t, TObj):
            old = next((u for u in out if isinstance(u, TObj)), None)
            if old is not None:
                out.remove(old)
                t = TObj(*(old.classes + tuple(m for m in t.classes if m not in old.classes)))
        if t not in out:
            out.append(t)
    return out[0] if len(out) == 1 else TUnion(*out)


def subtype(a, b):
    """Annotation a guarantees annotation b."""
    if isinstance(b, TAny):
        return True
    if a is None or isinstance(a, TAny):
        return False
    for x in alts(a):
        ok = False
        for y in alts(b):
            if x == y:
                ok = True
            elif isinstance(x, TEnum) and isinstance(y, TEnum):
                ok = all(m in y.members for m in x.members)
            elif isinstance(x, TObj) and isinstance(y, TObj):
                ok = all(c in y.classes for c in x.classes)
            elif isinstance(x, TList) and isinstance(y, TList):
                ok = subtype(x.elem, y.elem)
            elif isinstance(x, TMap) and isinstance(y, TMap):
                ok = subtype(x.elem, y.elem)
            elif isinstance(x, TRec) and isinstance(y, TRec):
                ok = SUBSCHEMA.get(x.schema, ()) and y.schema in SUBSCHEMA[x.schema]
            if ok:
                break
        if not ok:
            return False
    return True


SUBSCHEMA = {}   # schema -> set of schemas it guarantees (filled by contracts)
