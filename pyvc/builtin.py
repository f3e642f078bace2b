"""Models of the builtins enolib uses."""
import builtins
import html
import math
import re
import z3
from .terms import *  # noqa: F401,F403
from .terms import V, Val, SeqVal, Const, SB, SI, SS, Tup, Ref, Dyn, Clo, Bound, Meth, GenV, IterV, Opaque, TAny, TNone, TBool, TInt, TStr, TSpan, TFn, TEnum, TList, TMap, TRec, TObj, TUnion, alts, join_types, subtype, Unsupported, const_id, TRUE, FALSE
from .core import CLS, I, B, S, PathEnd, PyExc, lit
from .interp import NONE, REP, JOIN, RJUST

UF_ESC = z3.Function('html_escape', S, S)
UF_REPL = z3.Function('replace', S, S, S, S)


def function(it, x, args, kw, node=None):
    name = getattr(x, '__name__', str(x))
    if x is len:
        v = it.force(args[0])
        if isinstance(v, Ref) and isinstance(v.typ, TList):
            return it.si(z3.Length(it.p.seq(v.t)))
        if isinstance(v, Ref) and isinstance(v.typ, TMap):
            return it.si(z3.Length(it.p.sel(it.p.arr('k'), v.t)))
        if it.is_str(v):
            return it.si(z3.Length(it.str_(v)))
        if isinstance(v, Tup):
            return Const(len(v.items))
        if isinstance(v, Opaque) and hasattr(it.w.opaque[v.kind], 'iterate'):
            return it.si(it.w.opaque[v.kind].iterate(it, v)[0])
        if isinstance(v, Const) and hasattr(v.py, '__len__'):
            return Const(len(v.py))
        raise it.type_error(f'len of {v!r}')
    if x is isinstance:
        return isinstance_(it, args[0], it.force(args[1]))
    if x is hasattr:
        o, n = it.force(args[0]), it.force(args[1])
        if not isinstance(n, Const):
            raise Unsupported('hasattr with computed name')
        if isinstance(o, Ref) and isinstance(o.typ, TObj):
            a, _ = it.class_attr(o.typ.classes[0], n.py)
            if a is not None:
                return Const(True)
            return it.sb(it.p.has(n.py, o.t))
        if isinstance(o, Const):
            return Const(hasattr(o.py, n.py))
        if isinstance(o, Opaque):
            return it.w.opaque[o.kind].hasattr(it, o, n.py)
        raise Unsupported('hasattr')
    if x is getattr:
        n = it.force(args[1])
        if isinstance(n, Const):
            if len(args) == 3:
                o = it.force(args[0])
                if isinstance(o, Ref) and isinstance(o.typ, TObj):
                    a, _ = it.class_attr(o.typ.classes[0], n.py)
                    if a is None and not it.p.decide(it.p.has(n.py, o.t)):
                        return args[2]
                return it.getattr(o, n.py)
            return it.getattr(args[0], n.py)
        o = it.force(args[0])
        if isinstance(o, Opaque):
            return it.w.opaque[o.kind].getattr(it, o, n)
        raise Unsupported('getattr with computed name')
    if x is setattr:
        n = it.force(args[1])
        o = it.force(args[0])
        if isinstance(o, Const) and isinstance(o.py, type):
            it.p.trace.append(('setattr', o.py, n, args[2]))
            return NONE
        if isinstance(n, Const):
            it.setattr(o, n.py, args[2])
            return NONE
        raise Unsupported('setattr with computed name')
    if x is callable:
        v = it.force(args[0])
        if isinstance(v, (Clo, Bound, Meth)):
            return Const(True)
        if isinstance(v, Const):
            return Const(callable(v.py))
        if isinstance(v, Dyn):
            if v.typ is not None and isinstance(v.typ, TFn):
                return Const(True)
            if v.typ is not None and all(isinstance(x, (TFn, TMap, TList, TRec, TStr, TInt, TNone, TBool)) for x in alts(v.typ)):
                return it.sb(Val.is_VConst(v.t))
            return it.sb(z3.Function('callable', Val, B)(v.t))
        if isinstance(v, Opaque):
            return it.w.opaque[v.kind].callable(it, v)
        return Const(False)
    if x is next:
        from . import loops
        return loops.next_of(it, args)
    if x in (all, any):
        from . import loops
        return loops.all_any(it, x, args[0])
    if x is enumerate:
        v = it.force(args[0])
        if isinstance(v, Opaque):
            return IterV('opaque_enumerate', None, None, v)
        s, t = it.seq_of(v)
        return IterV('enumerate', s, t, v)
    if x is reversed:
        v = it.force(args[0])
        if isinstance(v, IterV):
            raise Unsupported('reversed of a view')
        s, t = it.seq_of(v)
        return IterV('reversed', s, t, v)
    if x is range:
        a = [it.int_(y) for y in args]
        lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2:
            raise Unsupported('range with step')
        return IterV('range', None, TInt(), (lo, hi))
    if x in (min, max):
        if len(args) == 2:
            a, b = it.force(args[0]), it.force(args[1])
            inf = float('inf')
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Const) and p.py == inf:
                    return q if x is min else p
            i, j = it.int_(a), it.int_(b)
            return it.si(z3.If(i <= j, i, j) if x is min else z3.If(i >= j, i, j))
        raise Unsupported('min/max of a sequence')
    if x is re.compile:
        from . import regex
        return regex.compiled(it, args)
    if x is re.escape:
        from . import regex
        return it.ss(regex.RE_ESCAPE(it.str_(args[0])))
    if x is html.escape:
        return it.ss(UF_ESC(it.str_(args[0])))
    if x is iter:
        return args[0]
    if x is sorted:
        raise Unsupported('sorted')
    if x is repr:
        return it.ss(z3.Function('repr', Val, S)(it.to_val(args[0])))
    raise Unsupported(f'builtin {name}')


def isinstance_(it, v, c):
    v = it.force(v)
    classes = tuple(y.py for y in c.items) if isinstance(c, Tup) else (c.py,) if not isinstance(c.py, tuple) else c.py
    if isinstance(v, Ref) and isinstance(v.typ, TObj):
        return Const(issubclass(v.typ.classes[0], classes))
    if isinstance(v, Const):
        return Const(isinstance(v.py, classes))
    if isinstance(v, Ref):
        k = list if isinstance(v.typ, TList) else dict
        return Const(issubclass(k, classes))
    if it.is_str(v):
        return Const(issubclass(str, classes))
    if it.is_int(v):
        return Const(issubclass(int, classes))
    if isinstance(v, SB):
        return Const(issubclass(bool, classes))
    if isinstance(v, Tup):
        return Const(issubclass(tuple, classes))
    if isinstance(v, (Clo, Bound)):
        return Const(False)
    if isinstance(v, Dyn):
        return it.sb(z3.Function('isinstance', Val, I, B)(v.t, z3.IntVal(const_id(classes))))
    raise Unsupported(f'isinstance of {v!r}')


def construct(it, cls, args, kw):
    if cls is str:
        return it.ss(it.text(args[0])) if args else Const('')
    if cls is bool:
        return it.sb(it.truth(args[0]))
    if cls is list:
        if not args:
            return it.new_list([], None)
        v = it.force(args[0])
        if isinstance(v, IterV) and v.kind == 'keys' or isinstance(v, IterV):
            raise Unsupported('list of a view')
        s, t = it.seq_of(v)
        return it.list_of_seq(s, t)
    if cls is dict and not args and not kw:
        return Ref(it.p.alloc(dict), TMap(None))
    if cls is dict and not args:
        r = Ref(it.p.alloc(dict), it.w.literal_type(tuple(kw)) if it.w.literal_type else None)
        for k, v in kw.items():
            it.set_field(r, k, v)
        return r
    if cls is int:
        v = it.force(args[0])
        if it.is_int(v):
            return v
        if isinstance(v, SB):
            return it.si(z3.If(v.t, 1, 0))
        raise Unsupported('int()')
    if cls is enumerate or cls is reversed or cls is range:
        return function(it, cls, args, kw)
    if cls is tuple:
        raise Unsupported('tuple()')
    if cls is type:
        v = it.force(args[0])
        if isinstance(v, Ref):
            if isinstance(v.typ, TObj):
                return Const(v.typ.classes[0])
            return Const(list if isinstance(v.typ, TList) else dict)
        if isinstance(v, Const):
            return Const(type(v.py))
        if it.is_str(v):
            return Const(str)
        if it.is_int(v):
            return Const(int)
        if isinstance(v, Tup):
            return Const(tuple)
        if isinstance(v, SB):
            return Const(bool)
        raise Unsupported('type()')
    if issubclass(cls, BaseException):
        n = it.p.alloc(cls)
        it.p.ghost[('args', str(n))] = args
        return Ref(n, TObj(cls))
    raise Unsupported(f'construct {cls}')


def method(it, o, name, args, kw, node=None):
    p = it.p
    if isinstance(o, Const) and isinstance(o.py, dict):
        if name == 'get':
            k = it.force(args[0])
            d = args[1] if len(args) > 1 else NONE
            if isinstance(k, Const):
                return it.live(o.py[k.py]) if k.py in o.py else d
            for kk, vv in o.py.items():
                if p.decide(it.equal(k, Const(kk))):
                    return it.live(vv)
            return d
        raise Unsupported(f'dict.{name}')
    if it.is_str(o):
        return str_method(it, o, name, args, kw)
    if isinstance(o, Ref) and isinstance(o.typ, TList):
        if name == 'append':
            it.list_append(o, args[0])
            return NONE
        if name == 'extend':
            it.list_extend(o, args[0])
            return NONE
        if name == 'index':
            v = it.to_val(args[0])
            s = p.seq(o.t)
            k = z3.IndexOf(s, z3.Unit(v), z3.IntVal(0))
            if not p.decide(k >= 0):
                raise it.exc(ValueError)
            p.assume(z3.And(k < z3.Length(s), s[k] == v))
            return it.si(k)
        if name == 'pop' and not args:
            s = p.seq(o.t)
            n = z3.Length(s)
            if not p.decide(n > 0):
                raise it.exc(IndexError)
            v = it.elem(s, n - 1, o)
            p.put('s', '', o.t, z3.SubSeq(s, z3.IntVal(0), n - 1))
            return v
        if name == 'insert' and isinstance(it.force(args[0]), Const) and it.force(args[0]).py == 0:
            t = it.type_of(args[1])
            if o.typ.elem is None:
                o.typ.elem = t
            elif not subtype(t, o.typ.elem):
                raise Unsupported('insert type')
            p.put('s', '', o.t, z3.Concat(z3.Unit(it.to_val(args[1])), p.seq(o.t)))
            return NONE
        if name == 'copy':
            return it.list_of_seq(p.seq(o.t), o.typ.elem)
        raise Unsupported(f'list.{name}')
    if isinstance(o, Ref) and isinstance(o.typ, TMap):
        if name in ('items', 'values', 'keys'):
            return IterV('map_' + name, p.sel(p.arr('k'), o.t), o.typ.elem, o)
        if name == 'get' and not (o.typ.elem is None):
            k = it.str_(args[0])
            if p.decide(z3.Select(p.sel(p.arr('d'), o.t), k)):
                return it.getitem(o, args[0])
            return args[1] if len(args) > 1 else NONE
        if name == 'setdefault':
            k = it.str_(args[0])
            if not p.decide(z3.Select(p.sel(p.arr('d'), o.t), k)):
                it.map_set(o, k, args[1] if len(args) > 1 else NONE)
                return args[1] if len(args) > 1 else NONE
            return it.getitem(o, args[0])
        if o.typ.elem is not None:
            raise Unsupported(f'dict.{name}')
    if isinstance(o, Ref):
        if name == 'get':
            k = it.force(args[0])
            if isinstance(k, Const) and isinstance(k.py, str):
                if p.decide(p.has(k.py, o.t)):
                    return it.get_field(o, k.py)
                return args[1] if len(args) > 1 else NONE
        if name == 'setdefault':
            k = it.force(args[0])
            if isinstance(k, Const) and isinstance(k.py, str):
                if not p.decide(p.has(k.py, o.t)):
                    it.set_field(o, k.py, args[1] if len(args) > 1 else NONE)
                    return args[1] if len(args) > 1 else NONE
                return it.get_field(o, k.py)
        if name == 'pop' and args:
            k = it.force(args[0])
            if isinstance(k, Const) and isinstance(k.py, str):
                if p.decide(p.has(k.py, o.t)):
                    v = it.get_field(o, k.py)
                    p.put('h', k.py, o.t, FALSE)
                    return v
                if len(args) > 1:
                    return args[1]
                raise it.exc(KeyError, k.py)
        if name == 'items' and isinstance(o.typ, TRec):
            return IterV('record_items', None, None, o)
        raise Unsupported(f'dict.{name}')
    raise Unsupported(f'method {name} of {o!r}')


def str_method(it, o, name, args, kw):
    if isinstance(o, Const) and all(isinstance(a, Const) for a in args) and not kw:
        if name in ('rjust', 'replace', 'find', 'join', 'strip', 'startswith', 'endswith', 'lower', 'upper', 'format'):
            try:
                return it.live(getattr(o.py, name)(*[a.py for a in args]))
            except Exception as e:
                raise it.exc(type(e), str(e))
    s = it.str_(o)
    if name == 'find':
        sub = it.str_(args[0])
        lo = it.int_(args[1]) if len(args) > 1 else z3.IntVal(0)
        if it.w.lines and z3.is_string_value(sub) and sub.as_string() in ('\n', '\\u{a}'):
            from . import regex
            return it.si(regex.find_newline(it, s, lo, it.int_(args[2]) if len(args) > 2 else None))
        k = it.p.fresh('find', I)
        n = z3.Length(s)
        hi = it.int_(args[2]) if len(args) > 2 else n
        hi = z3.If(hi > n, n, hi)
        it.p.assume(z3.Or(k == -1, z3.And(k >= lo, k + z3.Length(sub) <= hi, z3.SubString(s, k, z3.Length(sub)) == sub)))
        j = z3.Int('j!find')
        it.p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j + z3.Length(sub) <= hi, z3.Or(k == -1, j < k)), z3.SubString(s, j, z3.Length(sub)) != sub)))
        return it.si(k)
    if name == 'rjust':
        r = RJUST(s, it.int_(args[0]))
        it.p.assume(z3.SuffixOf(s, r))
        return it.ss(r)
    if name == 'replace':
        return it.ss(UF_REPL(s, it.str_(args[0]), it.str_(args[1])))
    if name == 'join':
        q, t = it.seq_of(it.force(args[0]))
        j = JOIN(s, q)
        it.p.assume(z3.Implies(z3.Length(q) > 0, z3.Length(j) >= z3.Length(Val.s(q[0]))))
        return it.ss(j)
    if name == 'startswith':
        return it.sb(z3.PrefixOf(it.str_(args[0]), s))
    if name == 'endswith':
        return it.sb(z3.SuffixOf(it.str_(args[0]), s))
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'splitlines'):
        if name == 'splitlines' or args:
            raise Unsupported(f'str.{name}')
        return it.ss(z3.Function(f'str_{name}', S, S)(s))
    raise Unsupported(f'str.{name}')
