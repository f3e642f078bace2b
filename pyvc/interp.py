"""Symbolic execution of the Python subset enolib is written in."""
import ast
import re
import builtins
import types
import z3
from . import source
from .terms import *  # noqa: F401,F403
from .terms import (Star, V, Val, SeqVal, SeqStr, Const, SB, SI, SS, Tup, Ref, Dyn, Clo, Bound, Meth, GenV, IterV, SuperV, Opaque, UnboundV,
                    TAny, TNone, TBool, TInt, TStr, TSpan, TFn, TEnum, TList, TMap, TRec, TObj, TUnion, TOpt, alts, join_types, subtype,
                    Unsupported, const_id, const_obj, TRUE, FALSE)
from .core import CLS, REGION, I, B, S, PathEnd, Restart, PyExc, H0, lit


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


NONE = Const(None)
INT_STR = z3.Function('int_str', I, S)
VAL_STR = z3.Function('val_str', Val, S)
REP = z3.Function('repeat', S, I, S)
JOIN = z3.Function('join', S, SeqVal, S)
RJUST = z3.Function('rjust', S, I, S)
TRUTH = z3.Function('truth', Val, B)


def truthy(t):
    """The truth of a value of any type."""
    return z3.If(Val.is_VNone(t), FALSE, z3.If(Val.is_VBool(t), Val.b(t), z3.If(Val.is_VStr(t), z3.Length(Val.s(t)) > 0, z3.If(Val.is_VInt(t), Val.i(t) != 0, TRUTH(t)))))


class Schema:
    """Constant-key dict or class instance: field -> type; inv(path, ref) gives assumed facts."""

    def __init__(self, name, fields, inv=None, ordered=None):
        self.name, self.fields, self.inv = name, fields, inv


class World:
    opaque = property(lambda self: self._opaque, lambda self, m: self._opaque.update(m))

    """Everything the executor needs to know about the program: schemas, contracts, models."""

    def __init__(self):
        self.schemas = {}       # name -> Schema (records)
        self.classes = {}       # live class -> Schema (instances)
        self.contracts = {}     # qualname -> Contract
        self.models = {}        # qualname / live object id -> model function
        from . import regex
        self._opaque = dict(regex.MODELS)        # Opaque kind -> model object
        self.literal_type = None   # (keys) -> type for dict literals
        self.lines = False         # reason about line breaks by EOL and LINES rather than in the theory of strings
        self.by_class = {}      # (qualname, class of self) -> Contract
        self.inline_ok = lambda q: q.startswith('enolib.')


    def contract_for(self, q, args):
        if args and isinstance(args[0], Ref) and isinstance(args[0].typ, TObj) and len(args[0].typ.classes) == 1:
            c = self.by_class.get((q, args[0].typ.classes[0]))
            if c is not None:
                return c
        return self.contracts.get(q)

    def register(self, c):
        if c.inline:
            return
        t = c.args.get('self')
        if isinstance(t, TObj) and len(t.classes) == 1:
            self.by_class[(c.key(), t.classes[0])] = c
        else:
            self.contracts[c.key()] = c


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'cell_names')

    def __init__(self, glob, parent=None):
        self.vars, self.parent, self.glob = {}, parent, glob


class Interp:
    def __init__(self, path, world):
        self.p, self.w = path, world
        self.depth = 0
        self.contract = None        # the contract under verification
        self.stack = []

    # ================================================================ conversions
    def to_val(self, v):
        if isinstance(v, Const):
            x = v.py
            if x is None:
                return Val.VNone
            if x is True or x is False:
                return Val.VBool(z3.BoolVal(x))
            if isinstance(x, int):
                return Val.VInt(z3.IntVal(x))
            if isinstance(x, str) :
                return Val.VStr(z3.StringVal(x))
            if isinstance(x, float) and x == float('inf'):
                return Val.VInf
            return Val.VConst(z3.IntVal(const_id(x)))
        if isinstance(v, SB):
            return Val.VBool(v.t)
        if isinstance(v, SI):
            return Val.VInt(v.t)
        if isinstance(v, SS):
            return Val.VStr(v.t)
        if isinstance(v, Ref):
            return Val.VRef(v.t)
        if isinstance(v, Dyn):
            return v.t
        if isinstance(v, Tup):
            if len(v.items) == 2:
                a, b = (self.force(x) for x in v.items)
                if self.is_int(a) and self.is_int(b):
                    return Val.VPair(self.int_(a), self.int_(b))
            return Val.VRef(self.new_list([self.to_val(x) for x in v.items], None).t)
        if isinstance(v, (Clo, Bound, Opaque, Meth)):
            key = getattr(v, '_id', None)
            return Val.VConst(z3.IntVal(const_id(v)))
        raise Unsupported(f'value {v!r} cannot be stored')

    def type_of(self, v):
        if isinstance(v, Const):
            x = v.py
            if x is None:
                return TNone()
            if isinstance(x, bool):
                return TBool()
            if isinstance(x, int):
                return TInt()
            if isinstance(x, str):
                return TStr()
            return TEnum(x)
        if isinstance(v, SB):
            return TBool()
        if isinstance(v, SI):
            return TInt()
        if isinstance(v, SS):
            return TStr()
        if isinstance(v, (Ref, Dyn)):
            return v.typ or TAny()
        if isinstance(v, Tup):
            if len(v.items) == 2 and all(isinstance(self.type_of(x), TInt) for x in v.items):
                return TSpan()
            return TAny()
        if isinstance(v, (Clo, Bound)):
            return TFn()
        return TAny()

    def of_val(self, t, typ):
        """Executor value of a Val term annotated with typ (tag facts must already hold)."""
        t = z3.simplify(t) if not z3.is_const(t) else t
        if z3.is_app(t):
            d = t.decl()
            n = d.name()
            if n == 'VNone':
                return NONE
            if n == 'VBool':
                return self.sb(t.arg(0))
            if n == 'VInt':
                return self.si(t.arg(0))
            if n == 'VStr':
                return self.ss(t.arg(0))
            if n == 'VRef':
                a = alts(typ) if typ else ()
                r = [x for x in a if isinstance(x, (TObj, TRec, TList, TMap))]
                return Ref(t.arg(0), r[0] if len(r) == 1 else None if not r else TUnion(*r))
            if n == 'VPair':
                return Tup([self.si(t.arg(0)), self.si(t.arg(1))])
            if n == 'VConst' and z3.is_int_value(t.arg(0)):
                o = const_obj(t.arg(0).as_long())
                return o if isinstance(o, V) else Const(o)
            if n == 'VInf':
                return Const(float('inf'))
        if typ is not None:
            a = alts(typ)
            if len(a) == 1:
                x = a[0]
                if isinstance(x, TNone):
                    return NONE
                if isinstance(x, TBool):
                    return self.sb(Val.b(t))
                if isinstance(x, TInt):
                    return self.si(Val.i(t))
                if isinstance(x, TStr):
                    return self.ss(Val.s(t))
                if isinstance(x, TSpan):
                    return Tup([self.si(Val.lo(t)), self.si(Val.hi(t))])
                if isinstance(x, (TRec, TList, TMap)) or isinstance(x, TObj) and len(x.classes) == 1:
                    return Ref(Val.r(t), x)
                if isinstance(x, TEnum) and len(x.members) == 1:
                    m = x.members[0]
                    return m if isinstance(m, V) else Const(m)
        return Dyn(t, typ)

    def tag_fact(self, t, typ):
        """t has one of the tags of typ (and refers to objects of the heap as entered)."""
        out = []
        for x in alts(typ):
            if isinstance(x, TAny):
                return TRUE
            if isinstance(x, TNone):
                out.append(Val.is_VNone(t))
            elif isinstance(x, TBool):
                out.append(Val.is_VBool(t))
            elif isinstance(x, TInt):
                out.append(Val.is_VInt(t))
            elif isinstance(x, TStr):
                out.append(Val.is_VStr(t))
            elif isinstance(x, TSpan):
                out.append(z3.And(Val.is_VPair(t)))
            elif isinstance(x, TEnum):
                out.append(z3.Or([t == self.to_val(m if isinstance(m, V) else Const(m)) for m in x.members]))
            elif isinstance(x, TFn):
                out.append(z3.And(Val.is_VConst(t), Val.c(t) < 0))
            elif isinstance(x, TObj):
                out.append(z3.And(Val.is_VRef(t), z3.Or([CLS(Val.r(t)) == const_id(c) for c in x.classes])))
            elif isinstance(x, (TRec, TList, TMap)):
                out.append(Val.is_VRef(t))
            else:
                raise Unsupported(f'type {x}')
        return z3.Or(out) if len(out) != 1 else out[0]

    def typed(self, t, typ, old=False):
        """Assume t is a value of typ; facts of its schema are assumed with it."""
        if typ is None:
            return Dyn(t, TAny())
        self.p.assume(self.tag_fact(t, typ))
        v = self.of_val(t, typ)
        if isinstance(v, Ref):
            self.touch(v, old)
        return v

    def touch(self, v, old=False):
        """Assume the invariants of a heap object that is reached for the first time."""
        key = ('touched', v.t.get_id(), str(v.typ), self.p.epoch)
        if key in self.p.ghost:
            return
        self.p.ghost[key] = v.t
        n = lit(v.t)
        if n is not None and n < 0:
            return
        if old:
            self.p.old(v.t)
        self.p.age(v.t)
        if isinstance(v.typ, TRec):
            sch = self.w.schemas[v.typ.schema]
            if sch.inv:
                for f in sch.inv(self, v.t):
                    self.p.assume(f)
        elif isinstance(v.typ, TObj) and len(v.typ.classes) == 1:
            sch = self.w.classes.get(v.typ.classes[0])
            if sch and sch.inv:
                for f in sch.inv(self, v.t):
                    self.p.assume(f)

    def sb(self, t):
        t = z3.simplify(t)
        return Const(True) if z3.is_true(t) else Const(False) if z3.is_false(t) else SB(t)

    def si(self, t):
        t = z3.simplify(t)
        n = lit(t)
        return Const(n) if n is not None else SI(t)

    def ss(self, t):
        t = z3.simplify(t)
        return Const(t.as_string()) if z3.is_string_value(t) and '\\u{' not in t.as_string() else SS(t)

    def force(self, v):
        """Resolve a value of several possible tags by splitting the path."""
        if not isinstance(v, Dyn):
            if isinstance(v, Ref) and isinstance(v.typ, (TUnion, TObj)):
                return self.force_ref(v)
            return v
        t, typ = v.t, v.typ
        a = alts(typ) if typ is not None else (TAny(),)
        for x in a:
            if isinstance(x, TAny):
                return v
        if all(isinstance(x, TEnum) for x in a):
            return v
        a = sorted(a, key=lambda x: isinstance(x, TEnum))
        for k, x in enumerate(a):
            if k == len(a) - 1:
                self.p.assume(self.tag_fact(t, x))
                return self.settle(t, x)
            if self.p.decide(self.tag_fact(t, x)):
                return self.settle(t, x)
        raise PathEnd()

    def settle(self, t, x):
        if isinstance(x, TObj) and len(x.classes) > 1:
            for c in x.classes[:-1]:
                if self.p.decide(CLS(Val.r(t)) == const_id(c)):
                    return self.settle(t, TObj(c))
            return self.settle(t, TObj(x.classes[-1]))
        v = self.of_val(t, x)
        if isinstance(v, Ref):
            self.touch(v)
        return v

    def force_ref(self, v):
        if isinstance(v.typ, TObj) and len(v.typ.classes) == 1:
            return v
        if isinstance(v.typ, TObj):
            return self.settle(Val.VRef(v.t), v.typ)
        return self.force(Dyn(Val.VRef(v.t), v.typ))

    def is_int(self, v):
        return isinstance(v, SI) or isinstance(v, Const) and isinstance(v.py, int) and not isinstance(v.py, bool)

    def is_str(self, v):
        return isinstance(v, SS) or isinstance(v, Const) and isinstance(v.py, str)

    def int_(self, v):
        v = self.force(v)
        if isinstance(v, Const) and isinstance(v.py, int):
            return z3.IntVal(int(v.py))
        if isinstance(v, SI):
            return v.t
        raise self.type_error(f'int expected, got {v!r}')

    def str_(self, v):
        v = self.force(v)
        if isinstance(v, Const) and isinstance(v.py, str):
            return z3.StringVal(v.py)
        if isinstance(v, SS):
            return v.t
        raise self.type_error(f'str expected, got {v!r}')

    def type_error(self, why=''):
        return self.exc(TypeError, why)

    def exc(self, cls, why=''):
        n = self.p.alloc(cls)
        self.p.ghost[('why', n.as_long() if z3.is_int_value(n) else str(n))] = why
        return PyExc(cls, Ref(n, TObj(cls)), [Const(str(why))])

    # ================================================================ objects
    def new_list(self, vals, elem):
        n = self.p.alloc(list)
        s = z3.Empty(SeqVal)
        if vals:
            s = z3.Concat(*[z3.Unit(x) for x in vals]) if len(vals) > 1 else z3.Unit(vals[0])
        self.p.put('s', '', n, s)
        return Ref(n, TList(elem) if elem is not None else TList(None))

    def list_of_seq(self, seq, elem):
        n = self.p.alloc(list)
        self.p.put('s', '', n, seq)
        return Ref(n, TList(elem))

    def schema_of(self, ref):
        if isinstance(ref.typ, TRec):
            return self.w.schemas.get(ref.typ.schema)
        if isinstance(ref.typ, TObj) and len(ref.typ.classes) == 1:
            for c in ref.typ.classes[0].__mro__:
                if c in self.w.classes:
                    return self.w.classes[c]
        return None

    def field_type(self, ref, name):
        sch = self.schema_of(ref)
        if sch is not None and name in sch.fields:
            return sch.fields[name]
        n = lit(ref.t)
        if n is not None:
            return self.p.static.get((n, name))
        return None

    def get_field(self, ref, name):
        t = self.p.val(name, ref.t)
        typ = self.field_type(ref, name)
        if typ is None:
            return self.of_val(t, TAny()) if not z3.is_const(t) else Dyn(t, TAny())
        return self.typed(t, typ, self.entry_value(t))

    def entry_value(self, t):
        """t was read from an object of the heap as entered, which refers to nothing newer."""
        if not z3.is_app_of(t, z3.Z3_OP_SELECT):
            return False
        a, r = t.arg(0), t.arg(1)
        return z3.is_const(a) and a.decl().name()[:3] in ('v0_', 's0_', 'm0_') and r.get_id() in self.p.nonneg

    def set_field(self, ref, name, v):
        typ = self.field_type(ref, name)
        sch = self.schema_of(ref)
        vt = self.type_of(v)
        if sch is not None and name in sch.fields:
            if not subtype(vt, sch.fields[name]):
                v = self.retype(v, sch.fields[name], f'{sch.name}.{name}')
        else:
            n = lit(ref.t)
            if n is not None and n < 0:
                self.p.static[(n, name)] = vt if typ is None else join_types(typ, vt)
            elif isinstance(ref.typ, (TObj, TRec)):
                # a field the schema does not know: keep it, untyped
                pass
        self.p.put('h', name, ref.t, TRUE)
        self.p.put('v', name, ref.t, self.to_val(v))

    def retype(self, v, typ, where):
        """A value flows into a typed place: its tags must fit (a well-typedness obligation)."""
        if isinstance(v, Ref):
            for x in alts(typ):
                if isinstance(x, TList) and isinstance(v.typ, TList) and v.typ.elem is None:
                    v.typ = x
                    return v
                if isinstance(x, TMap) and isinstance(v.typ, TMap) and v.typ.elem is None:
                    v.typ = x
                    return v
                if isinstance(x, TRec) and v.typ is None:
                    v.typ = x
                    return v
        vt = self.type_of(v)
        if isinstance(vt, TAny) or isinstance(v, Dyn):
            t = self.to_val(v)
            if not any(isinstance(x, (TList, TMap, TRec)) for x in alts(typ)) or isinstance(v, Dyn) and subtype(join_types(vt, typ), typ):
                self.p.prove(f'type({where})', self.tag_fact(t, typ))
                return self.of_val(t, typ)
        if isinstance(v, Dyn) and isinstance(vt, TUnion) and all(subtype(x, typ) for x in alts(vt) if isinstance(x, (TObj, TRec, TList, TMap))):
            # what is a reference here is one of the place's type
            self.p.prove(f'type({where})', self.tag_fact(v.t, typ))
            return self.of_val(v.t, typ)
        for x in alts(typ):
            if isinstance(x, TMap) and isinstance(vt, TMap) and vt.elem is None or isinstance(x, TList) and isinstance(vt, TList) and vt.elem is None:
                return v
        raise Unsupported(f'{where}: {vt} does not fit {typ}')

    # ================================================================ truth and equality
    def truth(self, v):
        if isinstance(v, Const):
            return z3.BoolVal(bool(v.py))
        if isinstance(v, SB):
            return v.t
        if isinstance(v, SI):
            return v.t != 0
        if isinstance(v, SS):
            return z3.Length(v.t) > 0
        if isinstance(v, Tup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (Clo, Bound, Opaque, Meth)):
            return TRUE
        if isinstance(v, Ref):
            if isinstance(v.typ, TList):
                return z3.Length(self.p.seq(v.t)) > 0
            if isinstance(v.typ, TMap):
                return z3.Length(self.p.sel(self.p.arr('k'), v.t)) > 0
            if isinstance(v.typ, (TObj, TRec)):
                return TRUE
            return self.truth_forced(v)
        if isinstance(v, Dyn):
            a = alts(v.typ or TAny())
            if any(isinstance(x, TAny) for x in a):
                return truthy(v.t)
            if all(isinstance(x, (TNone, TBool, TInt, TStr, TObj, TRec, TFn, TEnum, TSpan)) for x in a):
                out = TRUE
                for x in a:
                    if isinstance(x, TNone):
                        out = z3.If(Val.is_VNone(v.t), FALSE, out)
                    elif isinstance(x, TBool):
                        out = z3.If(Val.is_VBool(v.t), Val.b(v.t), out)
                    elif isinstance(x, TInt):
                        out = z3.If(Val.is_VInt(v.t), Val.i(v.t) != 0, out)
                    elif isinstance(x, TStr):
                        out = z3.If(Val.is_VStr(v.t), z3.Length(Val.s(v.t)) > 0, out)
                    elif isinstance(x, TEnum):
                        for m in x.members:
                            if not isinstance(m, V) and not m:
                                out = z3.If(v.t == self.to_val(Const(m)), FALSE, out)
                return out
            return self.truth_forced(v)
        raise Unsupported(f'truth of {v!r}')

    def repeat(self, s, n):
        """s * n, with what is known about the length of the result."""
        t = REP(s, n)
        self.p.assume(z3.And(z3.Implies(n <= 0, t == z3.StringVal('')), z3.Implies(n > 0, z3.Length(t) == n * z3.Length(s)), z3.Implies(n == 1, t == s)))
        return t

    def truth_forced(self, v):
        w = self.force(v)
        if isinstance(w, (Dyn,)) or w is v:
            raise Unsupported(f'truth of {v!r}')
        return self.truth(w)

    def cond(self, v):
        return self.p.decide(self.truth(v))

    def identical(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            return z3.BoolVal(a.py is b.py or (isinstance(a.py, (int, str)) and type(a.py) is type(b.py) and a.py == b.py))
        if isinstance(a, (Clo, Bound, Opaque)) or isinstance(b, (Clo, Bound, Opaque)):
            return z3.BoolVal(a is b)
        return self.to_val(a) == self.to_val(b)

    def equal(self, a, b):
        a, b = self.lazy(a), self.lazy(b)
        if isinstance(a, Const) and isinstance(b, Const):
            return z3.BoolVal(a.py == b.py)
        if isinstance(a, Ref) and isinstance(b, Ref) and (isinstance(a.typ, TList) or isinstance(b.typ, TList)):
            if lit(a.t) is not None and lit(b.t) is not None and lit(a.t) == lit(b.t):
                return TRUE
            raise Unsupported('list equality')
        if isinstance(a, (Ref, Dyn)) and isinstance(b, (Ref, Dyn)):
            ta, tb = self.type_of(a), self.type_of(b)
            if any(isinstance(x, (TRec, TMap)) for x in alts(ta) + alts(tb)):
                # dict equality: identical dicts are equal; distinct instructions differ (they have different line ranges)
                self.p.session.assumed.add('dict equality of instructions taken as identity (distinct instructions differ in their line ranges)')
        return self.to_val(a) == self.to_val(b)

    def lazy(self, v):
        return v

    # ================================================================ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, UnboundV):
                    raise self.exc(UnboundLocalError, name)
                return v
            e = e.parent
        g = env.glob
        if name in g:
            return self.live(g[name])
        if hasattr(builtins, name):
            return Const(getattr(builtins, name))
        raise self.exc(NameError, name)

    def live(self, x):
        if isinstance(x, V):
            return x
        return Const(x)

    # ================================================================ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            e = env
            while e is not None and '.yield' not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('yield')
            acc = e.vars['.yield']
            if isinstance(s.value, ast.YieldFrom):
                self.list_extend(acc, self.ev(s.value.value, env))
            else:
                self.list_append(acc, self.ev(s.value.value, env) if s.value.value is not None else NONE)
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.assign(t, self.aug(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.aug(s.op, old, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, a, b):
        a = self.force(a)
        if isinstance(a, Ref) and isinstance(a.typ, TList) and isinstance(op, ast.Add):
            self.list_extend(a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if not isinstance(v, Tup) or len(v.items) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, v.items):
                self.assign(x, y, env)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars[t.id] = UnboundV()
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, env))
                self.delfield(o, t.attr, AttributeError)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, env))
                k = self.force(self.ev(t.slice, env))
                if isinstance(k, Const) and isinstance(k.py, str) and isinstance(o, Ref) and not isinstance(o.typ, (TMap, TList)):
                    self.delfield(o, k.py, KeyError)
                else:
                    raise Unsupported('del item')
            else:
                raise Unsupported('del')

    def delfield(self, o, name, err):
        if not isinstance(o, Ref):
            raise Unsupported('del on ' + repr(o))
        if not self.p.decide(self.p.has(name, o.t)):
            raise self.exc(err, name)
        self.p.put('h', name, o.t, FALSE)

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else NONE)

    def s_If(self, s, env):
        if self.merged(s.test, env) if getattr(self.contract, 'merge_tests', False) else self.cond(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def merged(self, test, env):
        """A condition without calls, as one formula rather than one path per way of reaching its value."""
        if not isinstance(test, ast.BoolOp) or any(isinstance(x, ast.Call) for x in ast.walk(test)):
            return self.cond(self.ev(test, env))
        from .loops import pure_formula, formula
        try:
            cases = pure_formula(self, lambda: self.truth(self.ev(test, env)), 'condition')
        except (Unsupported, PyExc):
            return self.cond(self.ev(test, env))
        return self.p.decide(formula(cases, lambda v: v))

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_FunctionDef(self, s, env):
        if s.decorator_list or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
            raise Unsupported('nested function with decorators or yield')
        env.vars[s.name] = self.closure(s, env, s.name)

    def closure(self, node, env, name):
        a = node.args
        return Clo(node, env, env.glob, name, [self.ev(d, env) for d in a.defaults],
                   {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            env.vars[a.asname or a.name.split('.')[0]] = Const(mod if a.asname else importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        import importlib
        mod = importlib.import_module('.' * s.level + (s.module or ''), env.glob.get('__package__'))
        for a in s.names:
            x = getattr(mod, a.name, None)
            if x is None:
                x = importlib.import_module(mod.__name__ + '.' + a.name)
            env.vars[a.asname or a.name] = Const(x)

    def s_Assert(self, s, env):
        if not self.cond(self.ev(s.test, env)):
            raise self.exc(AssertionError)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported('bare raise')
        v = self.force(self.ev(s.exc, env))
        if isinstance(v, Const) and isinstance(v.py, type):
            v = self.call(v, [], {})
        if isinstance(v, Ref) and isinstance(v.typ, TObj):
            v = self.force_ref(v)
            raise PyExc(v.typ.classes[0], v, self.p.ghost.get(('args', str(v.t)), []))
        raise self.type_error('exceptions must derive from BaseException')

    def s_Try(self, s, env):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                classes = (BaseException,)
                if h.type is not None:
                    c = self.force(self.ev(h.type, env))
                    classes = tuple(x.py for x in c.items) if isinstance(c, Tup) else (c.py,)
                if self.catches(e, classes):
                    if h.name:
                        env.vars[h.name] = e.ref
                    self.block(h.body, env)
                    if h.name:
                        env.vars[h.name] = UnboundV()
                    return
            raise
        else:
            self.block(s.orelse, env)

    def catches(self, e, classes):
        if issubclass(e.cls, classes):
            return True
        # an exception of unknown code may be of any subclass, but of no class its contract excludes
        if getattr(e.cls, 'unknown', False) or ('raised-unknown', str(e.ref.t)) in self.p.ghost:
            bound = next((c for c in e.cls.__mro__ if not getattr(c, 'unknown', False)), Exception)
            others = [c for c in classes if isinstance(c, type) and issubclass(c, bound) and not issubclass(c, getattr(e.cls, 'excludes', ()))]
            if others:
                k = ('is-a', str(e.ref.t), tuple(c.__name__ for c in others))
                if k not in self.p.ghost:
                    self.p.ghost[k] = self.p.choose(2) == 0
                return self.p.ghost[k]
        return False

    # loops live in loops.py
    def s_For(self, s, env):
        from . import loops
        loops.for_loop(self, s, env)

    def s_While(self, s, env):
        from . import loops
        loops.while_loop(self, s, env)

    # ================================================================ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {getattr(e, "lineno", "?")}')
        return m(e, env)

    def e_Constant(self, e, env):
        return Const(e.value)

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                raise Unsupported('slice step')
            lo = self.ev(e.slice.lower, env) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper, env) if e.slice.upper is not None else NONE
            return self.slice(o, lo, hi)
        return self.getitem(o, self.ev(e.slice, env))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.cond(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        # pure operands are combined into one formula, others split the path
        last = None
        for k, x in enumerate(e.values):
            last = self.ev(x, env)
            if k == len(e.values) - 1:
                return last
            if isinstance(e.op, ast.And):
                if not self.cond(last):
                    return last
            elif self.cond(last):
                return last
        return last

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.sb(z3.Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return self.si(-self.int_(v))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if self.is_str(a) and self.is_str(b):
                return self.ss(z3.Concat(self.str_(a), self.str_(b)))
            if self.is_int(a) and self.is_int(b):
                return self.si(self.int_(a) + self.int_(b))
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(a.typ, TList) and isinstance(b.typ, TList):
                el = self.join_elem(a, b)
                return self.list_of_seq(z3.Concat(self.p.seq(a.t), self.p.seq(b.t)), el)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            raise self.type_error(f'+ of {a!r} and {b!r}')
        if isinstance(op, ast.Sub):
            if self.is_int(a) and self.is_int(b):
                return self.si(self.int_(a) - self.int_(b))
            raise self.type_error('-')
        if isinstance(op, ast.Mult):
            if self.is_int(a) and self.is_int(b):
                return self.si(self.int_(a) * self.int_(b))
            if self.is_str(a) and self.is_int(b):
                return self.ss(self.repeat(self.str_(a), self.int_(b)))
            if self.is_int(a) and self.is_str(b):
                return self.ss(self.repeat(self.str_(b), self.int_(a)))
            if isinstance(a, Ref) and isinstance(a.typ, TList) and self.is_int(b):
                return self.repeat_list(a, b)
            raise self.type_error('*')
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and self.is_int(a) and self.is_int(b) and isinstance(b, Const) and b.py > 0:
            return self.si(self.int_(a) / self.int_(b) if isinstance(op, ast.FloorDiv) else self.int_(a) % self.int_(b))
        if isinstance(op, ast.Mod) and self.is_str(a):
            raise Unsupported('% formatting')
        raise Unsupported(f'operator {type(op).__name__}')

    def repeat_list(self, a, b):
        s = z3.simplify(self.p.seq(a.t))
        n = self.int_(b)
        out = self.p.fresh('rep', SeqVal)
        if self.p.implied(z3.Length(s) == 1):
            k = z3.Int('k!rep')
            x = z3.simplify(s[0])
            self.p.assume(z3.Length(out) == z3.If(n > 0, n, 0))
            self.p.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), out[k] == x)))
            return self.list_of_seq(out, a.typ.elem)
        raise Unsupported('list repetition')

    def join_elem(self, a, b):
        x, y = a.typ.elem, b.typ.elem
        if x is None:
            return y
        if y is None:
            return x
        return join_types(x, y)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            t = self.compare(op, left, right)
            if k == len(e.ops) - 1:
                return self.sb(t)
            if not self.p.decide(t):
                return Const(False)
            left = right

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.identical(a, b))
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.equal(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        a, b = self.force(a), self.force(b)
        inf = float('inf')
        if isinstance(b, Const) and b.py == inf and self.is_int(a):
            return z3.BoolVal(isinstance(op, (ast.Lt, ast.LtE)))
        if isinstance(a, Const) and a.py == inf and self.is_int(b):
            return z3.BoolVal(isinstance(op, (ast.Gt, ast.GtE)))
        if isinstance(a, Dyn) or isinstance(b, Dyn):
            raise Unsupported(f'comparison of {a!r} and {b!r}')
        if not (self.is_int(a) and self.is_int(b)):
            raise self.type_error(f'comparison of {a!r} and {b!r}')
        x, y = self.int_(a), self.int_(b)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported('comparison')

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, Opaque):
            return self.w.opaque[c.kind].contains(self, c, x)
        if isinstance(c, Const) and isinstance(c.py, (tuple, list, dict, set, frozenset)):
            return z3.simplify(z3.Or([self.equal(x, Const(k)) for k in c.py])) if len(c.py) else FALSE
        if isinstance(c, Tup):
            return z3.Or([self.equal(x, y) for y in c.items]) if c.items else FALSE
        if isinstance(c, Ref):
            if isinstance(c.typ, TList):
                return z3.Contains(self.p.seq(c.t), z3.Unit(self.to_val(x)))
            xf = self.force(x) if not isinstance(c.typ, TMap) else x
            if isinstance(c.typ, TMap):
                k = self.str_(x)
                self.map_fact(c, k)
                return z3.Select(self.p.sel(self.p.arr('d'), c.t), k)
            if isinstance(xf, Const) and isinstance(xf.py, str):
                return self.p.has(xf.py, c.t)
            if isinstance(c.typ, TRec) or c.typ is None:
                raise Unsupported('membership with a computed key')
        if self.is_str(c) and self.is_str(self.force(x)):
            return z3.Contains(self.str_(c), self.str_(x))
        if isinstance(c, Dyn):
            return z3.Function('contains', Val, Val, B)(c.t, self.to_val(x))
        raise self.type_error(f'membership in {c!r}')

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred tuple')
        return Tup([self.ev(x, env) for x in e.elts])

    def e_List(self, e, env):
        parts, elem = [], None
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.force(self.ev(x.value, env))
                seq, typ = self.seq_of(v)
                if cur:
                    parts += [z3.Unit(c) for c in cur]
                    cur = []
                parts.append(seq)
                elem = typ if elem is None else (join_types(elem, typ) if typ is not None else elem)
            else:
                v = self.ev(x, env)
                t = self.type_of(v)
                elem = t if elem is None else join_types(elem, t)
                cur.append(self.to_val(v))
        parts += [z3.Unit(c) for c in cur]
        if not parts:
            return self.new_list([], None)
        return self.list_of_seq(z3.Concat(*parts) if len(parts) > 1 else parts[0], elem)

    def e_Dict(self, e, env):
        n = self.p.alloc(dict)
        if not e.keys:
            return Ref(n, TMap(None))
        keys = []
        for k in e.keys:
            if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                kv = self.force(self.ev(k, env)) if k is not None else None
                if kv is not None and isinstance(kv, Const):
                    return self.const_dict(e, env)
                raise Unsupported('dict literal with computed keys')
            keys.append(k.value)
        typ = self.w.literal_type(tuple(keys)) if self.w.literal_type else None
        r = Ref(n, typ)
        for k, v in zip(keys, e.values):
            self.set_field(r, k, self.ev(v, env))
        return r

    def const_dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk, vv = self.force(self.ev(k, env)), self.force(self.ev(v, env))
            if not isinstance(kk, Const):
                raise Unsupported('dict literal with computed keys')
            d[kk.py] = vv.py if isinstance(vv, Const) else vv
        return Const(d)

    def e_JoinedStr(self, e, env):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(z3.StringVal(x.value))
            else:
                if x.format_spec is not None:
                    raise Unsupported('format spec')
                out.append(self.text(self.ev(x.value, env)))
        if not out:
            return Const('')
        return self.ss(z3.Concat(*out) if len(out) > 1 else out[0])

    def text(self, v):
        """str(v)"""
        v = self.force(v)
        if self.is_str(v):
            return self.str_(v)
        if isinstance(v, Const):
            return z3.StringVal(str(v.py))
        if self.is_int(v):
            return INT_STR(self.int_(v))
        return VAL_STR(self.to_val(v))

    def e_Lambda(self, e, env):
        return self.closure(e, env, '<lambda>')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            me = env
            while me is not None and '__class__cell' not in me.vars:
                me = me.parent
            if me is None:
                raise Unsupported('super() without class')
            return SuperV(me.vars['__class__cell'].py, me.vars['__self__cell'])
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value, env))
                if isinstance(v, Tup):
                    args += v.items
                else:
                    raise Unsupported('star argument')
            elif isinstance(a, ast.GeneratorExp):
                args.append(GenV(a, env))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, env))
                if not (isinstance(d, Const) and isinstance(d.py, dict) and all(isinstance(n, str) for n in d.py)):
                    raise Unsupported('** argument')
                for n, v in d.py.items():
                    if n in kw:
                        raise self.type_error(f'multiple values for {n}')
                    kw[n] = v if isinstance(v, V) else self.live(v)
                continue
            kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw, e)

    def e_ListComp(self, e, env):
        from . import loops
        return loops.list_comp(self, e, env)

    def e_GeneratorExp(self, e, env):
        return GenV(e, env)

    # ================================================================ attributes and items
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Const):
            x = o.py
            if isinstance(x, (types.ModuleType, type)):
                if isinstance(x, type):
                    a, c = self.class_attr(x, name)
                    if isinstance(a, staticmethod):
                        return Const(a.__func__)
                    if isinstance(a, types.FunctionType):
                        return Const(a)
                if not hasattr(x, name):
                    raise self.exc(AttributeError, name)
                return self.live(getattr(x, name))
            if isinstance(x, (str, dict)):
                return Meth(name, o)
            if isinstance(x, re.Pattern):
                from . import regex
                return regex.MODELS['regex'].getattr(self, regex.pattern(x), name)
            if x is None:
                raise self.exc(AttributeError, f'None.{name}')
            import enum
            if isinstance(x, enum.Enum):
                a, c = self.class_attr(type(x), name)
                if isinstance(a, types.FunctionType):
                    return Bound(Const(a), o)
                return self.live(getattr(x, name))
            if hasattr(x, name):
                return self.live(getattr(x, name))
            raise self.exc(AttributeError, name)
        if isinstance(o, Opaque):
            return self.w.opaque[o.kind].getattr(self, o, name)
        if isinstance(o, SS):
            return Meth(name, o)
        if isinstance(o, SuperV):
            mro = o.recv.typ.classes[0].__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], o.recv, c)
            raise self.exc(AttributeError, name)
        if isinstance(o, Ref):
            if isinstance(o.typ, (TList, TMap, TRec)) or o.typ is None:
                return Meth(name, o)
            if isinstance(o.typ, TObj):
                cls = o.typ.classes[0]
                a, c = self.class_attr(cls, name)
                if a is not None and not isinstance(a, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                    return self.bind(a, o, c)
                if not self.p.decide(self.p.has(name, o.t)):
                    raise self.exc(AttributeError, name)
                return self.get_field(o, name)
        if isinstance(o, Dyn):
            if o.typ is not None and all(isinstance(x, TEnum) for x in alts(o.typ)):
                members = [m for x in alts(o.typ) for m in x.members]
                for m in members[:-1]:
                    if self.p.decide(o.t == self.to_val(Const(m))):
                        return self.getattr(Const(m), name)
                return self.getattr(Const(members[-1]), name)
            if name == '__name__' and isinstance(o.typ, TFn) and 'function-name' in self.w.models:
                return self.w.models['function-name'](self, o)
        if isinstance(o, (SI, SB, Tup)):
            raise self.exc(AttributeError, name)
        raise Unsupported(f'attribute {name} of {o!r}')

    def bind(self, a, o, owner):
        fn, kind = source.unwrap(a)
        if kind == 'static':
            return Const(fn)
        if isinstance(fn, property):
            return self.call(Const(fn.fget), [o], {})
        if isinstance(fn, types.FunctionType):
            return Bound(Const(fn), o)
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType)) or type(fn).__name__ in ('wrapper_descriptor', 'method_descriptor'):
            return Bound(Const(fn), o)
        return self.live(fn)

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Ref) and isinstance(o.typ, TObj):
            self.set_field(o, name, v)
            return
        if isinstance(o, Opaque):
            return self.w.opaque[o.kind].setattr(self, o, name, v)
        if isinstance(o, Const) and o.py is None:
            raise self.exc(AttributeError, name)
        raise Unsupported(f'attribute assignment on {o!r}')

    def getitem(self, o, k):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Tup):
            n = self.int_(k)
            if lit(n) is None:
                raise Unsupported('tuple index')
            i = lit(n)
            if not -len(o.items) <= i < len(o.items):
                raise self.exc(IndexError)
            return o.items[i]
        if isinstance(o, Opaque):
            return self.w.opaque[o.kind].getitem(self, o, k)
        if isinstance(o, Const) and isinstance(o.py, (dict, tuple, list, str)) and isinstance(k, Const):
            try:
                return self.live(o.py[k.py])
            except (KeyError, IndexError) as e:
                raise self.exc(type(e), k.py)
        if isinstance(o, Const) and isinstance(o.py, dict):
            for kk, vv in o.py.items():
                if self.p.decide(self.equal(k, self.live(kk))):
                    return self.live(vv)
            raise self.exc(KeyError, repr(k))
        if isinstance(o, Ref):
            if isinstance(o.typ, TList):
                i = self.int_(k)
                s = self.p.seq(o.t)
                n = z3.Length(s)
                if lit(i) is not None and lit(i) < 0:
                    i = n + i
                    if not self.p.decide(i >= 0):
                        raise self.exc(IndexError)
                else:
                    if not self.p.decide(z3.And(i >= 0, i < n)):
                        if self.p.decide(z3.And(i < 0, -i <= n)):
                            i = n + i
                        else:
                            raise self.exc(IndexError)
                return self.elem(s, i, o)
            if isinstance(o.typ, TMap) and not (o.typ.elem is None and isinstance(k, Const)):
                s = self.str_(k)
                self.map_fact(o, s)
                if not self.p.decide(z3.Select(self.p.sel(self.p.arr('d'), o.t), s)):
                    raise self.exc(KeyError, str(s))
                t = z3.Select(self.p.sel(self.p.arr('m'), o.t), s)
                if o.typ.elem is None:
                    return self.of_val(z3.simplify(t), None)
                return self.typed(t, o.typ.elem)
            if isinstance(k, Const) and isinstance(k.py, str):
                if not self.p.decide(self.p.has(k.py, o.t)):
                    raise self.exc(KeyError, k.py)
                return self.get_field(o, k.py)
            if isinstance(o.typ, TObj):
                raise self.type_error('not subscriptable')
            raise Unsupported(f'computed key {k!r} in {o!r}')
        if isinstance(o, (SS,)) or isinstance(o, Const) and isinstance(o.py, str):
            s, i = self.str_(o), self.int_(k)
            n = z3.Length(s)
            if self.p.decide(z3.And(i >= 0, i < n)):
                return self.ss(z3.SubString(s, i, 1))
            if self.p.decide(z3.And(i < 0, -i <= n)):
                return self.ss(z3.SubString(s, n + i, 1))
            raise self.exc(IndexError)
        if isinstance(o, Const) and o.py is None or isinstance(o, (SI, SB)):
            raise self.type_error('not subscriptable')
        raise Unsupported(f'item of {o!r}')

    def elem(self, s, i, o):
        t = z3.simplify(s[i])
        et = o.typ.elem
        if et is None:
            return self.of_val(t, None)
        return self.typed(t, et, self.entry_value(s))

    def setitem(self, o, k, v):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Opaque):
            return self.w.opaque[o.kind].setitem(self, o, k, v)
        if isinstance(o, Ref):
            if isinstance(o.typ, TList):
                i = self.int_(k)
                s = self.p.seq(o.t)
                n = z3.Length(s)
                if lit(i) is not None and lit(i) < 0:
                    i = n + i
                    if not self.p.decide(i >= 0):
                        raise self.exc(IndexError)
                elif not self.p.decide(z3.And(i >= 0, i < n)):
                    if self.p.decide(z3.And(i < 0, -i <= n)):
                        i = n + i
                    else:
                        raise self.exc(IndexError)
                if o.typ.elem is not None and not subtype(self.type_of(v), o.typ.elem):
                    v = self.retype(v, o.typ.elem, 'list item')
                new = z3.Concat(z3.SubSeq(s, z3.IntVal(0), i), z3.Unit(self.to_val(v)), z3.SubSeq(s, i + 1, n - i - 1))
                self.p.put('s', '', o.t, new)
                return
            if isinstance(o.typ, TMap) and not (isinstance(k, Const) and o.typ.elem is None and isinstance(k.py, str)):
                self.map_set(o, self.str_(k), v)
                return
            if isinstance(k, Const) and isinstance(k.py, str):
                if isinstance(o.typ, TMap) and o.typ.elem is None:
                    o.typ = None            # a {} that is used as a record
                if isinstance(o.typ, TMap):
                    self.map_set(o, self.str_(k), v)
                    return
                self.set_field(o, k.py, v)
                return
        raise Unsupported(f'item assignment on {o!r}')

    def map_fact(self, o, k):
        """Facts a contract knows about every key of a dictionary, instantiated where the key is used."""
        fn = self.p.map_facts.get(o.t.get_id())
        if fn is not None:
            for f in fn(k):
                self.p.assume(f)

    def map_set(self, o, s, v):
        t = self.type_of(v)
        if o.typ.elem is None:
            o.typ.elem = t
        elif not subtype(t, o.typ.elem):
            if lit(o.t) is not None and lit(o.t) < 0:
                o.typ.elem = join_types(o.typ.elem, t)
            else:
                v = self.retype(v, o.typ.elem, 'map value')
        d, m, k = (self.p.sel(self.p.arr(x), o.t) for x in 'dmk')
        self.p.put('k', '', o.t, z3.If(z3.Select(d, s), k, z3.Concat(k, z3.Unit(s))))
        self.p.put('d', '', o.t, z3.Store(d, s, TRUE))
        self.p.put('m', '', o.t, z3.Store(m, s, self.to_val(v)))
        if self.contract is not None:
            self.contract.on_map_set(self, o, s, v)

    def slice(self, o, lo, hi):
        o, lo, hi = self.force(o), self.force(lo), self.force(hi)

        def clip(x, n, default):
            if isinstance(x, Const) and x.py is None:
                return default
            i = self.int_(x)
            k = lit(i)
            if k is not None:
                i = z3.IntVal(k) if k >= 0 else n + k
                if k < 0:
                    return z3.If(i < 0, 0, i)
                return z3.If(i > n, n, i) if k > 0 else z3.IntVal(0)
            if self.p.implied(z3.And(i >= 0, i <= n)):
                return i
            return z3.If(i < 0, z3.If(n + i < 0, 0, n + i), z3.If(i > n, n, i))
        if isinstance(o, Ref) and isinstance(o.typ, TList):
            s = self.p.seq(o.t)
            n = z3.Length(s)
            a, b = clip(lo, n, z3.IntVal(0)), clip(hi, n, n)
            size = b - a if self.p.implied(a <= b) else z3.If(b > a, b - a, 0)
            return self.list_of_seq(z3.SubSeq(s, a, size), o.typ.elem)
        if self.is_str(o):
            s = self.str_(o)
            n = z3.Length(s)
            a, b = clip(lo, n, z3.IntVal(0)), clip(hi, n, n)
            return self.ss(z3.SubString(s, a, z3.If(b > a, b - a, 0)))
        raise Unsupported(f'slice of {o!r}')

    def seq_of(self, v):
        """(Seq of Val, element type) of something list-like."""
        if isinstance(v, Ref) and isinstance(v.typ, TList):
            return self.p.seq(v.t), v.typ.elem
        if isinstance(v, Tup):
            s = z3.Empty(SeqVal)
            ts = None
            for x in v.items:
                s = z3.Concat(s, z3.Unit(self.to_val(x)))
                ts = self.type_of(x) if ts is None else join_types(ts, self.type_of(x))
            return s, ts
        if isinstance(v, GenV):
            from . import loops
            l = loops.list_comp(self, v.node, v.env)
            return self.p.seq(l.t), l.typ.elem
        raise Unsupported(f'sequence of {v!r}')

    def list_append(self, o, v):
        t = self.type_of(v)
        if o.typ.elem is None:
            o.typ.elem = t
        elif not subtype(t, o.typ.elem):
            if lit(o.t) is not None and lit(o.t) < 0:
                o.typ.elem = join_types(o.typ.elem, t)
            else:
                v = self.retype(v, o.typ.elem, 'list element')
        self.p.put('s', '', o.t, z3.Concat(self.p.seq(o.t), z3.Unit(self.to_val(v))))

    def list_extend(self, o, v):
        v = self.force(v)
        s, t = self.seq_of(v)
        if t is not None:
            if o.typ.elem is None:
                o.typ.elem = t
            elif not subtype(t, o.typ.elem):
                if lit(o.t) is not None and lit(o.t) < 0:
                    o.typ.elem = join_types(o.typ.elem, t)
                else:
                    raise Unsupported(f'extend: {t} does not fit {o.typ.elem}')
        self.p.put('s', '', o.t, z3.Concat(self.p.seq(o.t), s))

    # ================================================================ calls
    def call(self, f, args, kw, node=None):
        f = self.force(f)
        if isinstance(f, Bound):
            fn = f.fn.py if isinstance(f.fn, Const) else None
            if fn is not None and not isinstance(fn, types.FunctionType):
                return self.builtin_method(fn, f.recv, args, kw)
            return self.call(f.fn, [f.recv] + args, kw, node)
        if isinstance(f, Meth):
            from . import builtin
            return builtin.method(self, f.recv, f.name, args, kw, node)
        if isinstance(f, Opaque):
            return self.w.opaque[f.kind].call(self, f, args, kw)
        if isinstance(f, Clo):
            return self.run_function(f.node, f.env, f.glob, f.name, args, kw, f.defaults, f.kwdefaults)
        if isinstance(f, Dyn):
            return self.call_opaque(f, args, kw)
        if not isinstance(f, Const):
            raise self.type_error(f'{f!r} is not callable')
        x = f.py
        if isinstance(x, types.FunctionType) and not (x.__module__ in ('re', 'html') and x.__name__ in ('compile', 'escape')):
            q = source.qualname(x)
            if q in self.w.models:
                self.p.session.assumed.add(f'model of {q}')
                return self.w.models[q](self, args, kw)
            c = self.w.contract_for(q, args)
            if c is not None and not getattr(c, 'inline', False):
                self.p.session.assumed.add('contract ' + c.title())
                return c.apply(self, args, kw)
            if not self.w.inline_ok(q):
                raise Unsupported(f'call of {q}')
            return self.inline(x, args, kw)
        if isinstance(x, type):
            return self.construct(x, args, kw)
        from . import builtin
        return builtin.function(self, x, args, kw, node)

    def inline_top(self, x, args, kw):
        self.stack.pop()
        try:
            return self.inline(x, args, kw)
        finally:
            self.stack.append('')

    def inline(self, x, args, kw):
        node = source.find(x)
        if node is None:
            raise Unsupported(f'no source for {x}')
        q = source.qualname(x)
        if q in self.stack:
            raise Unsupported(f'recursion through {q} without a contract')
        self.p.session.used.add(q)
        self.stack.append(q)
        try:
            env = Env(x.__globals__)
            env.vars.update({k: self.live(v) for k, v in source.cell_env(x).items() if k != '__class__'})
            owner = source.cell_env(x).get('__class__')
            if owner is not None and args:
                env.vars['__class__cell'] = Const(owner)
                env.vars['__self__cell'] = args[0]
            defaults = [self.default(d) for d in (x.__defaults__ or ())]
            kwd = {k: self.default(d) for k, d in (x.__kwdefaults__ or {}).items()}
            return self.run_function(node, env, x.__globals__, q, args, kw, defaults, kwd)
        finally:
            self.stack.pop()

    def default(self, d):
        if isinstance(d, list) and not d:
            return self.new_list([], None)
        if isinstance(d, dict) and not d:
            return Ref(self.p.alloc(dict), TMap(None))
        return self.live(d)

    def run_function(self, node, parent, glob, name, args, kw, defaults, kwdefaults):
        if self.depth > 40:
            raise Unsupported('call depth')
        env = Env(glob, parent)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            # run to its end at once: the list of what it yields (callers take all of it)
            env.vars['.yield'] = self.new_list([], None)
            self.p.session.assumed.add(f'the generator {name} is consumed at once')
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        whole = kw.pop('**', None)
        if whole is not None and a.kwarg is not None and len(args) == 1 and isinstance(args[0], Star):
            env.vars[a.vararg.arg], env.vars[a.kwarg.arg] = args[0].v, whole.v
            return self.run_env(node, env)
        if len(args) > len(names) and a.vararg is None:
            raise self.type_error(f'{name}() takes {len(names)} arguments')
        for n, v in zip(names, args):
            env.vars[n] = v
        if a.vararg is not None:
            env.vars[a.vararg.arg] = Tup(args[len(names):])
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env.vars:
                    raise self.type_error(f'{name}() got multiple values for {k}')
                env.vars[k] = kw.pop(k)
        if kw and a.kwarg is None:
            raise self.type_error(f'{name}() got an unexpected argument {list(kw)}')
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = Const(dict(kw))
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n not in env.vars:
                if i >= off:
                    env.vars[n] = defaults[i - off]
                else:
                    raise self.type_error(f'{name}() misses {n}')
        for x in a.kwonlyargs:
            if x.arg not in env.vars:
                if x.arg in kwdefaults:
                    env.vars[x.arg] = kwdefaults[x.arg]
                else:
                    raise self.type_error(f'{name}() misses {x.arg}')
        return self.run_env(node, env)

    def run_env(self, node, env):
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            for n in source.assigned_names(node.body):
                if n not in env.vars:
                    env.vars[n] = UnboundV()
            try:
                self.block(node.body, env)
            except _Return as r:
                return env.vars.get('.yield', r.value)
            return env.vars.get('.yield', NONE)
        finally:
            self.depth -= 1

    def construct(self, cls, args, kw):
        from . import builtin
        if cls.__module__ == 'builtins' or not cls.__module__.startswith('enolib'):
            return builtin.construct(self, cls, args, kw)
        key = f'{cls.__module__}.{cls.__qualname__}'
        if key in self.w.models:
            self.p.session.assumed.add(f'model of {key}')
            return self.w.models[key](self, args, kw)
        n = self.p.alloc(cls)
        o = Ref(n, TObj(cls))
        if not issubclass(cls, BaseException):
            self.p.made.append((n, cls))
        init, owner = self.class_attr(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(Const(init), [o] + args, kw)
        elif args and not issubclass(cls, BaseException):
            raise self.type_error('arguments to a class without __init__')
        if issubclass(cls, BaseException):
            self.p.ghost[('args', str(n))] = args
        return o

    def builtin_method(self, fn, recv, args, kw):
        name = getattr(fn, '__name__', '')
        if name == '__init__':
            if isinstance(recv, Ref):
                self.p.ghost[('args', str(recv.t))] = args
            return NONE
        raise Unsupported(f'builtin method {fn}')

    def call_opaque(self, f, args, kw):
        """An unknown callable (a loader or a message function)."""
        hook = self.w.models.get('opaque-call')
        if hook is None:
            raise Unsupported(f'call of an unknown value {f!r}')
        return hook(self, f, args, kw)
