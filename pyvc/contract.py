"""Contracts: what is assumed at entry, proved at exit, and used at call sites."""
import importlib
import time
import traceback
import z3
from . import source
from .terms import *  # noqa: F401,F403
from .terms import V, Val, SeqVal, Const, SB, SI, SS, Tup, Ref, Dyn, Clo, Bound, TAny, TNone, TBool, TInt, TStr, TSpan, TFn, TEnum, TList, TMap, TRec, TObj, TUnion, TOpt, alts, Unsupported, const_id, TRUE, FALSE
from .core import CLS, REGION, I, B, S, Path, PathEnd, PyExc, H0, SORTS, Session, lit, discharge
from .interp import Interp, NONE


FRAMED = z3.Int('any_object')      # an arbitrary object, for what stays as it was


class Out:
    """How a call ended: value of a return, or the exception."""

    def __init__(self, kind, value=None, cls=None):
        self.kind, self.value, self.cls = kind, value, cls

    def __repr__(self):
        return f'{self.kind} {self.cls.__name__ if self.cls else self.value!r}'


class At:
    """Evaluate spec terms in another heap."""

    def __init__(self, it, heap):
        self.it, self.heap = it, heap

    def __enter__(self):
        self.saved = self.it.p.heap
        self.it.p.heap = dict(self.heap)
        return self.it

    def __exit__(self, *a):
        self.it.p.heap = self.saved


class Contract:
    """Subclass per function. `target` is 'module:qualname' of the live function."""
    target = None
    props = ()
    concerns = {}             # property -> name parts of the obligations it rests on (all if not listed)
    only = None               # name parts of the obligations asked for (all if None)
    args = {}                 # parameter -> type
    returns = None            # type of the result at call sites
    raises = ()               # exception classes the function may raise
    frame = {}                # (kind, field) or field -> None (any object) or fn(it, a, r) -> formula
    maintains = ('self',)     # arguments whose class invariant is re-established
    inline = False            # proved on its own, but inlined at call sites
    obligation_timeout = 10.0
    time_limit = 200
    ground_checks = False     # leave quantified facts out when checking whether a branch is feasible
    hinted = True             # starts from what was learned about the loops before, as far as it still holds
    parallel = 1              # processes that share the paths of one function
    check_ms = 1500           # for the feasibility of branches (a branch that cannot be excluded is explored)

    def fn(self):
        mod, qual = self.target.split(':')
        x = importlib.import_module(mod)
        for part in qual.split('.'):
            x = x.__dict__[part] if isinstance(x, type) else getattr(x, part)
        return x.__func__ if isinstance(x, (staticmethod, classmethod)) else x

    def title(self):
        return getattr(self, 'label', None) or self.key()

    def axioms(self, it, a):
        """Definitions of logical functions at the arguments (assumed, never proved)."""
        return []

    def measure(self, it, a):
        """Decreases with every recursive call."""
        return None

    def key(self):
        mod, qual = self.target.split(':')
        return f'{mod}.{qual}'

    # -------- to override
    def pre(self, it, a):
        return []

    def post(self, it, a, out, pre):
        """Yield (name, formula, properties or None)."""
        return []

    def machines_for(self, it, seq, length, node, env, is_while):
        return None     # no loop is known: loops are out of reach unless a contract covers them

    def loop_candidates(self, it, state, locs, i, seq, node):
        return []

    def on_map_set(self, it, o, k, v):
        """Ghost code at a store into a dictionary."""

    def setup(self, it):
        """Symbolic arguments."""
        a = {}
        for n, t in self.args.items():
            if isinstance(t, V):
                a[n] = t
                continue
            tv = z3.Const(f'arg_{n}', Val)
            a[n] = it.typed(tv, t, old=True)
            if isinstance(a[n], Dyn) and any(isinstance(x, (TObj, TRec, TList, TMap)) for x in alts(t)):
                it.p.assume(z3.Implies(Val.is_VRef(tv), Val.r(tv) >= 0))
                it.p.nonneg[z3.simplify(Val.r(tv)).get_id()] = z3.simplify(Val.r(tv))
        return a

    # -------- verification of the body
    def frame_of(self, it, a):
        return self.frame

    def verify(self, world):
        try:
            fn = self.fn()
        except (AttributeError, KeyError, ImportError) as e:
            raise Unsupported(f'{self.target} does not exist')
        code = fn.__code__
        names = set(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount])
        if code.co_name.startswith('_') and code.co_name != '__init__' and (not set(self.args) <= names or self.required_names(fn) - set(self.args)):
            raise Unsupported(f'the private function {self.target} has another signature')
        session = Session(self.title(), self.obligation_timeout, time_limit=self.time_limit)
        session.reach = 0
        session.check_ms = self.check_ms
        session.ground_checks = self.ground_checks
        session.parallel = self.parallel
        session.only = self.only

        def run(p):
            it = Interp(p, world)
            it.contract = self
            self.a = a = self.setup(it)
            for f in list(self.axioms(it, a)) + list(self.pre(it, a)):
                p.assume(f)
            self.entry_measure = self.measure(it, a)
            if p.pos == 0 and not p.prefix and not p.check(TRUE):
                session.vacuous = True
            pre = dict(p.heap)
            self.pre_heap = pre
            try:
                args, kw = self.pass_args(it, fn, a)
                v = self.run_body(it, fn, args, kw)
                out = Out('return', v)
            except PyExc as e:
                out = Out('raise', e.ref, e.cls)
                out.why = p.ghost.get(('why', lit(e.ref.t))) if lit(e.ref.t) is not None else None
            session.reach += 1
            session.outcomes[out.kind if out.cls is None else out.cls.__name__] = session.outcomes.get(out.kind if out.cls is None else out.cls.__name__, 0) + 1
            self.finish(it, a, out, pre)
        if self.hinted:
            from . import hints
            session.hinted = hints.load(session, self.title())
        session.explore(run)
        return session

    @staticmethod
    def required_names(fn):
        code = fn.__code__
        pos = code.co_varnames[:code.co_argcount]
        pos = pos[:len(pos) - len(fn.__defaults__ or ())]
        konly = [n for n in code.co_varnames[code.co_argcount:code.co_argcount + code.co_kwonlyargcount] if n not in (fn.__kwdefaults__ or {})]
        return set(pos) | set(konly)

    def run_body(self, it, fn, args, kw):
        it.stack.append(self.key())
        it.depth = 0
        try:
            return it.inline_top(fn, args, kw)
        finally:
            it.stack.pop()

    def pass_args(self, it, fn, a):
        code = fn.__code__
        pos = [a[n] for n in code.co_varnames[:code.co_argcount] if n in a]
        kw = {n: a[n] for n in code.co_varnames[code.co_argcount:code.co_argcount + code.co_kwonlyargcount] if n in a}
        return pos, kw

    def finish(self, it, a, out, pre):
        p = it.p
        if out.kind == 'raise':
            ok = any(issubclass(out.cls, c) for c in self.raises)
            if not ok:
                p.prove(f'raises-nothing-else[{out.cls.__name__}{" " + str(out.why) if getattr(out, "why", None) else ""}]', FALSE)
                return
        for item in self.post(it, a, out, pre):
            name, f = item[0], item[1]
            p.prove('post.' + name, f)
        # data structure invariants of what was handed in or made here
        changed = any(not arr.eq(pre.get(k, H0(k))) for k, arr in p.heap.items())
        if changed:
            targets = [(n, a[n].t, a[n].typ.classes[0]) for n in self.maintains if isinstance(a.get(n), Ref) and isinstance(a[n].typ, TObj)]
            targets += [('new ' + c.__name__, n, c) for n, c in p.made]
            for label, r, c in targets:
                sch = next((it.w.classes[k] for k in c.__mro__ if k in it.w.classes), None)
                if sch is not None and sch.inv:
                    for k, f in enumerate(sch.inv(it, r)):
                        p.prove(f'invariant({label}).{k}', f)
        # everything outside the frame is as it was
        frame = self.frame_of(it, a)
        for key, arr in list(p.heap.items()):
            base = pre.get(key)
            if base is None:
                base = H0(key)
            if arr.eq(base):
                continue
            allowed = frame.get(key, frame.get(key[1] if key[0] in 'hv' else key[0] + ':', False))
            if allowed is None:
                continue
            r = FRAMED
            goal = z3.Or(r < 0, z3.Select(arr, r) == z3.Select(base, r))
            if allowed:
                goal = z3.Or(goal, allowed(it, a, r))
            p.prove(f'frame.{key[1] or key[0]}', goal)

    # -------- call sites
    def bind(self, it, args, kw):
        fn = self.fn()
        code = fn.__code__
        names = list(code.co_varnames[:code.co_argcount])
        konly = list(code.co_varnames[code.co_argcount:code.co_argcount + code.co_kwonlyargcount])
        a = dict(zip(names, args))
        if len(args) > len(names):
            raise it.type_error('too many arguments')
        for k, v in kw.items():
            if k not in names + konly or k in a:
                raise it.type_error(f'argument {k}')
            a[k] = v
        d = fn.__defaults__ or ()
        for n, x in zip(names[len(names) - len(d):], d):
            a.setdefault(n, it.default(x))
        for n in konly:
            if n not in a:
                if n in (fn.__kwdefaults__ or {}):
                    a[n] = it.default(fn.__kwdefaults__[n])
        for n in names + konly:
            if n not in a:
                raise it.type_error(f'missing argument {n}')
        return a

    def apply(self, it, args, kw):
        p = it.p
        a = self.bind(it, args, kw)
        for n, t in self.args.items():
            if isinstance(t, V) or n not in a:
                continue
            if isinstance(a[n], Ref) and isinstance(a[n].typ, (TList, TMap, TRec)):
                continue
            tag = it.tag_fact(it.to_val(a[n]), t)
            if not z3.is_true(z3.simplify(tag)):
                p.prove(f'call({self.key()}).argument({n})', tag)
            v = it.of_val(it.to_val(a[n]), t) if isinstance(a[n], Dyn) else a[n]
            a[n] = v
        for k, f in enumerate(self.pre(it, a)):
            p.prove(f'call({self.key()}).pre', f)
        caller = it.contract
        if caller is not None and caller.target == self.target and getattr(caller, 'entry_measure', None) is not None:
            m = self.measure(it, a)
            if m is not None:
                p.prove(f'terminates({self.key()})', z3.And(m >= 0, m < caller.entry_measure))
        pre = dict(p.heap)
        frame = self.frame_of(it, a)
        p.counter += 1
        for fkey, allowed in frame.items():
            keys = [fkey] if isinstance(fkey, tuple) else [('h', fkey), ('v', fkey)]
            for key in keys:
                old = p.arr(*key)
                if allowed is None:
                    p.heap[key] = p.fresh('C_%s_%s' % key, SORTS[key[0]])
                else:
                    refs = getattr(allowed, 'refs', None)
                    if refs is not None:
                        arr = old
                        for r in refs(it, a):
                            arr = z3.Store(arr, r, p.fresh('c_%s_%s' % key, SORTS[key[0]].range()))
                        p.heap[key] = arr
                    else:
                        new = p.fresh('C_%s_%s' % key, SORTS[key[0]])
                        points = getattr(it.contract, 'points', None)
                        if points is not None:
                            # the caller's contract names the records it speaks of
                            for r in points(it):
                                p.assume(z3.Or(allowed(it, a, r), z3.Select(new, r) == z3.Select(old, r)))
                            p.heap[key] = new
                            continue
                        r = z3.Int('r!frame')
                        p.assume(z3.ForAll([r], z3.Or(allowed(it, a, r), z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)]))
                        p.heap[key] = new
            pre.update({k: pre.get(k, H0(k)) for k in keys})
        pre = {**p.heap, **pre}
        if frame:
            p.epoch += 1
        n = 1 + len(self.raises)
        k = p.choose(n) if self.raises else 0
        if k == 0:
            v = self.result(it, a)
            out = Out('return', v)
        else:
            cls = self.raises[k - 1]
            r = p.fresh('exc', I)
            p.assume(z3.And(r < 0, REGION(r) != 1, CLS(r) == const_id(cls)))
            out = Out('raise', Ref(r, TObj(cls)), cls)
        for item in self.post(it, a, out, pre):
            p.assume(item[1])
        seen = p.session.__dict__.setdefault('call_sites', {})
        site = (self.key(), k)
        if not p.check(TRUE):
            seen.setdefault(site, False)
            raise PathEnd()
        seen[site] = True
        if out.kind == 'raise':
            raise PyExc(out.cls, out.value)
        return out.value

    def result(self, it, a):
        if self.returns is None:
            return NONE
        t = it.p.fresh('ret', Val)
        # whatever it is, nothing allocated later is the same object
        it.p.assume(z3.Implies(Val.is_VRef(t), Val.r(t) >= -it.p.counter))
        return it.typed(t, self.returns)

    def new_result(self, it, cls):
        """A result that is an object the callee made."""
        r = it.p.fresh('new', I)
        it.p.assume(z3.And(r < 0, REGION(r) == 1000 + it.p.counter, CLS(r) == const_id(cls)))
        return Ref(r, TObj(cls))


def only(*names):
    """Frame: the named arguments (and nothing else) may change."""
    def allowed(it, a, r):
        return z3.Or([r == a[n].t for n in names])
    allowed.refs = lambda it, a: [a[n].t for n in names]
    return allowed
