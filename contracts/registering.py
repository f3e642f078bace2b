"""What registering a loader adds (C20): every method found by a registered name hands over to the generic method.

`_register` is executed for an arbitrary name and function; what it stored on the classes is then called on an
arbitrary object of each class, with the generic methods replaced by stand-ins that record their arguments.
`register` is executed for arbitrary definitions, about an arbitrary pair of a name and a function.
"""
from .lib import *  # noqa: F401,F403
from pyvc.core import REGION, PyExc
from pyvc.loops import Machine
from pyvc.terms import Star
from pyvc import source
from pyvc.contract import FRAMED
from .elements import FN
from enolib.elements.element_base import ElementBase
from enolib.elements.value_element_base import ValueElementBase
from enolib.elements.missing.missing_element_base import MissingElementBase

NAME = z3.String('name')
# registered method -> (generic method, the same for missing elements)
METHODS = {'{}_key': ('key', 'string_key'),
           'optional_{}_comment': ('optional_comment', 'optional_string_comment'),
           'required_{}_comment': ('required_comment', 'required_string_comment'),
           'optional_{}_value': ('optional_value', 'optional_string_value'),
           'required_{}_value': ('required_value', 'required_string_value'),
           'optional_{}_values': ('optional_values', 'optional_string_values'),
           'required_{}_values': ('required_values', 'required_string_values')}


def classes():
    import enolib.elements.element, enolib.elements.section, enolib.elements.list, enolib.elements.fieldset  # noqa: F401
    import importlib
    import pkgutil
    import enolib.elements
    for m in pkgutil.walk_packages(enolib.elements.__path__, 'enolib.elements.'):
        importlib.import_module(m.name)
    out = []

    def walk(c):
        for s in c.__subclasses__():
            if s not in out:
                out.append(s)
                walk(s)
    walk(ElementBase)
    walk(MissingElementBase)
    return [c for c in out if not c.__name__.endswith('Base')]


def found(k, name):
    return next((c.__dict__[name] for c in k.__mro__ if name in c.__dict__), None)


class Registers(Contract):
    target = 'enolib.register:_register'
    props = ('C20',)

    def __init__(self, k):
        self.k = k
        self.label = f'_register: methods of {k.__name__}'
        self.args = {'name': TStr(), 'function': FN}

    def apply(self, it, args, kw):
        """At its call sites in register: what matters is what it is called with."""
        a = self.bind(it, args, kw)
        n, f = it.force(a['name']), it.to_val(a['function'])
        it.p.prove('call(_register).arguments', z3.And(it.tag_fact(it.to_val(n), TStr()), it.tag_fact(f, FN)))
        it.p.put('v', 'registered', z3.IntVal(0), Val.VBool(z3.Or(hit(it), z3.And(it.str_(n) == N, f == FUN))))
        return Const(None)

    def post(self, it, a, out, pre):
        p = it.p
        events = [e for e in p.trace if e[0] == 'setattr']
        name = it.str_(a['name'])
        missing = issubclass(self.k, MissingElementBase)
        res = [('returns', TRUE if out.kind == 'return' else FALSE)]
        p.trace = []
        fails = p.choose(2)
        for pattern, pair in METHODS.items():
            generic = found(self.k, pair[1] if missing else pair[0])
            if generic is None:
                continue
            before, after = pattern.split('{}')
            parts = [z3.StringVal(before)] * bool(before) + [name] + [z3.StringVal(after)]
            wanted = z3.Concat(*parts)
            # the classes in which a lookup finds it; the last one stored under that name counts
            value = None
            for c in self.k.__mro__:
                here = [e for e in events if e[1] is c and p.implied(it.str_(it.force(e[2])) == wanted)]
                if here:
                    value = here[-1][3]
                    break
            label = pattern.format('NAME')
            if value is None:
                res.append((f'{label}.exists', FALSE))
                continue
            others = [it.str_(it.force(e[2])) != wanted for e in events if e[1] in self.k.__mro__ and e[3] is not value and not p.implied(it.str_(it.force(e[2])) == wanted)]
            res.append((f'{label}.not-replaced', z3.And(others) if others else TRUE))
            res += self.hands_over(it, label, value, generic, [] if missing else [a['function']], fails)
        return res

    def hands_over(self, it, label, value, generic, args, fails):
        """Calling what was stored on an object calls the generic method, once, and nothing else."""
        p = it.p
        made = []
        me = it.typed(p.fresh('me', Val), TObj(self.k), old=True)
        result = p.fresh('result', Val)

        def stand_in(it, given, kw):
            made.append((given, kw))
            if fails:
                raise PyExc(ValidationError, error)
            return Dyn(result, None)
        q = source.qualname(generic)
        saved = it.w.models
        it.w.models = {**saved, q: stand_in}
        error = Ref(p.fresh('error', I), TObj(ValidationError))
        heap = dict(p.heap)
        raised = value_back = None
        try:
            value_back = it.call(value, [me], {})
        except PyExc as e:
            raised = e.ref
        finally:
            it.w.models = saved
        same = z3.And([z3.Or(FRAMED < 0, z3.Select(h, FRAMED) == z3.Select(heap.get(k, H0(k)), FRAMED)) for k, h in p.heap.items() if not h.eq(heap.get(k, H0(k)))])
        out = [(f'{label}.calls-once', z3.BoolVal(len(made) == 1))]
        if len(made) == 1:
            given, kw = made[0]
            names = generic.__code__.co_varnames[:generic.__code__.co_argcount]
            given = given + [kw[n] for n in names[len(given):] if n in kw]
            ok = len(given) == 1 + len(args) and set(kw) <= set(names)
            out.append((f'{label}.arguments', z3.And([it.to_val(x) == it.to_val(y) for x, y in zip(given, [me] + args)]) if ok else FALSE))
        if fails:
            out.append((f'{label}.error-passes', z3.BoolVal(raised is error)))
        else:
            out.append((f'{label}.result', it.to_val(value_back) == result if value_back is not None else FALSE))
        out.append((f'{label}.nothing-else', same))
        return out


# ---------------------------------------------------------------- register
N, FUN, J = z3.String('any_name'), z3.Const('any_function', Val), z3.Int('any_definition')
HIT = ('h', 'registered')       # whether _register was called for this name and this function
FNAME = z3.Function('function_name', Val, S)


def hit(it):
    return Val.b(it.p.sel(it.p.arr('v', 'registered'), z3.IntVal(0)))


def holds(it, r):
    """The dictionary maps the name to the function."""
    d, m = it.p.sel(it.p.arr('d'), r), it.p.sel(it.p.arr('m'), r)
    return z3.And(z3.Select(d, N), z3.Select(m, N) == FUN)


def contributes(it, x):
    fn = Val.is_VConst(x)
    return z3.If(fn, z3.And(FNAME(x) == N, x == FUN), holds(it, Val.r(x)))


class Definitions(Machine):
    REQUIRED = {('definitions', 'relate', 'registered')}

    def __init__(self, it, seq):
        super().__init__('definitions', seq, [FALSE], None, ['seen'])
        self.before = hit(it)

    def step(self, it, g, x, i, seq):
        return [z3.Or(g['seen'], contributes(it, it.to_val(x)))]

    def relate(self, it, state, locs, g, i):
        return [('registered', hit(it) == z3.Or(self.before, g['seen'])),
                ('any', z3.Implies(z3.And(0 <= J, J < i, contributes(it, self.over[J])), g['seen']))]

    def done(self, it, g, i, seq, length):
        it.p.ghost['list'] = (self.over, g['seen'])
        return []


class Entries(Machine):
    REQUIRED = {('entries', 'relate', 'registered')}

    def __init__(self, it, seq, r):
        super().__init__('entries', seq, [], None, [])
        self.before, self.r = hit(it), r
        self.w = it.p.fresh('listed', I)
        # every key of a dictionary is listed
        it.p.assume(z3.Implies(z3.Select(it.p.sel(it.p.arr('d'), r), N), z3.And(0 <= self.w, self.w < z3.Length(seq), seq[self.w] == N)))

    def step(self, it, g, x, i, seq):
        # keys are listed once
        it.p.assume(z3.Implies(self.over[i] == N, i == self.w))
        return []

    def relate(self, it, state, locs, g, i):
        return [('registered', hit(it) == z3.Or(self.before, z3.And(holds(it, self.r), self.w < i)))]


class Register(Contract):
    target = 'enolib.register:register'
    props = ('C20',)
    label = 'register'
    frame = {('v', 'registered'): None, ('h', 'registered'): None}

    def setup(self, it):
        p = it.p
        out = {}
        for n, t in (('list', TList(TUnion(FN, TMap(FN)))), ('dict', TMap(FN))):
            out[n] = it.typed(z3.Const('definitions_' + n, Val), t, old=True)
            p.assume(Val.r(z3.Const('definitions_' + n, Val)) > 0)
        return out

    def pre(self, it, a):
        return [z3.Not(hit(it)), Val.is_VBool(it.p.sel(it.p.arr('v', 'registered'), z3.IntVal(0)))]

    def verify(self, world):
        world.models['function-name'] = lambda it, f: it.ss(FNAME(f.t))
        return super().verify(world)

    def pass_args(self, it, fn, a):
        import inspect
        kinds = {p.kind for p in inspect.signature(fn).parameters.values()}
        if kinds != {inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.VAR_KEYWORD}:
            raise Unsupported('register has other parameters')
        return [Star(a['list'])], {'**': Star(a['dict'])}

    def machines_for(self, it, seq, length, node, env, is_while):
        if seq is None:
            return None
        if seq.sort() == SeqVal:
            return [Definitions(it, seq)] if seq.eq(it.p.seq(self.a['list'].t)) else None
        if z3.is_app_of(seq, z3.Z3_OP_SELECT) and it.p.sel(it.p.arr('k'), seq.arg(1)).eq(seq):
            return [Entries(it, seq, seq.arg(1))]
        return None

    def post(self, it, a, out, pre):
        over, seen = it.p.ghost.get('list', (None, None))
        if out.kind != 'return' or over is None:
            return [('goes-over-the-definitions', FALSE)]
        kw = holds(it, a['dict'].t)
        return [('registers-what-is-defined', hit(it) == z3.Or(seen, kw)),
                ('registers-every-definition', z3.Implies(z3.And(0 <= J, J < z3.Length(over), contributes(it, over[J])), hit(it)))]


def uses():
    return []


def contracts():
    return [Register()] + [Registers(k) for k in classes()]
