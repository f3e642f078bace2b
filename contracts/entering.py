"""From the input to the document (C01, C22): parse, Context and the analyzer's constructor.

Analyzer.analyze and Resolver.resolve are proved in analyzing.py and resolving.py. Here they are stand-ins that check what those
proofs start from, change anything they may, and return or raise a ParseError.
"""
from pyvc.contract import FRAMED
from pyvc.core import PyExc
from pyvc.terms import Star  # noqa: F401
from pyvc.interp import Schema
from .lib import *  # noqa: F401,F403
from .lib import F
from .world import INSTR, Context, ParseError, Section, analyzer, en
from . import analyzing, resolving
from enolib.reporters import TextReporter

Analyzer = analyzer.Analyzer
COPIES = ('_copy_sections', '_copy_non_section_elements')
GIVEN = ('input', 'messages', 'reporter', 'source')


def havoc(it, kept):
    """Anything made since entry may change; what was there before does not, and of the context only the named fields."""
    p = it.p
    p.counter += 1
    for key in list(p.heap):
        if key[1] in kept:
            continue
        old = p.heap[key]
        new = p.fresh('A_%s_%s' % key, old.sort())
        p.assume(z3.Or(FRAMED < 0, z3.Select(new, FRAMED) == z3.Select(old, FRAMED)))
        p.heap[key] = new
    p.epoch += 1


def fails(it, why):
    p = it.p
    n = p.alloc(ParseError)
    e = Ref(n, TObj(ParseError))
    p.ghost['raised'] = e
    raise PyExc(ParseError, e)


def analyze(it, args, kw):
    p = it.p
    a = {'self': it.force(args[0])}
    p.prove('call(Analyzer.analyze).arguments', z3.BoolVal(len(args) == 1 and not kw))
    p.prove('call(Analyzer.analyze).once', z3.BoolVal('analyzed' not in p.ghost))
    for k, f in enumerate(analyzing.Analyze().ready(it, a)):
        p.prove('call(Analyzer.analyze).pre', f)
    c = Val.r(F(it, a['self'].t, '_context'))
    p.ghost['analyzed'] = (c, {n: F(it, c, n) for n in GIVEN}, [p.has(n, c) for n in GIVEN])
    document = F(it, c, 'document')
    havoc(it, GIVEN + ('document', '_context'))
    if p.choose(2):
        fails(it, 'analyze')
    p.ghost['copies'] = [p.has(f, c) for f in COPIES]
    for f in COPIES:
        p.assume(z3.Implies(p.has(f, c), Val.is_VRef(F(it, c, f))))
    d = Val.r(document)
    p.assume(z3.And(p.has('type', d), analyzing.is_type(it, d, T.DOCUMENT)))
    return Const(None)


def resolve(it, args, kw):
    p = it.p
    s = it.force(args[0])
    p.prove('call(Resolver.resolve).arguments', z3.BoolVal(len(args) == 1 and not kw))
    p.prove('call(Resolver.resolve).after-analyze', z3.BoolVal('analyzed' in p.ghost and 'resolved' not in p.ghost))
    if 'analyzed' not in p.ghost:
        return Const(None)
    p.prove('call(Resolver.resolve).context', F(it, s.t, '_context') == Val.VRef(p.ghost['analyzed'][0]))
    for f in resolving.Resolve().pre(it, {'self': s})[:-1]:
        p.prove('call(Resolver.resolve).pre', f)
    p.ghost['resolved'] = True
    havoc(it, GIVEN + ('document', '_context', '_unresolved_sections', '_unresolved_non_section_elements'))
    if p.choose(2):
        fails(it, 'resolve')
    return Const(None)


def world(w):
    w = resolving.world(w)
    c = w.classes[Context]
    w.classes[Context] = Schema('Context', {**c.fields, 'messages': TAny(), 'reporter': TAny()}, c.inv)
    w.models['enolib.analyzer.Analyzer.analyze'] = analyze
    w.models['enolib.resolver.Resolver.resolve'] = resolve
    return w


class StartAnalyzer(Contract):
    """A new analyzer is what the proof of analyze starts from."""
    target = 'enolib.analyzer:Analyzer.__init__'
    args = {'self': TObj(Analyzer), 'context': TObj(Context)}
    props = ('C01', 'C22')
    maintains = ()
    inline = True
    frame = {k: (lambda it, a, r: r == a['context'].t) for k in ('document', 'meta')}

    def setup(self, it):
        a = super().setup(it)
        a['self'] = Ref(it.p.alloc(Analyzer), TObj(Analyzer))
        return a

    def pre(self, it, a):
        p, c = it.p, a['context'].t
        return [p.has('input', c), Val.is_VStr(F(it, c, 'input')), *[z3.Not(p.has(f, c)) for f in COPIES]]

    def post(self, it, a, out, pre):
        yield 'returns', z3.BoolVal(out.kind == 'return')
        if out.kind == 'return':
            for f in analyzing.Analyze().ready(it, a):
                yield 'ready', f
            yield 'context', F(it, a['self'].t, '_context') == Val.VRef(a['context'].t)


class StartContext(Contract):
    target = 'enolib.context:Context.__init__'
    props = ('C01', 'C22')
    args = {'input': TStr()}
    maintains = ()
    raises = (ParseError,)

    def __init__(self, options):
        self.options = options
        self.label = f'Context.__init__({", ".join(options)})'

    def setup(self, it):
        a = super().setup(it)
        a['self'] = Ref(it.p.alloc(Context), TObj(Context))
        for n in self.options:
            a[n] = it.typed(z3.Const('arg_' + n, Val), TAny(), old=True)
        return a

    def post(self, it, a, out, pre):
        p, c = it.p, a['self'].t
        done = p.ghost.get('analyzed')
        yield 'analyzes', z3.BoolVal(done is not None)
        if done is None:
            return
        yield 'analyzes-this', done[0] == c
        given = {'input': it.to_val(a['input']), 'messages': it.to_val(a['locale']) if 'locale' in a else it.to_val(Const(en)),
                 'reporter': it.to_val(a['reporter']) if 'reporter' in a else it.to_val(Const(TextReporter)), 'source': it.to_val(a['source']) if 'source' in a else Val.VNone}
        # errors are made while analyzing: what was given is there by then, and stays
        for (n, v), there in zip(given.items(), done[2]):
            yield f'{n}-before', z3.And(there, done[1][n] == v)
            yield f'{n}', z3.And(p.has(n, c), F(it, c, n) == v)
        if out.kind == 'return':
            yield 'error-passes', z3.BoolVal('raised' not in p.ghost)
            yield 'resolves-copies', z3.Or(p.ghost['copies']) == z3.BoolVal('resolved' in p.ghost)
        else:
            yield 'error-passes', z3.BoolVal('raised' in p.ghost and out.value is p.ghost['raised'])


class Parse(Contract):
    target = 'enolib.parse:parse'
    props = ('C01', 'C22')
    args = {'input': TStr()}
    raises = (ParseError,)

    def __init__(self, options):
        self.options = options
        self.label = f'parse({", ".join(options)})'

    def verify(self, world):
        world.models['enolib.context.Context'] = self.made
        c = world.classes[Context]
        world.classes[Context] = Schema('Context', {**c.fields, 'document': INSTR}, None)
        return super().verify(world)

    def setup(self, it):
        a = super().setup(it)
        for n in self.options:
            a[n] = it.typed(z3.Const('arg_' + n, Val), TAny(), old=True)
        return a

    def pass_args(self, it, fn, a):
        return [a['input']], {n: a[n] for n in self.options}

    def made(self, it, args, kw):
        p = it.p
        p.prove('call(Context).once', z3.BoolVal('context' not in p.ghost))
        ok = len(args) == 1 and set(kw) == set(self.options)
        p.prove('call(Context).arguments', z3.And([it.to_val(args[0]) == it.to_val(self.a['input'])] + [it.to_val(kw[n]) == it.to_val(self.a[n]) for n in self.options]) if ok else FALSE)
        if p.choose(2):
            fails(it, 'Context')
        n = p.alloc(Context)
        d = p.alloc(dict)
        p.ghost['context'] = (n, d)
        p.put('h', 'document', n, TRUE)
        p.put('v', 'document', n, Val.VRef(d))
        p.put('h', 'type', d, TRUE)
        p.put('v', 'type', d, analyzing.kind(T.DOCUMENT))
        return Ref(n, TObj(Context))

    def post(self, it, a, out, pre):
        p = it.p
        if out.kind == 'raise':
            return [('error-passes', z3.BoolVal('raised' in p.ghost and out.value is p.ghost['raised']))]
        if 'context' not in p.ghost or not (isinstance(out.value, Ref) and isinstance(out.value.typ, TObj)):
            return [('document', FALSE)]
        n, d = p.ghost['context']
        s = out.value
        return [('error-passes', z3.BoolVal('raised' not in p.ghost)),
                ('document', z3.And(z3.BoolVal(s.typ.classes == (Section,)), F(it, s.t, '_context') == Val.VRef(n), F(it, s.t, '_instruction') == Val.VRef(d))),
                ('new', s.t < 0)]


def uses():
    return []


def contracts():
    o = [(), ('locale', 'reporter', 'source')]
    return [StartAnalyzer()] + [StartContext(x) for x in o] + [Parse(x) for x in o]
