"""Locales: every message with parameters renders all of them, in every language (C21)."""
import inspect
import types
from .lib import *  # noqa: F401,F403
from .lib import Contract, F, T, TRUE, FALSE
from .world import LOCALES, en

TYPES = {'line': TInt()}


def public(m):
    return {k: v for k, v in vars(m).items() if not k.startswith('__') and not isinstance(v, types.ModuleType)}


class Message(Contract):
    """A message with parameters: its text contains every one of them."""
    props = ('C21',)
    maintains = ()

    def __init__(self, locale, name, params):
        self.locale, self.name = locale, name
        short = locale.__name__.rsplit('.', 1)[1]
        self.target = f'{locale.__name__}:{name}'
        self.label = f'message {name} [{short}]'
        self.args = {n: TYPES.get(n, TStr()) for n in params}

    def post(self, it, a, out, pre):
        if out.kind != 'return' or not it.is_str(out.value):
            return [('is-text', FALSE)]
        text = it.str_(out.value)
        return [(f'renders({n})', z3.Contains(text, it.text(a[n]))) for n in self.args] + [('says-more', z3.Length(text) > sum((z3.Length(it.text(a[n])) for n in self.args), z3.IntVal(0)))]


class Fixed(Contract):
    """The messages of a locale: the same names with the same parameters as everywhere; those without parameters are texts."""
    props = ('C21',)
    maintains = ()

    def __init__(self, locale):
        self.locale = locale
        self.label = f'messages of {locale.__name__.rsplit(".", 1)[1]}'
        self.target = f'{locale.__name__}:(names and parameters)'

    def verify(self, world):
        from pyvc.core import Session
        s = Session(self.title(), 5.0)
        s.reach = 0

        def run(p):
            s.reach += 1
            mine = public(self.locale)
            every = {}
            for m in LOCALES:
                every.update({k: v for k, v in public(m).items() if k not in every})
            for k, v in sorted(every.items()):
                p.prove(f'defines({k})', z3.BoolVal(k in mine))
                if k not in mine:
                    continue
                x = mine[k]
                p.prove(f'same-kind({k})', z3.BoolVal(callable(x) == callable(v)))
                if callable(x) and callable(v):
                    q, w = [*inspect.signature(x).parameters], [*inspect.signature(v).parameters]
                    p.prove(f'same-parameters({k})', z3.BoolVal(len(q) == len(w) and (set(q) != set(w) or q == w)))
                else:
                    p.prove(f'is-text({k})', z3.BoolVal(isinstance(x, str) and len(x) > 0))
        s.explore(run)
        return s


def uses():
    return []


def contracts():
    out = [Fixed(m) for m in LOCALES]
    for m in LOCALES:
        for k, v in sorted(public(m).items()):
            if isinstance(v, types.FunctionType):
                out.append(Message(m, k, [*inspect.signature(v).parameters]))
    return out
