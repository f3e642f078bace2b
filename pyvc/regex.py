"""Regular expressions: matches are uninterpreted, with facts derived from the pattern's own parse tree.

For a match of pattern P in s from index i: START/END(P, s, i, group). Facts: which groups take part together, the order and
the widths of groups, that no line break is part of the match (if no part of the pattern can consume one) and what follows it.
"""
import re
import re._parser as sre_parse
import re._constants as C
import z3
from .terms import *  # noqa: F401,F403
from .terms import V, Val, Const, SS, Tup, Opaque, Unsupported, TRUE, FALSE
from .core import I, B, S, lit

HIT = {k: z3.Function(f're_{k}', S, S, I, B) for k in ('search', 'match', 'fullmatch')}
LO = {k: z3.Function(f're_{k}_start', S, S, I, I, I) for k in HIT}
HI = {k: z3.Function(f're_{k}_end', S, S, I, I, I) for k in HIT}
EOL = z3.Function('end_of_line', S, I, I)        # the first line break at or after a position, or the length
LINES = z3.Function('lines_before', S, I, I)     # line breaks before a position (one past the length: as if a line break followed)
SUBSTR = z3.Function('slice_of', S, I, I, S)     # s[a:b]
RE_ESCAPE = z3.Function('re_escape', S, S)
HOLE = 0xE000                     # placeholders of inserted text in computed patterns
BIG = int(C.MAXREPEAT)


def eol(it, s, a):
    """The end of the line position a lies in (0 <= a <= len(s)), with what is known about it."""
    p = it.p
    a = z3.simplify(a)
    e = EOL(s, a)
    key = ('eol', s.get_id(), a.get_id())
    if key not in p.ghost:
        p.ghost[key] = (s, a)
        n = z3.Length(s)
        p.assume(z3.Implies(z3.And(a >= 0, a <= n), z3.And(
            a <= e, e <= n, EOL(s, e) == e, LINES(s, e) == LINES(s, a), LINES(s, e + 1) == LINES(s, a) + 1,
            (z3.SubString(s, e, 1) == z3.StringVal('\n')) == (e < n),
            z3.Implies(z3.And(e == n, a < n), z3.And(LINES(s, n) == LINES(s, a), z3.SubString(s, n - 1, 1) != z3.StringVal('\n'))))))
        p.assume(LINES(s, z3.IntVal(0)) == 0)
        p.assume(z3.Implies(a >= 0, LINES(s, a) >= 0))
    return e


def find_newline(it, s, a, b):
    p = it.p
    n = z3.Length(s)
    b = n if b is None else z3.If(b > n, n, b)
    if not p.implied(z3.And(a >= 0)):
        k = p.fresh('find', I)
        p.assume(z3.Or(k == -1, z3.And(k >= 0, k < n)))
        return k
    if not p.decide(a <= n):
        return z3.IntVal(-1)
    e = eol(it, s, a)
    b = z3.simplify(b)
    eb = eol(it, s, b)
    # the first line break is not after one known
    p.assume(z3.Implies(z3.And(a <= b, eb == b), e <= b))
    if p.decide(e < b):
        return e
    return z3.IntVal(-1)


class Parsed:
    def __init__(self, text, holes=()):
        self.tree = sre_parse.parse(text)
        self.groups = self.tree.state.groups
        self.holes = list(holes)


def consumes_newline(tree):
    for op, av in tree:
        if op is C.LITERAL and av == 10 or op is C.NOT_LITERAL and av != 10 or op is C.ANY and False:
            return True
        if op is C.IN and in_class(av, 10):
            return True
        if op is C.BRANCH and any(consumes_newline(t) for t in av[1]):
            return True
        if op is C.SUBPATTERN and consumes_newline(av[3]):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and consumes_newline(av[2]):
            return True
        if op is C.GROUPREF or op in (C.ASSERT, C.ASSERT_NOT, C.AT, C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.BRANCH, C.SUBPATTERN, C.MAX_REPEAT, C.MIN_REPEAT):
            continue
        raise Unsupported(f'regular expression part {op}')
    return False


def in_class(items, code):
    """Is the character in the class?"""
    neg, hit = False, False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit = hit or av == code
        elif op is C.RANGE:
            hit = hit or av[0] <= code <= av[1]
        elif op is C.CATEGORY:
            name = str(av)
            space = chr(code).isspace()
            digit, word = chr(code).isdigit(), chr(code).isalnum() or chr(code) == '_'
            x = {'CATEGORY_SPACE': space, 'CATEGORY_NOT_SPACE': not space, 'CATEGORY_DIGIT': digit, 'CATEGORY_NOT_DIGIT': not digit,
                 'CATEGORY_WORD': word, 'CATEGORY_NOT_WORD': not word}.get(name)
            if x is None:
                raise Unsupported(f'regular expression class {av}')
            hit = hit or x
        else:
            raise Unsupported(f'regular expression class {op}')
    return hit != neg


def at_line_end(tree):
    """The pattern ends with (?=\\n|$)."""
    if not len(tree):
        return False
    op, av = tree[-1]
    if op is C.SUBPATTERN and av[0] is None:
        return at_line_end(av[3])
    if op is not C.ASSERT or av[0] != 1:
        return False
    alts = []
    for o, a in av[1]:
        if o is C.BRANCH and len(av[1]) == 1:
            alts = [list(t) for t in a[1]]
        else:
            return False
    return all(t in ([(C.LITERAL, 10)], [(C.AT, C.AT_END)], [(C.AT, C.AT_END_STRING)]) for t in alts)


class Walker:
    """Facts about the groups of one match."""

    def __init__(self, it, lo, hi, parsed):
        self.it, self.lo, self.hi, self.parsed = it, lo, hi, parsed
        self.facts = []

    def fresh(self):
        return self.it.p.fresh('taken', B)

    def part(self, g):
        return self.lo(g) >= 0

    def walk(self, tree, active, once, left, right):
        """left/right: position terms the match of tree lies between (None if it may be repeated)."""
        prev, gap = left, 0
        for op, av in tree:
            w = sre_parse.SubPattern(self.parsed.tree.state, [(op, av)]).getwidth()
            if op is C.SUBPATTERN:
                g, p = av[0], av[3]
                if g is None:
                    self.walk(p, active, once, None if prev is None else prev + gap, right)
                    gap += w[0]
                    continue
                here = self.part(g)
                self.facts.append(here == active if once else z3.Implies(here, active))
                a, b = self.lo(g), self.hi(g)
                size = [b - a >= w[0]] + ([b - a <= w[1]] if w[1] < BIG else [])
                if not consumes_newline(p):
                    pass
                self.facts.append(z3.Implies(here, z3.And(*size, a >= self.lo(0), b <= self.hi(0))))
                if once and prev is not None:
                    self.facts.append(z3.Implies(here, a >= prev + gap))
                self.walk(p, here, once, a if once else None, b)
                if once and len(p) and all(o is C.LITERAL for o, _ in p):
                    self.facts.append(z3.Implies(here, self.text(g) == z3.StringVal(''.join(chr(x) for _, x in p))))
                if once:
                    prev, gap = b, 0
                else:
                    gap += w[0]
                continue
            if op is C.BRANCH:
                takes = [self.fresh() for _ in av[1]]
                self.facts.append(z3.And(z3.Or(takes) == active, *[z3.Not(z3.And(x, y)) for k, x in enumerate(takes) for y in takes[k + 1:]]))
                for t, x in zip(av[1], takes):
                    self.walk(t, x, once, None if prev is None else prev + gap, right)
                gap += w[0]
                # what follows lies after whichever branch was taken: only the minimum width is used
                continue
            if op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                if has_group(p):
                    if hi == 1:
                        t = self.fresh() if lo == 0 else active
                        self.facts.append(z3.Implies(t, active))
                        self.walk(p, t, once, None if prev is None else prev + gap, right)
                    else:
                        self.walk(p, active, False, None, right)
                gap += w[0]
                continue
            gap += w[0]

    def text(self, g):
        if self.it.w.lines:
            return SUBSTR(self.s, self.lo(g), self.hi(g))
        return z3.SubString(self.s, self.lo(g), self.hi(g) - self.lo(g))


def has_group(tree):
    for op, av in tree:
        if op is C.SUBPATTERN and (av[0] is not None or has_group(av[3])):
            return True
        if op is C.BRANCH and any(has_group(t) for t in av[1]):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(av[2]):
            return True
    return False


def compiled(it, args):
    """re.compile of a computed pattern."""
    v = it.force(args[0])
    if len(args) > 1:
        raise Unsupported('regular expression flags')
    if isinstance(v, Const):
        return Const(re.compile(v.py))
    t = it.str_(v)
    text, holes = '', []
    parts = list(t.children()) if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else [t]
    flat = []
    while parts:
        x = parts.pop(0)
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
            parts = list(x.children()) + parts
        else:
            flat.append(x)
    for x in flat:
        if z3.is_string_value(x):
            text += literal(x)
        else:
            text += chr(HOLE + len(holes))
            holes.append(x)
    try:
        parsed = Parsed(text, holes)
    except re.error as e:
        raise Unsupported(f'computed pattern: {e}')
    it.p.session.assumed.add('text inserted into a computed pattern is taken to match itself (a run of dashes, or escaped text)')
    return Opaque('regex', term=t, parsed=parsed)


def literal(x):
    s = x.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


class RegexModel:
    def getattr(self, it, o, name):
        if name in HIT:
            return Opaque('regex-method', term=o.data['term'], parsed=o.data['parsed'], name=name)
        raise Unsupported(f'regular expression attribute {name}')

    def callable(self, it, o):
        return Const(False)


class RegexMethodModel:
    def call(self, it, o, args, kw):
        if kw:
            raise Unsupported('regular expression keyword arguments')
        name, P, parsed = o.data['name'], o.data['term'], o.data['parsed']
        s = it.str_(args[0])
        n = z3.Length(s)
        i = z3.IntVal(0)
        if len(args) > 1:
            i = it.int_(args[1])
            i = z3.simplify(z3.If(i < 0, 0, z3.If(i > n, n, i)))
            if it.p.implied(i == it.int_(args[1])):
                i = it.int_(args[1])
        if len(args) > 2:
            raise Unsupported('regular expression end position')
        p = it.p
        p.session.assumed.add('model of re (which groups take part, their order and widths: derived from the pattern\'s parse tree; the search itself is uninterpreted)')
        if not p.decide(HIT[name](P, s, i)):
            from .interp import NONE
            p.ghost['misses'] = p.ghost.get('misses', ()) + (dict(name=name, pattern=P, parsed=parsed, s=s, i=i),)
            return NONE

        def lo(g):
            return LO[name](P, s, i, z3.IntVal(g))

        def hi(g):
            return HI[name](P, s, i, z3.IntVal(g))
        w = Walker(it, lo, hi, parsed)
        w.s = s
        f = w.facts
        f.append(z3.And(i <= lo(0), lo(0) <= hi(0), hi(0) <= n, *([lo(0) == i] if name != 'search' else []), *([hi(0) == n] if name == 'fullmatch' else [])))
        for g in range(1, parsed.groups):
            f.append(z3.Implies(lo(g) < 0, z3.And(lo(g) == -1, hi(g) == -1)))
        width = parsed.tree.getwidth()
        f.append(hi(0) - lo(0) >= width[0])
        w.walk(parsed.tree, TRUE, True, lo(0), hi(0))
        p.ghost['matches'] = p.ghost.get('matches', ()) + (dict(name=name, pattern=P, parsed=parsed, s=s, i=i, lo=lo, hi=hi),)
        first = parsed.tree[0] if len(parsed.tree) else None
        if it.w.lines:
            if not at_line_end(parsed.tree):
                raise Unsupported('a pattern that does not end at the end of a line')
            if not consumes_newline(parsed.tree):
                f.append(eol(it, s, lo(0)) == hi(0))
            elif first[0] is C.LITERAL and first[1] == 10 and not consumes_newline(parsed.tree[1:]):
                f.append(z3.And(eol(it, s, lo(0)) == lo(0), lo(0) < n, eol(it, s, lo(0) + 1) == hi(0)))
            else:
                raise Unsupported('a pattern that spans lines')
        elif not consumes_newline(parsed.tree):
            f.append(z3.Not(z3.Contains(z3.SubString(s, lo(0), hi(0) - lo(0)), z3.StringVal('\n'))))
        if at_line_end(parsed.tree) and not it.w.lines:
            f.append(z3.Or(hi(0) == n, z3.SubString(s, hi(0), 1) == z3.StringVal('\n')))
        if first and first[0] is C.LITERAL and not it.w.lines:
            f.append(z3.SubString(s, lo(0), 1) == z3.StringVal(chr(first[1])))
        for x in f:
            p.assume(x)
        return Opaque('regex-match', lo=lo, hi=hi, s=s, groups=parsed.groups)


class MatchModel:
    def getattr(self, it, o, name):
        if name in ('group', 'span', 'start', 'end'):
            return Opaque('regex-match-method', match=o, name=name)
        raise Unsupported(f'match attribute {name}')


class MatchMethodModel:
    def call(self, it, o, args, kw):
        from .interp import NONE
        m = o.data['match'].data
        if len(args) > 1:
            raise Unsupported('several groups at once')
        g = 0
        if args:
            g = lit(it.int_(args[0]))
            if g is None:
                raise Unsupported('computed group number')
        if not 0 <= g < m['groups']:
            raise it.exc(IndexError, 'no such group')
        lo, hi = m['lo'](g), m['hi'](g)
        name = o.data['name']
        if name == 'start':
            return it.si(lo)
        if name == 'end':
            return it.si(hi)
        if name == 'span':
            return Tup([it.si(lo), it.si(hi)])
        if g and not it.p.decide(lo >= 0):
            return NONE
        if it.w.lines:
            t = SUBSTR(m['s'], lo, hi)
            it.p.assume(z3.Implies(z3.And(lo >= 0, lo <= hi), z3.Length(t) == hi - lo))
            return it.ss(t)
        return it.ss(z3.SubString(m['s'], lo, hi - lo))


MODELS = {'regex': RegexModel(), 'regex-method': RegexMethodModel(), 'regex-match': MatchModel(), 'regex-match-method': MatchMethodModel()}


def pattern(x):
    """A live compiled pattern as a value of the executor."""
    if x.flags & ~re.UNICODE:
        raise Unsupported('regular expression flags')
    return Opaque('regex', term=z3.StringVal(x.pattern), parsed=Parsed(x.pattern))
