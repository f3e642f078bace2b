"""Document generators (all randomness from the given random.Random)."""
import itertools

KEYS = ['a', 'b', 'c', 'key', 'e', 'f g', 'h: i', '- j', '# k', 'l`m', '`n', 'ä', 'x < y', '> q', 'o = p', 'items', 'a b c', '\\d', '|p', '0', '()', '.*', 'a+']
PLAIN = ['a', 'b', 'c', 'e', 'key', 'o', 'p']
VALUES = ['v', '1', 'some value', 'a longer value than fourteen', 'x < y', '- z', ': w', '`q`', '# s', 'ünï', '<b>&"\'', '0', '| r', '> c', '-- d', '\\ t', 'a\tb', 'x  y', '=', "it's", '%s', '{0}', '\u2028z']
WSP = ['', '', '', ' ', '  ', '\t', '   ', '\u00a0', '\x0b', '\u2003', ' \t ']


def ws(r, p=0.25):
    return r.choice(WSP) if r.random() < p else ''


def sp(r):
    return ' ' if r.random() < .8 else r.choice(WSP)


def plain_ok(key):
    return not any(ch in key for ch in ':=<') and key[0] not in '>#-`\\|'


def section_plain_ok(key):
    return '<' not in key and key[0] != '`'


def escaped(r, key):
    n = 1
    while '`' * n in key:
        n += 1
    n += r.choice([0, 0, 0, 1, 2])
    q = '`' * n
    pad = ' ' if key[0] == '`' or key[-1] == '`' else r.choice(['', '', ' ', '  '])
    return q + pad + key + pad + q


def fmt_key(r, key, section=False):
    if (section_plain_ok(key) if section else plain_ok(key)) and r.random() < .8:
        return key
    return escaped(r, key)


def pick_key(r, style):
    if style == 'plain':
        return r.choice(PLAIN)
    if style == 'few':
        return r.choice('ab')
    return r.choice(KEYS)


def value_tail(r):
    if r.random() < .2:
        return ws(r)
    return sp(r) + r.choice(VALUES) + ws(r)


def comment_lines(r, style):
    if r.random() > style['comments']:
        return []
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 4, 5])):
        indent = r.choice(['', '', '  ', ' '])
        if r.random() < .25:
            out.append(indent + '>' + ws(r))
        else:
            out.append(indent + '>' + r.choice(['', ' ', '  ', '    ', '\t']) + r.choice(VALUES + ['comment']) + ws(r))
    if r.random() < style['detach']:
        out.append(r.choice(['', '  ', '']))
    return out


def cont_lines(r, style):
    out = []
    while r.random() < style['conts'] and len(out) < 6:
        out += comment_lines(r, style) if r.random() < .1 else []
        if r.random() < style['blank']:
            out.append('')
        out.append(ws(r) + r.choice('|\\') + (value_tail(r) if r.random() < .75 else ws(r)))
    return out


def multiline_lines(r, style):
    n = r.choice([2, 2, 2, 3, 4, 7])
    key = pick_key(r, style['keys'])
    if key.startswith('-'):
        key = 'm' + key
    body = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        body.append(r.choice(['', '   ', 'text', '  indented', 'key: value', '> c', '# s', '- i', '-- other', '-' * (n + 1) + ' ' + key,
                              '-' * n + ' ' + key + 'x', '-' * max(2, n - 1) + ' y', key, '| w', '`', 'a\tb ', '-' * n]))
    if n > 2:
        body = [b for b in body]
    close = ws(r) + '-' * n + sp(r) + key + ws(r)
    return [ws(r) + '-' * n + sp(r) + key + ws(r)] + body + [close]


STYLES = {
    'mixed': dict(comments=.25, detach=.2, conts=.35, blank=.1, keys='any', copies=.0, depth=3, kinds='eflmsx'),
    'plain': dict(comments=.1, detach=.2, conts=.2, blank=.1, keys='plain', copies=.0, depth=3, kinds='eflmsx'),
    'copies': dict(comments=.15, detach=.1, conts=.2, blank=.05, keys='plain', copies=.55, depth=2, kinds='eflmsx'),
    'sections': dict(comments=.1, detach=.1, conts=.1, blank=.05, keys='few', copies=.6, depth=3, kinds='fsss'),
    'comments': dict(comments=.8, detach=.2, conts=.2, blank=.1, keys='plain', copies=.2, depth=2, kinds='eflmsx'),
    'values': dict(comments=.1, detach=.1, conts=.8, blank=.2, keys='any', copies=.1, depth=1, kinds='fffexl'),
    'multiline': dict(comments=.1, detach=.1, conts=.1, blank=.1, keys='any', copies=.2, depth=1, kinds='mmmf'),
}


def gen(r, style='mixed', size=8, noise=.03):
    """A mostly valid document with about size elements."""
    st = STYLES[style]
    named, out = [], []            # named: (key, is_section)
    uniq = itertools.count()

    def fresh():
        if st['copies'] and r.random() < .75:
            return r.choice(['t', 'u', 'k']) + str(next(uniq))
        return pick_key(r, st['keys'])

    plan = []
    depth = 0
    ladder = 's' in st['kinds'] and r.random() < .07      # long descents and drops over many levels
    for _ in range(r.randint(0, size) + (8 if ladder else 0)):
        kind = r.choice(st['kinds'] + ('ssss' if ladder else ''))
        if kind == 's':
            d = depth + 1 if ladder and depth < 9 and r.random() < .75 else r.randint(1, min(depth + 1, 9 if ladder else st['depth']))
            depth = d
            plan.append(['s', fresh(), d])
        elif kind == 'm':
            plan.append(['m', None, 0])
        else:
            plan.append([kind, fresh(), 0])
    elems = [p[1] for p in plan if p[0] in 'eflx'] or ['a']
    ml = []
    sects = [p[1] for p in plan if p[0] == 's'] or ['a']
    for p in plan:
        kind, key = p[0], p[1]
        if r.random() < st['blank'] * 2:
            out.append(r.choice(['', '', '  ', '\t']))
        out += comment_lines(r, st)
        copying = r.random() < st['copies']
        if kind == 's':
            text = ws(r) + '#' * p[2] + sp(r) + fmt_key(r, key, True)
            if not text.rstrip().endswith('`') and '#' * p[2] == text.rstrip():
                text += 'a'
            if copying:
                text += ' ' + r.choice(['<', '<', '<<']) + sp(r) + (r.choice(sects) if r.random() < .93 else 'zz')
            out.append(text + ws(r))
            continue
        if kind == 'm':
            lines = multiline_lines(r, st)
            out += lines
            elems.append(lines[-1].strip().lstrip('-').strip())
            continue
        head = ws(r) + fmt_key(r, key) + ws(r)
        if copying:
            out.append(head + '<' + sp(r) + (r.choice(elems) if r.random() < .93 else 'zz') + ws(r))
        elif kind == 'f':
            out.append(head + ':' + (value_tail(r) if r.random() < .7 else ws(r)))
            out += cont_lines(r, st)
            continue
        else:
            out.append(head + ':' + ws(r))
        if kind in 'lx':
            used = []
            for _ in range(r.randint(0, 3)):
                out += comment_lines(r, st) if r.random() < .4 else []
                if r.random() < st['blank']:
                    out.append('')
                if kind == 'l':
                    out.append(ws(r) + '-' + (value_tail(r) if r.random() < .85 else ws(r)))
                else:
                    k = pick_key(r, 'few' if st['keys'] != 'any' else 'any')
                    out.append(ws(r) + fmt_key(r, k) + ws(r) + '=' + value_tail(r))
                out += cont_lines(r, st)
    if r.random() < .3:
        out += comment_lines(r, st)
    for _ in range(1):
        if out and r.random() < noise * 5:
            out.insert(r.randint(0, len(out)), r.choice(NOISE))
        if out and r.random() < noise:
            del out[r.randrange(len(out))]
    text = '\n'.join(out)
    if r.random() < .35:
        text += '\n'
    if r.random() < .05:
        text = '\n' + text
    return text


NOISE = ['junk', '``x', '#', '--', '--- z', '- stray', 'stray = e', '| stray', '\\ stray', '### deep', '# `a', '< t', ': v', '= v', '   `k', '## `x` y', 'a <', '# a <', '# a <<<', '`a` `b`: c',
         '-- unclosed', '>', '', 'a << b']
LINES = ['', '> c', '>   d', '| v', '\\ w', '|', '- i', 'a = e', 'b = e', 'a: v', 'b:', 'b < a', 'a < a', '# S', '## T', '# T < S', '## S << T', '-- m', 'junk', '`x', '### U', '# S < T']
CHARS = ['a', ' ', ':', '=', '<', '>', '#', '-', '`', '|', '\\', '\n']


def exhaustive_lines(n):
    for k in range(n + 1):
        for combo in itertools.product(LINES, repeat=k):
            yield '\n'.join(combo)


def exhaustive_chars(n):
    for k in range(n + 1):
        for combo in itertools.product(CHARS, repeat=k):
            yield ''.join(combo)


def wild(r, n):
    return ''.join(r.choice(CHARS + ['\n', 'b', '``', '--', '##', '<<', '\t', '\u00a0', '\r', '\x0c', 'ä', '\u2028', '\x85']) for _ in range(r.randint(0, n)))


def any_doc(r):
    k = r.random()
    if k < .08:
        return wild(r, 30)
    if k > .88:
        return deep(r)
    if k < .16:
        return '\n'.join(r.choice(LINES + NOISE) for _ in range(r.randint(0, 8)))
    style = r.choice(list(STYLES))
    size = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    return gen(r, style, size, r.choice([0, .03, .1]))


def long_doc(r):
    """Documents whose line numbers have several digits."""
    pad = r.choice([5, 95, 98, 995, 998])
    body = gen(r, 'plain', 8, r.choice([0, .2]))
    filler = r.choice(['', '> x', 'fill: x'])
    return '\n'.join([filler] * pad + [body])


def deep(r):
    """Sections merged deeply along chains of copies."""
    tops = ['T%d' % i for i in range(r.randint(2, 4))]
    out = []

    def body(depth, room):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice('abc')
            if r.random() < .1:
                out.append('> c%d' % len(out))
            kind = r.choice('ffel')
            out.append(k + ':' + (' %d' % len(out) if kind == 'f' else ''))
            if kind == 'l':
                out.append('- i%d' % len(out))
        if depth < 4:
            for _ in range(r.choice([0, 1, 1, 2] if depth < 3 else [0, 0, 1])):
                if r.random() < .15:
                    out.append('> c%d' % len(out))
                own = r.random()
                name = r.choice('abc') if own < .9 else 'u%d' % len(out)
                copy = ''
                if r.random() < .06:
                    copy = r.choice([' < ', ' << ']) + r.choice(tops + [name])
                out.append('#' * depth + ' ' + name + copy)
                body(depth + 1, room)
    for i, t in enumerate(tops):
        others = [o for o in tops if o != t] if r.random() < .1 else tops[:i] if r.random() < .5 else tops[i + 1:]
        copy = r.choice([' << ', ' << ', ' << ', ' < ']) + r.choice(others) if others and r.random() < .8 else ''
        if r.random() < .2:
            out.append('> top%d' % i)
        out.append('# ' + t + copy)
        body(2, 3)
    return '\n'.join(out)
