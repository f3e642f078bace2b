"""Runs operation sequences on the real library and the reference model in step."""
import html
import json
import re

from . import model as mod
from .spec import Doc

REG_KW = {'upper': mod.LOADERS['upper'], 'long': mod.LOADERS['long'], 'zero': mod.LOADERS['zero']}
REG_DICT = {'none': mod.LOADERS['none'], 'invalid': mod.LOADERS['invalid']}


class Recorder:
    def __init__(self, name):
        self.name, self.calls = name, []

    def __call__(self, arg):
        self.calls.append(arg)
        return mod.LOADERS[self.name](arg)


def load_real():
    import enolib
    return enolib


_registered = {}


def register_all(enolib):
    """Registers loaders in every supported way; the sink collects calls."""
    if _registered.get('lib') is enolib:
        return _registered['sink']
    sink = []

    def logged(name):
        def loader(arg):
            sink.append(arg)
            return mod.LOADERS[name](arg)
        return loader
    named = logged('boom')
    named.__name__ = 'boom'
    same = logged('same')
    same.__name__ = 'same'
    enolib.register(upper=logged('upper'), long=logged('long'), zero=logged('zero'))
    enolib.register({'none': logged('none'), 'invalid': logged('invalid')}, named, {'list': logged('list')}, blank=logged('blank'))
    enolib.register(same)
    _registered['lib'], _registered['sink'] = enolib, sink
    return sink


REGISTERED = ['upper', 'long', 'zero', 'none', 'invalid', 'boom', 'list', 'blank', 'same']


def diff_json(a, b):
    return json.dumps(a, default=repr) != json.dumps(b, default=repr) or a != b


class Snippet:
    """Lines a rendered snippet shows: (number or None for an omission, marked, text)."""

    def __init__(self, rendered, reporter, source, messages):
        self.problems, self.rows = [], []
        getattr(self, reporter)(rendered, source, messages)

    def bad(self, why):
        self.problems.append(why)

    def text(self, s, source, messages):
        if source is not None:
            head = f'-- {source} --\n\n'
            if not s.startswith(head):
                return self.bad('no source header')
            s = s[len(head):]
        header, _, body = s.partition('\n')
        if messages.gutter_header not in header or messages.content_header not in header:
            self.bad(f'header {header!r}')
        for row in body.split('\n') if body else []:
            m = re.match(r'^ ([ >*?])\s*(\d+) \| (.*)$', row, re.S)
            if m:
                self.rows.append((int(m.group(2)), m.group(1), m.group(3)))
            elif row.strip() == '...':
                self.rows.append((None, None, None))
            else:
                self.bad(f'row {row!r}')

    def terminal(self, s, source, messages):
        s = re.sub('\x1b\\[\\d+m', '', s)
        if source:
            header, _, s = s.partition('\n')
            if not header.rstrip().endswith(source):
                self.bad(f'header {header!r}')
        for row in s.split('\n') if s else []:
            m = re.match(r'^ ([ >*?])\s+(\d+)  (.*)$', row, re.S)
            if m:
                self.rows.append((int(m.group(2)), m.group(1), m.group(3)))
            elif row.strip() == '...':
                self.rows.append((None, None, None))
            else:
                self.bad(f'row {row!r}')

    CLS = {'emphasized': '>', 'indicated': '*', 'questioned': '?', '': ' '}

    def html(self, s, source, messages):
        row = re.compile(r'<div class="eno-report-line ?(?:eno-report-line-(\w+))?"><div class="eno-report-gutter">(.*?)</div><div class="eno-report-content">(.*?)</div></div>\n?', re.S)
        pre = re.match(r'^(<div><div>.*?</div>)?<pre class="eno-report">(.*)</pre>(</div>)?$', s, re.S)
        if not pre:
            return self.bad('no eno-report block')
        if source and source not in (pre.group(1) or ''):
            self.bad('no source')
        pos, rows, body = 0, [], pre.group(2)
        while pos < len(body):
            m = row.match(body, pos)
            if not m:
                return self.bad(f'markup {body[pos:pos + 80]!r}')
            rows.append(m.groups())
            pos = m.end()
        if not rows or rows[0][1].strip() != messages.gutter_header or html.unescape(rows[0][2]) != messages.content_header:
            self.bad('header row')
        for cls, gutter, content in rows[1:]:
            if re.search('[<>"]', content) or re.search(r'&(?!(amp|lt|gt|quot|#x27|#39);)', content):
                self.bad(f'unescaped {content!r}')
            g = gutter.strip()
            if g == '...':
                self.rows.append((None, None, None))
            elif g.isdigit():
                self.rows.append((int(g), self.CLS.get(cls or '', '!'), html.unescape(content)))
            else:
                self.bad(f'gutter {g!r}')


def check_snippet(doc, rows, about):
    """rows against the document; about = line numbers that have to be marked."""
    n = doc.line_count
    shown = [(no, mark, text) for no, mark, text in rows if no is not None]
    numbers = [no for no, _, _ in shown]
    if numbers != sorted(set(numbers)):
        return f'line numbers not increasing: {numbers}'
    for no, mark, text in shown:
        if not 1 <= no <= n:
            return f'shows line {no} of {n}'
        b, e = doc.line_spans[no - 1]
        true = doc.text[b:e]
        if text != true and not (text == '' and true.strip() == ''):
            return f'line {no} shown as {text!r} instead of {true!r}'
    marked = {no for no, mark, _ in shown if mark != ' '}
    missing = sorted(no + 1 for no in about if no + 1 not in marked)
    if missing:
        return f'lines {missing} the error is about are not marked (marked: {sorted(marked)})'
    if not shown:
        return 'no lines shown'
    for no in marked:
        for k in range(max(1, no - 2), min(n, no + 2) + 1):
            if k not in numbers:
                return f'line {k} near marked line {no} is not shown'
    for no, mark, _ in shown:
        if mark == ' ' and not any(abs(no - k) <= 2 for k in marked):
            return f'line {no} is shown without a marked line near it'
    # omissions
    prev, omitted = 0, False
    for no, _, _ in rows + [(n + 1, None, None)]:
        if no is None:
            if omitted:
                return 'two omissions in a row'
            omitted = True
            continue
        if omitted != (no != prev + 1):
            return f'omission between {prev} and {no} is {"marked" if omitted else "not marked"}'
        prev, omitted = no, False
    return None


def check_error(doc, err):
    """C17's facts about any error."""
    sel = err.selection
    f, t = sel['from'], sel['to']
    if err.cursor != f:
        return f'cursor {err.cursor} is not the beginning of the selection {f}'
    if err.message != f'{err.text}\n\n{err.snippet}' or str(err) != err.message:
        return 'message is not text, blank line, snippet'
    for end in (f, t):
        i = end['index']
        if not 0 <= i <= len(doc.text):
            return f'index {i} outside of the document'
        line = doc.text.count('\n', 0, i)
        col = i - (doc.text.rfind('\n', 0, i) + 1)
        if (line, col) != (end['line'], end['column']):
            return f'{end} should be line {line}, column {col}'
    if f['index'] > t['index']:
        return 'selection ends before it begins'
    return None


class Session:
    def __init__(self, enolib, text, locale='en', reporter='text', source=None):
        import importlib
        self.lib = enolib
        self.messages = importlib.import_module('enolib.messages.' + locale)
        self.reporter_name, self.source = reporter, source
        reporters = importlib.import_module('enolib.reporters')
        rep = {'text': reporters.TextReporter, 'terminal': reporters.TerminalReporter, 'html': reporters.HtmlReporter}[reporter]
        self.doc = Doc(text)
        self.real_doc = enolib.parse(text, locale=self.messages, reporter=rep, source=source)
        self.env = mod.Env(self.doc, self.messages)
        root = mod.MSection(self.env, self.doc.root)
        self.pairs = [(root, self.real_doc)]
        self.diffs = []

    # ------------------------------------------------------------- operations
    def method(self, m, name):
        if isinstance(m, mod.MMissing):
            return mod.MISSING_OPS[m.kind].get(name)
        fn = getattr(type(m), 'op_' + name, None)
        return fn

    def note(self, aspect, why):
        self.diffs.append((aspect, why))

    def same(self, mv, rv, aspect, where):
        """Match a model result with a real one, registering new objects."""
        if isinstance(mv, (mod.M, mod.MMissing)):
            if rv is None or isinstance(rv, (str, int, list)):
                return self.note(aspect, f'{where}: {rv!r} instead of {describe(mv)}')
            for km, kr in self.pairs:
                if km is mv and kr is not rv:
                    return self.note('identity', f'{where}: another object than before for {describe(mv)}')
                if kr is rv and km is not mv:
                    return self.note('identity', f'{where}: the object of {describe(km)} instead of {describe(mv)}')
            if not any(km is mv for km, _ in self.pairs):
                self.pairs.append((mv, rv))
                kind = type(rv).__name__
                want = class_name(mv)
                if kind != want:
                    self.note(aspect, f'{where}: a {kind} instead of a {want}')
                elif isinstance(mv, mod.M):
                    if rv.raw() != mv.node.raw():
                        self.note(aspect, f'{where}: {rv.raw()!r} instead of {mv.node.raw()!r}')
            return
        if isinstance(mv, list) and isinstance(rv, list):
            if len(mv) != len(rv):
                return self.note(aspect, f'{where}: {len(rv)} results instead of {len(mv)}')
            for i, (a, b) in enumerate(zip(mv, rv)):
                self.same(a, b, aspect, f'{where}[{i}]')
            return
        if type(mv) is not type(rv) or mv != rv:
            self.note(aspect, f'{where}: {rv!r} instead of {mv!r}')

    def error(self, expected, err, where):
        """Compare an error object with the model's expectation."""
        bad = check_error(self.doc, err)
        if bad:
            self.note('selection', f'{where}: {bad}')
        index = 0
        spans = [tuple(s) for s in expected.sel]
        texts = expected.text
        got = (err.selection['from']['index'], err.selection['to']['index'])
        if len(spans) > 1 or len(texts) == 1:
            options = [i for i in range(len(spans)) if spans[i] == got]
            if not options:
                self.note('selection', f'{where}: selects {self.doc.text[got[0]:got[1]]!r} {got} instead of {[(s, self.doc.text[s[0]:s[1]]) for s in spans]}')
                if len(texts) == 1 and err.text != str(texts[0]):
                    self.note('text', f'{where}: {err.text!r} instead of {texts[0]!r}')
                elif err.text not in [str(t) for t in texts]:
                    self.note('text', f'{where}: {err.text!r} instead of {texts!r}')
            else:
                if not any(err.text == str(texts[min(i, len(texts) - 1)]) for i in options):
                    self.note('text', f'{where}: {err.text!r} instead of {[str(texts[min(i, len(texts) - 1)]) for i in options]!r}')
                index = options[0]
        else:
            if got != spans[0]:
                self.note('selection', f'{where}: selects {self.doc.text[got[0]:got[1]]!r} {got} instead of {spans[0]} {self.doc.text[spans[0][0]:spans[0][1]]!r}')
            if err.text not in [str(t) for t in texts]:
                self.note('text', f'{where}: {err.text!r} instead of {texts!r}')
        about = expected.about
        if isinstance(about, list):
            about = about[index]
        snip = Snippet(err.snippet, self.reporter_name, self.source, self.messages)
        bad = snip.problems[0] if snip.problems else check_snippet(self.doc, snip.rows, about)
        if bad:
            self.note('snippet', f'{where}: {bad}')

    def step(self, op):
        index, name, args = op['on'], op['do'], op.get('args', [])
        m, real = self.pairs[index]
        where = f'{describe(m)}.{name}({", ".join(map(show, args))}{show_kw(op)})'
        before = len(self.diffs)
        margs, rargs, rec = [], [], None
        generic = name
        reg = op.get('registered')
        for a in args:
            if isinstance(a, dict) and 'loader' in a:
                rec = Recorder(a['loader'])
                margs.append(a['loader'])
                rargs.append(rec)
            elif isinstance(a, dict) and 'message' in a:
                margs.append(a['message'])
                if a['message'] == 'F':
                    got = []

                    def message(x, got=got):
                        got.append(x)
                        return f'F({x})' if isinstance(x, (str, type(None))) else 'F!'
                    rec = message
                    rec.calls = got
                    rargs.append(message)
                else:
                    rargs.append(a['message'])
            else:
                margs.append(a)
                rargs.append(a)
        kwargs = dict(op.get('kw', {}))
        rkw = dict(kwargs)
        if rkw.get('message') == 'F':
            rkw['message'] = lambda element: 'F ' + json.dumps(element.raw())
        sink = None
        if reg:
            sink = register_all(self.lib)
            del sink[:]
            rargs = []
            rname = registered_name(name, reg)
            if not isinstance(m, mod.MMissing):
                margs = [reg]
        else:
            rname = name
        fn = self.method(m, generic)
        self.env.calls.clear()
        try:
            expected = fn(m, *margs, **kwargs)
            if not isinstance(expected, mod.Outcome):
                expected = mod.Outcome('value', expected)
        except mod.Raise as r:
            expected = r.outcome
        try:
            got, exc = getattr(real, rname)(*rargs, **rkw), None
        except Exception as e:
            got, exc = None, e
        calls = sink[:] if sink is not None else rec.calls if rec is not None else None
        if calls is not None:
            want = list(self.env.calls)
            if isinstance(m, mod.M) and generic == 'error':
                if [real] != calls and not (len(calls) == 1 and calls[0] is real):
                    self.note('calls', f'{where}: message called with {calls!r}')
                calls = want
            if calls != want:
                self.note('calls', f'{where}: called with {calls!r} instead of {want!r}')
        ve = self.lib.ValidationError
        if expected.kind == 'error':
            if type(got) is not ve:
                self.note('kind', f'{where}: {exc or got!r} instead of a ValidationError')
            else:
                if generic == 'error' and rec is not None:
                    expected.text = ['F!']
                self.error(expected, got, where)
        elif expected.kind == 'raise':
            if exc is None:
                self.note('kind', f'{where}: returned {got!r} instead of raising {expected}')
            elif expected.exc == 'ValidationError':
                if type(exc) is not ve:
                    self.note('kind', f'{where}: raised {exc!r} instead of a ValidationError')
                else:
                    self.error(expected, exc, where)
            elif expected.exc == 'TypeError':
                alt = getattr(expected, 'alternative', None)
                if alt is not None and type(exc) is ve:
                    self.error(alt, exc, where)
                elif type(exc) is not TypeError or expected.text not in re.findall(r'\w+', str(exc)):
                    self.note('kind', f'{where}: raised {exc!r} instead of a TypeError about {expected.text}')
            elif type(exc) is not type(expected.exc) or exc.args != expected.exc.args:
                self.note('passthrough', f'{where}: raised {exc!r} instead of {expected.exc!r}')
        else:
            if exc is not None:
                self.note('kind', f'{where}: raised {type(exc).__name__} ({getattr(exc, "text", exc)}) instead of returning {describe(expected.value)}')
            else:
                self.same(expected.value, got, 'value', where)
        return self.diffs[before:]


def registered_name(generic, name):
    if generic == 'key':
        return f'{name}_key'
    prefix, kind = generic.split('_', 1)
    return f'{prefix}_{name}_{kind}'


def show(a):
    if isinstance(a, dict):
        return next(iter(a)) + '=' + repr(next(iter(a.values())))
    return repr(a)


def show_kw(op):
    return ', '.join(f'{k}={v!r}' for k, v in op.get('kw', {}).items()) + (f' as registered {op["registered"]}' if op.get('registered') else '')


def describe(m):
    if isinstance(m, mod.MMissing):
        return f'missing {m.kind} {m.key!r}'
    if isinstance(m, mod.M):
        return f'{m.kind} of {m.node!r}'
    return repr(m)


def class_name(m):
    if isinstance(m, mod.MMissing):
        return {'element': 'MissingSectionElement', 'empty': 'MissingEmpty', 'field': 'MissingField', 'fieldset': 'MissingFieldset', 'list': 'MissingList',
                'section': 'MissingSection', 'fieldset_entry': 'MissingFieldsetEntry'}[m.kind]
    return {'element': 'SectionElement', 'empty': 'Empty', 'field': 'Field', 'fieldset': 'Fieldset', 'list': 'List', 'section': 'Section',
            'entry': 'FieldsetEntry', 'item': 'ListItem'}[m.kind]


# ------------------------------------------------------------------ op choice
COMMENT_OPS = ['optional_comment', 'required_comment', 'optional_string_comment', 'required_string_comment']
ERROR_OPS = ['error', 'comment_error', 'key_error', 'value_error']
SINGLE = [p + k for k in ('element', 'empty', 'field', 'fieldset', 'list', 'section', 'entry') for p in ('', 'optional_', 'required_')]
PLURAL = ['elements', 'fields', 'fieldsets', 'lists', 'sections', 'entries', 'items', 'length']
VALUE_OPS = ['optional_value', 'required_value', 'optional_string_value', 'required_string_value', 'optional_values', 'required_values',
             'optional_string_values', 'required_string_values']
CONVERT = ['to_' + k for k in ('empty', 'field', 'fieldset', 'list', 'section')]
YIELDS = ['yields_' + k for k in ('empty', 'field', 'fieldset', 'list', 'section')]
KEY_OPS = ['key', 'string_key']
STATE = ['touch', 'all_elements_required', 'all_entries_required', 'assert_all_touched']
GROUPS = {'single': SINGLE, 'plural': PLURAL, 'value': VALUE_OPS, 'comment': COMMENT_OPS, 'key': KEY_OPS, 'error': ERROR_OPS, 'convert': CONVERT,
          'yields': YIELDS, 'touch': ['touch'], 'require': ['all_elements_required', 'all_entries_required'], 'assert': ['assert_all_touched'],
          'parent': ['parent'], 'raw': ['raw']}
LOADER_OPS = {'optional_comment', 'required_comment', 'key', 'optional_value', 'required_value', 'optional_values', 'required_values'}


def available(session, m):
    if isinstance(m, mod.MMissing):
        return set(mod.MISSING_OPS[m.kind])
    ops = {n[3:] for n in dir(type(m)) if n.startswith('op_')}
    if m.node.kind == 'document':
        ops -= {'key', 'string_key', 'key_error'}
    if isinstance(m, mod.MElement):
        ops -= {'parent'}
    return ops


def keys_in(m):
    if isinstance(m, mod.MSection):
        return [e.key for e in m.node.content()]
    if isinstance(m, mod.MFieldset):
        return [e.key for e in m.node.all_entries()]
    return []


def choose(r, session, weights, only=None):
    """A random applicable operation; weights: group -> weight; only(m) filters objects."""
    for _ in range(30):
        pool = [i for i, (m, _) in enumerate(session.pairs) if only is None or only(m)]
        if not pool:
            return None
        i = r.choice(pool) if r.random() < .5 else r.choice(pool[-4:]) if r.random() < .7 else pool[0]
        m = session.pairs[i][0]
        groups = [g for g in weights if not g.startswith('_')]
        group = r.choices(groups, [weights[g] for g in groups])[0]
        ops = sorted(set(GROUPS[group]) & available(session, m))
        if ops:
            break
    else:
        return None
    if isinstance(m, mod.MElement) and group == 'convert' and r.random() < .7:
        fitting = [o for o in ops if m.yields(o[3:])]
        ops = fitting or ops
    name = r.choice(ops)
    op = {'on': i, 'do': name}
    missing = isinstance(m, mod.MMissing)
    if name in LOADER_OPS:
        if r.random() < weights.get('_registered', .25) if '_registered' in weights else r.random() < .2:
            op['registered'] = r.choice(REGISTERED)
        else:
            op['args'] = [{'loader': r.choice(list(mod.LOADERS))}]
        if missing and op.get('registered') is None and name != 'key' and r.random() < .2:
            op['args'] = [{'loader': 'upper'}]
    elif name in ERROR_OPS:
        op['args'] = [{'message': r.choice(['wrong', 'F', 'a "quoted" <b>', '50% {x}'])}]
    elif name in ('all_elements_required', 'all_entries_required'):
        op['args'] = r.choice([[], [True], [True], [False], [False]])
    elif name == 'assert_all_touched':
        kw = {}
        if r.random() < .4:
            kw['message'] = r.choice(['custom', 'F'])
        ks = keys_in(m)
        if ks and r.random() < .35:
            kw[r.choice(['only', 'skip'])] = r.sample(ks, r.randint(1, min(3, len(ks))))
            if r.random() < .2:
                kw[r.choice(['only', 'skip'])] = [r.choice(ks)]
        elif r.random() < .05:
            kw[r.choice(['only', 'skip'])] = r.choice([[], ['nope']])
        op['kw'] = kw
    elif name in SINGLE or name in PLURAL:
        if name in ('items', 'length'):
            pass
        elif missing:
            op['args'] = r.choice([['x'], [], ['a b']]) if not name.startswith('optional_') else ['x']
        else:
            ks = keys_in(m)
            base = name.split('_')[-1].rstrip('s')
            if isinstance(m, mod.MSection) and r.random() < .5:
                fit = [e.node.key for e in m.elements() if base == 'element' or e.node.type() in mod.COMPATIBLE.get(base, ())]
                ks = fit or ks
            k = r.random()
            if ks and k < .72:
                op['args'] = [r.choice(ks)]
            elif k < .85 or name.startswith('optional_'):
                op['args'] = [r.choice(['nope', 'a', 'b', None])] if not (name.startswith('optional_')) else [r.choice(['nope', 'a', None])]
            else:
                op['args'] = []
    if blocked(m, name, op):
        return choose(r, session, weights, only)
    return op


def converting(name):
    base = name.replace('optional_', '').replace('required_', '').rstrip('s')
    return base if base in ('empty', 'field', 'fieldset', 'list', 'section') else None


def blocked(m, name, op):
    """Operations whose outcome the properties leave open are not generated."""
    return False


def run_ops(session, ops):
    out = []
    for op in ops:
        out += [(op['do'], a, w) for a, w in session.step(op)]
        if out:
            break
    return out
