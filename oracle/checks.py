"""Executable contracts per property: case generators and judges.

A case is JSON; judge(prop, case) returns None or a description of how the real
library violates the property on that input.
"""
import importlib
import json
import random
import re
import signal

from . import driver, gen, model as mod
from .spec import Doc, classify, split_lines

OWNER = {
    'invalid_line': 'C02', 'unterminated_escaped_key': 'C02', 'section_hierarchy_layer_skip': 'C03',
    'missing_list_for_list_item': 'C04', 'missing_fieldset_for_fieldset_entry': 'C04', 'missing_element_for_continuation': 'C04',
    'unterminated_multiline_field': 'C06', 'non_section_element_not_found': 'C10', 'section_not_found': 'C10',
    'two_or_more_templates_found': 'C10', 'cyclic_dependency': 'C10',
}
LOCALES, REPORTERS = ['en', 'de', 'es'], ['text', 'terminal', 'html']


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def lib():
    return driver.load_real()


def message_kind(messages, text):
    for name in OWNER:
        fn = getattr(messages, name)
        n = fn.__code__.co_argcount
        marks = [f'\x00{i}\x00' for i in range(n)]
        pattern = re.escape(fn(*marks))
        for m in marks:
            pattern = pattern.replace(re.escape(m), r'(.*)')
        if re.fullmatch(pattern, text, re.S):
            return name
    return None


def parse_outcome(text, locale='en', reporter='text', source=None):
    enolib = lib()
    messages = importlib.import_module('enolib.messages.' + locale)
    reporters = importlib.import_module('enolib.reporters')
    rep = {'text': reporters.TextReporter, 'terminal': reporters.TerminalReporter, 'html': reporters.HtmlReporter}[reporter]
    try:
        with limit(10):
            return enolib.parse(text, locale=messages, reporter=rep, source=source), None
    except Hang:
        return None, TimeoutError('no result after 10 seconds')
    except MemoryError:
        return None, MemoryError('out of memory')
    except Exception as e:
        return None, e


# ---------------------------------------------------------------- doc properties
def skeleton(raw):
    out = [raw['type'] in ('section', 'document') and raw['type'], raw.get('key')]
    if 'elements' in raw:
        out.append([skeleton(e) for e in raw['elements']])
    return out


def attachment(raw):
    squeeze = lambda v: None if v is None else re.sub(r'\s', '', v)
    out = [raw['type'], raw.get('key')]
    if 'value' in raw:
        out.append(squeeze(raw['value']))
    for part in ('items', 'entries', 'elements'):
        if part in raw:
            out.append([attachment(e) for e in raw[part]])
    return out


def values(raw):
    if 'value' in raw:
        return raw['value']
    return [values(e) for part in ('items', 'entries', 'elements') for e in raw.get(part, [])]


def comments(raw):
    return [raw.get('comment')] + [comments(e) for part in ('items', 'entries', 'elements') for e in raw.get(part, [])]


def whole(raw):
    return raw


def uncommented(raw):
    return {k: [uncommented(e) for e in v] if isinstance(v, list) else v for k, v in raw.items() if k != 'comment'}


VIEWS = {'C02': whole, 'C03': skeleton, 'C04': attachment, 'C05': values, 'C06': values, 'C07': comments, 'C08': uncommented, 'C09': uncommented, 'C10': None, 'C01': None,
         'C12': whole}


def nodes_of(doc):
    yield doc.root
    for n in doc.every():
        yield n
        yield from n.items
        yield from n.entries


def judge_doc(prop, text, locale='en', reporter='text', source=None):
    got, err = parse_outcome(text, locale, reporter, source)
    pe = lib().ParseError
    if err is not None and type(err) is not pe:
        return f'parsing raises {type(err).__name__}: {err}'
    if prop == 'C01':
        return None
    doc = Doc(text)
    messages = importlib.import_module('enolib.messages.' + locale)
    if doc.problems:
        names = {p.name for p in doc.problems}
        first = doc.problems[0]
        if err is None:
            return f'accepted although {first}' if OWNER[first.name] == prop or prop in ('C08',) and OWNER[first.name] == 'C04' and first.name.startswith('missing_') and any(n.target for n in doc.every()) else None
        kind = message_kind(messages, err.text)
        mine = {OWNER.get(kind, prop)} | {OWNER[n] for n in names}
        if kind not in names:
            return f'fails with {err.text!r} instead of {doc.problems}' if prop in mine else None
        if OWNER[kind] == prop or prop == 'C02' and OWNER[kind] == 'C02' or prop == 'C08' and kind.startswith('missing_'):
            expected = [getattr(messages, p.name)(*p.args) for p in doc.problems]
            if err.text not in expected:
                return f'fails with {err.text!r} instead of {expected}'
            line = [p.line for p in doc.problems if getattr(messages, p.name)(*p.args) == err.text]
            if err.selection['from']['line'] not in line:
                return f'error selects line {err.selection["from"]["line"]} instead of {line}'
            if kind == 'unterminated_multiline_field' and doc.text[err.selection['from']['index']:err.selection['to']['index']] != doc.text[doc.line_spans[first.line][0]:doc.line_spans[first.line][1]]:
                return 'error does not select the opening line'
        return None
    if err is not None:
        kind = message_kind(messages, err.text)
        if OWNER.get(kind, prop) == prop or prop == 'C08' and kind and kind.startswith('missing_') and any(n.target for n in doc.every()):
            return f'rejected with {err.text!r}'
        return None
    view = VIEWS.get(prop)
    if view is None:
        return None
    try:
        with limit(10):
            real = got.raw()
    except Hang:
        return 'raw() does not terminate'
    except Exception as e:
        return f'raw() raises {type(e).__name__}: {e}'
    want = view(doc.root.raw())
    have = view(real)
    if want != have:
        return 'reads as ' + json.dumps(have, ensure_ascii=False) + ' instead of ' + json.dumps(want, ensure_ascii=False)
    if prop in ('C08', 'C09', 'C07', 'C05', 'C06', 'C12', 'C02'):
        return judge_queries(prop, got, doc)
    if prop in ('C03', 'C04'):
        bad = judge_queries(prop, got, doc)
        return bad
    return None


def judge_queries(prop, document, doc):
    """The query API (not only raw()) presents the resolved content."""
    def fail(where, got, want):
        return f'{where}: {got!r} instead of {want!r}'

    def visit(real, node, path):
        if prop == 'C07' and node.kind != 'document':
            c = real.optional_string_comment()
            if c != node.comment():
                return fail(path + ' comment', c, node.comment())
        t = node.type()
        if t in ('section', 'document'):
            elems = real.elements()
            content = node.content()
            keys = [e.string_key() for e in elems]
            if keys != [n.key for n in content]:
                return fail(path + ' elements', keys, [n.key for n in content])
            for e, n in zip(elems, content):
                kind = {'multiline': 'field'}.get(n.type(), n.type())
                if not getattr(e, 'yields_' + kind)():
                    return f'{path}/{n.key} is no {kind}'
                bad = visit(getattr(e, 'to_' + kind)(), n, f'{path}/{n.key}')
                if bad:
                    return bad
            for k in {n.key for n in content}:
                want = [i for i, n in enumerate(content) if n.key == k]
                sub = real.elements(k)
                if len(sub) != len(want) or any(sub[j] is not elems[i] for j, i in enumerate(want)):
                    return f'{path}.elements({k!r}) are not the elements with that key in order'
        elif t == 'list':
            items, content = real.items(), node.all_items()
            if len(items) != len(content):
                return fail(path + ' items', len(items), len(content))
            for i, (e, n) in enumerate(zip(items, content)):
                bad = visit(e, n, f'{path}[{i}]')
                if bad:
                    return bad
        elif t == 'fieldset':
            entries, content = real.entries(), node.all_entries()
            keys = [e.string_key() for e in entries]
            if keys != [n.key for n in content]:
                return fail(path + ' entries', keys, [n.key for n in content])
            for e, n in zip(entries, content):
                bad = visit(e, n, f'{path}/{n.key}')
                if bad:
                    return bad
            for k in {n.key for n in content}:
                want = [i for i, n in enumerate(content) if n.key == k]
                sub = real.entries(k)
                if len(sub) != len(want) or any(sub[j] is not entries[i] for j, i in enumerate(want)):
                    return f'{path}.entries({k!r}) are not the entries with that key in order'
        elif t != 'empty' and prop not in ('C03', 'C07'):
            v = real.optional_string_value()
            w = node.value()
            if prop == 'C04':
                v, w = (None if x is None else re.sub(r'\s', '', x) for x in (v, w))
            if v != w:
                return fail(path + ' value', v, w)
        return None
    try:
        with limit(10):
            return visit(document, doc.root, '')
    except Hang:
        return 'queries do not terminate'
    except Exception as e:
        return f'queries raise {type(e).__name__}: {e}'


def judge_parse_error(prop, text, locale, reporter, source):
    """C17 and C18 for parse errors."""
    got, err = parse_outcome(text, locale, reporter, source)
    if err is None or type(err) is not lib().ParseError:
        return None
    doc = Doc(text)
    messages = importlib.import_module('enolib.messages.' + locale)
    fitting = [p for p in doc.problems if getattr(messages, p.name)(*p.args) == err.text]
    if prop == 'C17':
        bad = driver.check_error(doc, err)
        if bad:
            return bad
        span = (err.selection['from']['index'], err.selection['to']['index'])
        if fitting and span not in [tuple(p.selection) for p in fitting]:
            return f'{err.text!r} selects {text[span[0]:span[1]]!r} {span} instead of {[(tuple(p.selection), text[p.selection[0]:p.selection[1]]) for p in fitting]}'
        return None
    snip = driver.Snippet(err.snippet, reporter, source, messages)
    if snip.problems:
        return f'{reporter} snippet: {snip.problems[0]}'
    line = err.selection['from']['line']
    about = {line}
    if fitting and any(p.name == 'two_or_more_templates_found' for p in fitting):
        marked = {no for no, mark, _ in snip.rows if no is not None and mark != ' '}
        copies = [n for n in doc.every() if n.template is not None and n.line.no == line]
        for c in copies:
            cands = [n.no + 1 for n in doc.every() if (n.kind == 'section') == (c.kind == 'section') and n.key == c.template and n.template != n.key]
            if sum(no in marked for no in cands) < 2:
                return f'{reporter} snippet marks {sorted(marked)}, not two of the templates in lines {cands}'
    bad = driver.check_snippet(doc, snip.rows, about)
    if bad:
        return f'{reporter} snippet: {bad}'
    rows = snip.rows
    for other in REPORTERS:
        if other == reporter:
            continue
        _, e2 = parse_outcome(text, locale, other, source)
        if e2 is None:
            return f'no error with the {other} reporter'
        if type(e2) is not lib().ParseError:
            return f'{other} reporter raises {e2!r}'
        s2 = driver.Snippet(e2.snippet, other, source, messages)
        if s2.problems:
            return f'{other} snippet: {s2.problems[0]}'
        if [(a, b) for a, b, _ in s2.rows] != [(a, b) for a, b, _ in rows]:
            return f'{other} reporter shows {[(a, b) for a, b, _ in s2.rows]}, {reporter} reporter {[(a, b) for a, b, _ in rows]}'
    return None


# -------------------------------------------------------------------- lookup
TOKENS_SKIP = ()


def lookup_expected(doc, index):
    """(node, token) at an index."""
    text = doc.text
    lineno = text.count('\n', 0, index)
    owner = doc.root
    line_of = {}
    for l in doc.lines:
        line_of[l.no] = l
    for e in doc.every():
        if e.line.no > lineno:
            break
        if e.kind == 'section':
            owner = e
            continue
        last = e.last_line().no
        if e.line.no <= lineno <= last:
            owner = e
            for child in e.items + e.entries:
                if child.line.no <= lineno <= child.last_line().no:
                    owner = child
            return owner, token(line_of.get(lineno), index)
    return owner, token(line_of.get(lineno), index)


def token(line, index):
    if line is None:
        return None
    for name, (b, e) in line.ranges.items():
        if b == index:
            return name
    for name, (b, e) in line.ranges.items():
        if b < index <= e:
            return name
    return None


def innermost_section(doc, lineno):
    owner = doc.root
    for e in doc.every():
        if e.line.no <= lineno and e.kind == 'section':
            owner = e
    return owner


def judge_lookup(text, positions, locale='en', reporter='text'):
    enolib = lib()
    doc = Doc(text)
    got, err = parse_outcome(text)
    if doc.problems or err is not None:
        return None
    opts = {}
    n = len(text)

    def ask(**pos):
        try:
            with limit(10):
                return enolib.lookup(text, **pos), None
        except Hang:
            return None, 'does not terminate'
        except Exception as e:
            return None, e
    for bad in ({'index': -1}, {'index': n + 1}, {'line': -1, 'column': 0}, {'line': doc.line_count, 'column': 0}, {'index': n + 7}):
        _, e = ask(**bad)
        if type(e) is not IndexError:
            return f'lookup({bad}) gives {e!r} instead of an IndexError'
    for i in positions:
        if i > n:
            continue
        lineno = text.count('\n', 0, i)
        col = i - (text.rfind('\n', 0, i) + 1)
        node, tok = lookup_expected(doc, i)
        for pos in ({'index': i}, {'line': lineno, 'column': col}):
            res, e = ask(**pos)
            if e is not None:
                return f'lookup({pos}) raises {e!r}'
            elem = res['element']
            if res['range'] != tok:
                return f'lookup({pos}) finds the token {res["range"]!r} instead of {tok!r}'
            if not same_place(elem, node):
                return f'lookup({pos}) finds {elem.raw()!r} instead of {node!r}'
    return None


def same_place(elem, node):
    try:
        if node.kind == 'document':
            return elem.raw() == node.raw()
        sel = elem.error('x').selection
        return (sel['from']['index'], sel['to']['index']) == (node.line.begin, node.last_line().end) and elem.raw() == node.raw()
    except Exception:
        return False


# ------------------------------------------------------------------- locales
def judge_locales():
    import ast
    import inspect
    import os
    import string
    mods = {}
    for name in LOCALES:
        try:
            mods[name] = importlib.import_module('enolib.messages.' + name)
        except Exception as e:
            return f'locale {name}: {e!r}'
    pkg = os.path.dirname(mods['en'].__file__)
    for f in sorted(os.listdir(pkg)):
        if f.endswith('.py') and f != '__init__.py' and f[:-3] not in mods:
            mods[f[:-3]] = importlib.import_module('enolib.messages.' + f[:-3])
    names = {n: {k for k in vars(m) if not k.startswith('_')} for n, m in mods.items()}
    for n in mods:
        if names[n] != names['en']:
            return f'{n} and en define different messages: {sorted(names[n] ^ names["en"])}'
    for k in sorted(names['en']):
        params = None
        for n, m in mods.items():
            v = getattr(m, k)
            if callable(v):
                p = list(inspect.signature(v).parameters)
                marks = [f'<<{i}>>' for i in range(len(p))]
                try:
                    out = v(*marks)
                except Exception as e:
                    return f'{n}.{k} raises {e!r}'
                if not isinstance(out, str) or any(x not in out for x in marks):
                    return f'{n}.{k} renders {out!r} without all of {p}'
                # rendering numbers and exceptions too
                out = v(*[ValueError(x) for x in marks])
                if any(x not in out for x in marks):
                    return f'{n}.{k} renders {out!r}'
                for i in range(len(p)):
                    one = v(*[chr(0x100 + j) for j in range(len(p))])
                    if chr(0x100 + i) not in one:
                        return f'{n}.{k} does not render {p[i]}'
            else:
                p = None
                if not isinstance(v, str) or not v.strip():
                    return f'{n}.{k} is {v!r}'
            if params is None:
                params = [p]
            elif params[0] != p:
                return f'{n}.{k} takes {p}, en takes {params[0]}'
    return None


def judge_locale_use(case):
    """The same history under every locale differs in wording only; every message exists."""
    text, ops = case['text'], case.get('ops')
    base = None
    for locale in LOCALES:
        try:
            s = driver.Session(lib(), text, locale, 'text')
        except lib().ParseError as e:
            trace = ['parse', e.selection]
            messages = importlib.import_module('enolib.messages.' + locale)
            if message_kind(messages, e.text) is None:
                return f'{locale}: {e.text!r} is no message of the locale'
            trace.append(message_kind(messages, e.text))
        except Exception as e:
            return f'{locale}: parse raises {e!r}'
        else:
            r = random.Random(case['seed'])
            trace = []
            for _ in range(case['steps']):
                op = driver.choose(r, s, WEIGHTS['C21'])
                if op is None:
                    break
                for aspect, why in s.step(op):
                    if aspect in ('kind', 'text'):
                        return f'{locale}: {why}'
                    return None
        if base is None:
            base = trace
        elif trace != base:
            return f'{locale} differs from en in more than wording: {trace} {base}'
    return None


# ---------------------------------------------------------------- operations
WEIGHTS = {
    'C11': {'single': 9, 'plural': 1, 'convert': .5, 'touch': .2, 'raw': .3, 'value': .3},
    'C12': {'plural': 6, 'raw': 3, 'single': 3, 'value': 1, 'convert': 1},
    'C13': {'single': 8, 'plural': 2, 'value': 3, 'comment': 2, 'key': 1.5, 'raw': .5, 'convert': 2, 'require': .2},
    'C14': {'value': 6, 'comment': 4, 'key': 2, 'single': 4, 'plural': 3, 'raw': .2, '_registered': 0},
    'C15': {'single': 3, 'plural': 3, 'value': 4, 'comment': 2, 'key': 2, 'convert': 2, 'touch': 2, 'assert': 5, 'raw': .3, 'error': .3, 'parent': .3},
    'C16': {'single': 9, 'plural': 1.5, 'require': 3, 'convert': 1, 'raw': .2},
    'C17': {'single': 4, 'plural': 3, 'value': 3, 'comment': 2, 'key': 2, 'error': 7, 'convert': 2, 'assert': 1},
    'C18': {'single': 4, 'plural': 3, 'value': 3, 'comment': 2, 'key': 1, 'error': 6, 'convert': 1, 'assert': 1},
    'C20': {'value': 5, 'comment': 4, 'key': 3, 'single': 5, 'plural': 3, 'assert': 1.5, '_registered': .8},
    'C21': {'single': 5, 'plural': 3, 'value': 3, 'comment': 2, 'key': 1, 'error': 2, 'convert': 3, 'assert': 1},
    'C22': {'single': 5, 'plural': 4, 'value': 4, 'comment': 2, 'key': 1, 'error': 3, 'convert': 1, 'raw': 3, 'assert': .7, 'touch': .3, 'yields': .5, 'parent': .3},
    'C23': {'convert': 9, 'yields': 3, 'single': 4, 'plural': 4, 'parent': 5, 'raw': .3, 'value': .5},
}


def relevant(prop, op, m, aspect):
    name = op['do']
    missing = isinstance(m, mod.MMissing)
    if aspect == 'selection' and prop not in ('C13', 'C15', 'C17', 'C20'):
        return False
    if aspect == 'snippet':
        return prop == 'C18'
    if prop == 'C11':
        return not missing and name in driver.SINGLE
    if prop == 'C12':
        return not missing and (name in driver.PLURAL or name == 'raw' or name.endswith('_values'))
    if prop == 'C13':
        return missing
    if prop == 'C14':
        return not missing and name in driver.VALUE_OPS + driver.COMMENT_OPS + driver.KEY_OPS
    if prop == 'C15':
        return name == 'assert_all_touched' and not missing
    if prop == 'C16':
        return not missing and name in driver.SINGLE and aspect in ('kind', 'text', 'value')
    if prop == 'C17':
        return aspect == 'selection'
    if prop == 'C20':
        return bool(op.get('registered')) or name == 'assert_all_touched'
    if prop == 'C23':
        return not missing and (name in driver.CONVERT + driver.YIELDS + ['parent'] or aspect == 'identity')
    return False


def canonical(kind, value):
    """A comparable picture of an outcome of the real library."""
    if kind == 'raise':
        e = value
        if hasattr(e, 'selection'):
            return ['raise', type(e).__name__, e.text, e.selection, e.snippet]
        return ['raise', type(e).__name__, str(e)]
    v = value
    if isinstance(v, (list, tuple)):
        return [canonical('value', x) for x in v]
    if hasattr(v, 'selection'):
        return ['error', type(v).__name__, v.text, v.selection, v.snippet]
    if hasattr(v, '_instruction') or hasattr(v, '_parent') and hasattr(v, 'raw'):
        return ['object', type(v).__name__, v.raw()]
    return ['value', type(v).__name__, repr(v)]


def judge_ops(prop, case):
    """Run (or regenerate) an operation sequence; returns (message or None, ops)."""
    ops = case.get('ops')
    r = random.Random(case.get('seed', 0))
    done = []
    try:
        with limit(30):
            try:
                s = driver.Session(lib(), case['text'], case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
            except lib().ParseError:
                return None, done
            except Exception:
                return None, done
            n = len(ops) if ops is not None else case['steps']
            for i in range(n):
                if ops is not None:
                    op = ops[i]
                    if op['on'] >= len(s.pairs):
                        return None, done
                else:
                    op = driver.choose(r, s, {k: v for k, v in WEIGHTS[prop].items() if k != '_registered'} if '_registered' not in WEIGHTS[prop] else WEIGHTS[prop])
                    if op is None:
                        break
                m = s.pairs[op['on']][0]
                done.append(op)
                diffs = s.step(op)
                if diffs:
                    for aspect, why in diffs:
                        if relevant(prop, op, m, aspect):
                            return f'after {len(done) - 1} operations {why}', done
                    return None, done
            if prop == 'C15':
                for i, (m, _) in enumerate(list(s.pairs)):
                    if isinstance(m, (mod.MSection, mod.MFieldset)):
                        op = {'on': i, 'do': 'assert_all_touched', 'kw': {}}
                        done.append(op)
                        for aspect, why in s.step(op):
                            if relevant(prop, op, m, aspect):
                                return f'after {len(done) - 1} operations {why}', done
    except Hang:
        return ('operations do not terminate' if prop in ('C22',) else None), done
    return None, done


def run_real(root, steps):
    """Outcome of the last of a path of operations on fresh objects."""


class Replay:
    """Replays single queries on a fresh document to compare with a history."""

    def __init__(self, text, locale, reporter, source):
        self.args = (text, locale, reporter, source)

    def fresh(self):
        return parse_outcome(*self.args)[0]


def call(obj, op):
    args = []
    for a in op.get('args', []):
        if isinstance(a, dict) and 'loader' in a:
            args.append(mod.LOADERS[a['loader']])
        elif isinstance(a, dict) and 'message' in a:
            args.append((lambda x: 'F!') if a['message'] == 'F' else a['message'])
        else:
            args.append(a)
    kw = dict(op.get('kw', {}))
    if kw.get('message') == 'F':
        kw['message'] = lambda e: 'F!'
    name = op['do']
    if op.get('registered'):
        name, args = driver.registered_name(name, op['registered']), []
    return getattr(obj, name)(*args, **kw)


PURE = set(driver.SINGLE + driver.PLURAL + driver.VALUE_OPS + driver.COMMENT_OPS + driver.KEY_OPS + driver.ERROR_OPS + ['raw'] + driver.YIELDS)


def judge_stability(case):
    """C22: the same query after any history equals the query on a fresh parse."""
    text = case['text']
    driver.register_all(lib())
    ops = case.get('ops')
    r = random.Random(case.get('seed', 0))
    done, origin = [], {0: []}
    try:
        with limit(30):
            try:
                s = driver.Session(lib(), text, case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
            except lib().ParseError as e:
                _, again = parse_outcome(text, case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
                if again is None or canonical('raise', again) != canonical('raise', e):
                    return f'parsing again gives {again!r} instead of {e!r}', done
                return None, done
            except Exception:
                return None, done
            n = len(ops) if ops is not None else case['steps']
            for i in range(n):
                if ops is not None:
                    op = ops[i]
                    if op['on'] >= len(s.pairs):
                        return None, done
                else:
                    op = driver.choose(r, s, WEIGHTS['C22'])
                    if op is None:
                        break
                done.append(op)
                m, real = s.pairs[op['on']]
                before = len(s.pairs)
                probe = [(k, v) for k, v in s.pairs]
                # the model only tracks which objects exist and whether kinds clash
                clash = False
                fn = s.method(m, op['do'])
                margs = [op['registered']] if op.get('registered') and isinstance(m, mod.M) else [a['loader'] if isinstance(a, dict) and 'loader' in a else a['message'] if isinstance(a, dict) else a for a in op.get('args', [])]
                try:
                    expected = fn(m, *margs, **op.get('kw', {}))
                except mod.Raise as x:
                    expected = x.outcome
                    clash = x.outcome.exc == 'TypeError'
                outs = []
                for _ in range(2 if op['do'] in PURE else 1):
                    try:
                        got = call(real, op)
                        outs.append((canonical('value', got), got))
                    except Exception as e:
                        outs.append((canonical('raise', e), None))
                if len(outs) == 2 and (outs[0][0] != outs[1][0] or not same_objects(outs[0][1], outs[1][1])):
                    return f'{driver.describe(m)}.{op["do"]}: repeated query gives {outs[1][0]} instead of {outs[0][0]}', done
                if op['do'] in PURE and not clash:
                    doc2, _ = parse_outcome(text, case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
                    objs = {0: doc2}
                    fresh = None
                    try:
                        o = doc2
                        for pop, pick in origin.get(op['on'], []):
                            res = call(o, pop)
                            o = res if pick is None else res[pick]
                    except Exception as e:
                        return f'path to {driver.describe(m)} raises {e!r} on a fresh document', done
                    try:
                        fresh = canonical('value', call(o, op))
                    except Exception as e:
                        fresh = canonical('raise', e)
                    if fresh != outs[0][0]:
                        return f'{driver.describe(m)}.{op["do"]}: {outs[0][0]} after the history, {fresh} on a fresh document', done
                # register new objects
                def reg(mv, rv, pick):
                    if isinstance(mv, (mod.M, mod.MMissing)) and rv is not None and not any(k is mv for k, _ in s.pairs):
                        if op['do'] == 'parent' or isinstance(mv, mod.MMissing) and False:
                            return
                        s.pairs.append((mv, rv))
                        origin[len(s.pairs) - 1] = origin.get(op['on'], []) + [(op, pick)]
                if outs[0][1] is not None:
                    got = outs[0][1]
                    if isinstance(expected, list) and isinstance(got, list):
                        if len(expected) != len(got):
                            return None, done
                        for j, (a, b) in enumerate(zip(expected, got)):
                            reg(a, b, j)
                    elif isinstance(expected, (mod.M, mod.MMissing)):
                        reg(expected, got, None)
            # independence of a second parse
            doc2, e2 = parse_outcome(text, case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
            if e2 is not None or doc2.raw() != s.real_doc.raw():
                return 'a second parse reads differently', done
    except Hang:
        return 'a query does not terminate', done
    except RecursionError:
        return 'a query recurses endlessly', done
    return None, done


def same_objects(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_objects(x, y) for x, y in zip(a, b))
    if hasattr(a, '_instruction'):
        return a is b
    return True


# ----------------------------------------------------------------- case streams
def doc_source(prop):
    """Random document generator per property: r -> text."""
    def mix(*weighted):
        fns, ws = [f for f, _ in weighted], [w for _, w in weighted]
        return lambda r: r.choices(fns, ws)[0](r)

    def style(name, noise=(0, .02), sizes=(1, 2, 3, 4, 5, 6, 8)):
        return lambda r: gen.gen(r, name, r.choice(sizes), r.choice(noise))
    noisy = lambda r: '\n'.join(r.choice(gen.LINES + gen.NOISE) for _ in range(r.randint(0, 8)))
    wild = lambda r: gen.wild(r, 40)
    sectiony = lambda r: '\n'.join(r.choice(['# a', '## b', '### c', '#### d', '##### e', 'f: 1', 'g:', '- i', '', '> c', '-- m\n# x\n-- m', '# a < a', '##b', '#`x`']) for _ in range(r.randint(1, 12)))
    attachy = lambda r: '\n'.join(r.choice(['a:', 'b:', 'c: v', '- i', '- j', 'k = e', 'l = e', '| w', '\\ x', '|', '', '> c', '# s', '-- m\nt\n-- m', 'd < b', '-', 'm =', '`q r` = z', '`s`:']) for _ in range(r.randint(1, 12)))
    contsy = lambda r: '\n'.join([r.choice(['a: v', 'a:', 'l:\n- i', 'l:\n-', 'f:\ne = v', 'f:\ne ='])] + [r.choice(['| w', '\\ w', '|', '\\', '|  ', '\\\t', '', '> c', '| 2', '\\ x y', '\\ \\ z', '|   p  ', ' \\ q']) for _ in range(r.randint(0, 7))] + r.choice([[], ['b: z'], ['# s'], ['> end']]))
    commenty = lambda r: '\n'.join(r.choice(['> a', '>  b', '>   c d', '>', '  >', '    > e', '>\tf', ' >g', '>   ', '', 'x: 1', 'y:', '- i', 'k = v', '# s', 's2 < x', '| c', '-- m\n> no\n-- m', '# t < s', 'z < y']) for _ in range(r.randint(1, 12)))
    copyflat = lambda r: copy_doc(r)
    secs = lambda r: section_copy_doc(r)
    return {
        'C01': mix((gen.any_doc, 5), (wild, 3), (noisy, 3), (copyflat, 1), (secs, 1), (gen.long_doc, .1)),
        'C02': mix((lambda r: line_doc(r), 8), (style('mixed', (0, .1)), 2), (wild, 1)),
        'C03': mix((sectiony, 5), (style('plain'), 2), (style('mixed'), 1)),
        'C04': mix((attachy, 5), (style('plain'), 2), (style('values'), 1)),
        'C05': mix((contsy, 5), (style('values'), 3)),
        'C06': mix((multi_doc, 5), (style('multiline'), 3)),
        'C07': mix((commenty, 5), (style('comments', (0,)), 4), (gen.deep, .5)),
        'C08': mix((copyflat, 7), (style('copies', (0,)), 3)),
        'C09': mix((secs, 4), (gen.deep, 6), (style('sections', (0,)), 1)),
        'C10': mix((copyflat, 3), (secs, 4), (gen.deep, 2), (style('copies'), 1), (style('sections'), 1)),
        'api': mix((style('plain', (0,)), 3), (style('mixed', (0,)), 2), (style('copies', (0,)), 3), (secs, 1.5), (gen.deep, 1), (style('comments', (0,)), 1), (style('values', (0,)), 1),
                   (style('multiline', (0,)), .5), (attachy, 1), (copyflat, 2), (lambda r: '', .05)),
        'errors': mix((gen.any_doc, 4), (copyflat, 2), (secs, 2), (sectiony, 1), (attachy, 1), (multi_doc, 1.5), (style('mixed', (.5,)), 2), (gen.long_doc, .3), (noisy, 2), (style('comments', (.5,)), 1)),
    }[prop]


def copy_doc(r):
    """Element copies: chains, extension, kinds, comments, any order."""
    names = ['t%d' % i for i in range(r.randint(1, 5))]
    r.shuffle(names)
    blocks = []
    for i, n in enumerate(names):
        lines = []
        if r.random() < .3:
            lines.append('> c ' + n)
        others = [o for o in names if o != n] if r.random() < .15 else names[:i]
        copying = others and r.random() < .75
        if copying:
            lines.append(n + ' < ' + (r.choice(others) if r.random() < .96 else r.choice(['zz', n])))
        kind = r.choice('fmlxe' if not copying else 'lxeee')
        if kind == 'm' and not copying:
            lines += ['-- ' + n] + r.choice([[], ['text'], ['a', '', 'b']]) + ['-- ' + n]
        else:
            if not copying:
                lines.append(n + ':' + (' v' + n if kind == 'f' else ''))
                if kind == 'f' and r.random() < .4:
                    lines += ['| w', '\\ z'][:r.randint(1, 2)]
            for k in range(r.randint(0 if copying else 1, 3)):
                if kind == 'l':
                    if r.random() < .15:
                        lines.append('> ci')
                    lines.append(f'- {n}{k}')
                elif kind == 'x':
                    lines.append(f'{r.choice("abcd")} = {n}{k}')
                else:
                    break
                if r.random() < .15:
                    lines.append('| more')
        blocks.append(lines)
    r.shuffle(blocks)
    if r.random() < .3:
        blocks.insert(r.randint(0, len(blocks)), ['# s' + str(r.randint(0, 1))])
        if r.random() < .5:
            blocks.append(['# s2 < s0'])
    if r.random() < .05:
        blocks.append([r.choice(names) + ': dup'])
    return '\n'.join(x for b in blocks for x in b)


def section_copy_doc(r):
    """Section copies with few keys: chains, nesting, cycles, ambiguity."""
    n = r.randint(1, 6)
    names = ['A', 'B', 'C', 'D', 'E', 'F'][:n]
    out, depth = [], 0
    for i, name in enumerate(names):
        d = r.randint(1, min(depth + 1, 3))
        depth = d
        pool = names[:i] if r.random() < .6 else names
        copy = r.choice([' < ', ' < ', ' << ']) + (r.choice(pool) if r.random() < .97 else 'Z') if pool and r.random() < .6 else ''
        if r.random() < .15:
            out.append('> about ' + name)
        out.append('#' * d + ' ' + (name if r.random() < .96 else r.choice(names)) + copy)
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.choice('xyz')
            out.append(k + ':' + r.choice(['', ' 1', ' %d' % len(out)]))
            if r.random() < .2:
                out.append('- i%d' % len(out))
    return '\n'.join(out)


def line_doc(r):
    """One random line in a context in which every construct is acceptable."""
    toks = ['a', 'b', ' ', '  ', ':', '=', '<', '<<', '>', '#', '##', '-', '--', '`', '``', '|', '\\', '\t', 'key', 'v w', '\u00a0', 'ä', '\x0b', '\r', '\x85', '\u2028', '\x1c', '1', '.', '"']
    l = ''.join(r.choice(toks) for _ in range(r.randint(1, 7)))
    if r.random() < .4:
        k = r.choice(gen.KEYS)
        l = r.choice(['', ' ', '\t']) + r.choice(['', '# ', '#', '## ', '-- ', '--- ', '> ', '- ', '-', '| ', '\\', '\\ ']) + gen.fmt_key(r, k) + r.choice(['', ' ']) + r.choice(['', ':', ': ', '=', '= ', '<', '< ', '<< ']) + r.choice(['', '', 'v', ' w ', '`k`', '< t', ': x'])
    before = r.choice(['', '', 'a: f', 'b:', 'b:\n- i', 'b:\ne = f', '# s', '# s\nb:', '> c', '# s\n## t'])
    after = r.choice(['', '', '\n', '\nz: 1', '\n| w', '\n- i', '\n> c\nz:', '\nkey: t', '\n# b', '\n--key\n--key'])
    return before + ('\n' if before else '') + l + after


def multi_doc(r):
    n = r.choice([2, 2, 2, 3, 5])
    key = r.choice(['m', 'a b', 'x.y', '(z)', 'k+', '[q]', 'é', '$', '^a', '\\w', '`e`', ': c', 'a*', '> p', '# h', 'm -- m'])
    lines = [r.choice(['', '> c', 'a: 1', '# s'])] if r.random() < .4 else []
    op = '-' * n
    body = [r.choice(['', ' ', 't', '  in  ', 'a: b', '# s', '> c', '- i', '| x', '\\ y', op, op + ' other', op + '- ' + key, op[:-1] + ' ' + key, op + ' ' + key + ' x', key, op + key + key, ' ' + op + ' x' + key,
                      op + ' ' + key.upper() + '_', '\t', '\r', 'é\u2028', '``', '-- ']) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 6]))]
    lines += [r.choice(['', ' ', '\t']) + op + r.choice(['', ' ', '  ', '\t']) + key + r.choice(['', ' ', '\t'])]
    lines += body
    if r.random() < .85:
        lines += [r.choice(['', ' ', '   ']) + op + r.choice(['', ' ', '   ']) + key + r.choice(['', '  '])]
        lines += r.choice([[], [''], ['z: 1'], ['| w'], ['- i'], ['> c', 'z:'], [op + ' ' + key], [op + ' ' + key, 'more', op + ' ' + key], ['# t', 'z: 2'], ['e = f']])
    return '\n'.join(lines)


def cases(prop, seed, n, tier):
    """n random cases plus the exhaustive families of the property."""
    base = random.Random(f'{prop}/{seed}')
    for i in range(n):
        s = base.getrandbits(48)
        r = random.Random(s)
        if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'):
            c = {'kind': 'doc', 'text': doc_source(prop)(r)}
            if prop == 'C01':
                c.update(locale=r.choice(LOCALES), reporter=r.choice(REPORTERS), source=r.choice([None, 's.eno']))
            yield c
        elif prop in ('C17', 'C18') and r.random() < .5:
            yield {'kind': 'parse-error', 'text': doc_source('errors')(r), 'locale': r.choice(LOCALES), 'reporter': r.choice(REPORTERS), 'source': r.choice([None, None, 'src.eno'])}
        elif prop == 'C19':
            text = doc_source('api')(r) if r.random() < .9 else gen.any_doc(r)
            pos = sorted(r.sample(range(len(text) + 1), min(len(text) + 1, 40)))
            yield {'kind': 'lookup', 'text': text, 'positions': pos}
        elif prop == 'C21':
            yield {'kind': 'locale-use', 'text': doc_source('api')(r) if r.random() < .5 else doc_source('errors')(r), 'seed': s, 'steps': r.randint(1, 15)}
        else:
            text = doc_source('api')(r)
            if r.random() < .02:
                text = gen.long_doc(r)
            c = {'kind': 'ops', 'text': text, 'seed': s, 'steps': r.choice([2, 4, 8, 12, 20, 30]), 'locale': r.choice(LOCALES), 'reporter': 'text', 'source': None}
            if prop in ('C18', 'C17'):
                c.update(reporter=r.choice(REPORTERS), source=r.choice([None, None, 'src.eno']))
            yield c


def exhaustive(prop, tier):
    deep = tier == 'thorough'
    if prop in ('C01', 'C02'):
        for t in gen.exhaustive_chars(5 if deep else 4):
            yield {'kind': 'doc', 'text': t}
    if prop in ('C01', 'C03', 'C04', 'C10', 'C07', 'C08'):
        for t in gen.exhaustive_lines(4 if deep else 3):
            yield {'kind': 'doc', 'text': t}
    if prop == 'C05':
        import itertools
        parts = ['| w', '\\ w', '|', '\\', '> c', '']
        for head in ('a: v', 'a:', 'l:\n- v', 'l:\n-', 'f:\ne =', 'f:\ne = v'):
            for k in range(6 if deep else 5):
                for combo in itertools.product(parts, repeat=k):
                    yield {'kind': 'doc', 'text': '\n'.join((head,) + combo)}
    if prop == 'C06':
        import itertools
        parts = ['', ' ', 't', '-- m', '--m ', '--- m', '- m', '-- n', '> c', ' -- m']
        for k in range(5 if deep else 4):
            for combo in itertools.product(parts, repeat=k):
                yield {'kind': 'doc', 'text': '\n'.join(('-- m',) + combo)}
    if prop == 'C07':
        import itertools
        parts = ['> a', '>   b', '>', '  > c', '']
        for k in range(6 if deep else 5):
            for combo in itertools.product(parts, repeat=k):
                yield {'kind': 'doc', 'text': '\n'.join(combo + ('x: 1',))}
    if prop in ('C17', 'C18'):
        for n in (9, 10, 99, 100, 999, 1000, 9998, 9999, 10000, 99999, 100000, 123456) + ((999999, 1000000) if deep else ()):     # more digits than the gutter is wide
            yield {'kind': 'parse-error', 'text': '\n' * (n - 1) + 'a: 1\n: no\n\nb: 2', 'locale': 'en', 'reporter': 'text', 'source': None}
        for t in gen.exhaustive_lines(3 if deep else 2):
            for rep in REPORTERS:
                yield {'kind': 'parse-error', 'text': t, 'locale': 'en', 'reporter': rep, 'source': None}
    if prop == 'C19':
        for t in gen.exhaustive_lines(3 if deep else 2):
            yield {'kind': 'lookup', 'text': t, 'positions': list(range(len(t) + 1))}
    if prop == 'C21':
        yield {'kind': 'locales'}


def judge(prop, case):
    """None, or (message, case made explicit)."""
    kind = case['kind']
    if kind == 'doc':
        m = judge_doc(prop, case['text'], case.get('locale', 'en'), case.get('reporter', 'text'), case.get('source'))
    elif kind == 'parse-error':
        m = judge_parse_error(prop, case['text'], case['locale'], case['reporter'], case['source'])
    elif kind == 'lookup':
        m = judge_lookup(case['text'], case['positions'])
    elif kind == 'locales':
        m = judge_locales()
    elif kind == 'locale-use':
        m = judge_locale_use(case)
    elif kind == 'ops':
        m, ops = judge_stability(case) if prop == 'C22' else judge_ops(prop, case)
        if m is not None:
            case = dict(case, ops=ops)
    else:
        raise ValueError(kind)
    return None if m is None else (m, case)


def shrink(prop, case, budget=200):
    """Smaller failing case, by dropping lines and operations."""
    def fails(c):
        nonlocal budget
        budget -= 1
        try:
            j = judge(prop, c)
        except Exception:
            return None
        return j
    best = judge(prop, case)
    if best is None:
        return None
    changed = True
    while changed and budget > 0:
        changed = False
        msg, case = best
        lines = case.get('text', '').split('\n')
        if len(lines) > 1:
            for i in range(len(lines)):
                c = dict(case, text='\n'.join(lines[:i] + lines[i + 1:]))
                j = fails(c)
                if j:
                    best, changed = (j[0], j[1]), True
                    break
                if budget <= 0:
                    break
        if changed:
            continue
        ops = case.get('ops')
        if ops:
            for i in range(len(ops) - 1):
                j = fails(dict(case, ops=ops[:i] + ops[i + 1:]))
                if j:
                    best, changed = (j[0], j[1]), True
                    break
                if budget <= 0:
                    break
        if not changed and case.get('positions') and len(case['positions']) > 1:
            for p in case['positions']:
                j = fails(dict(case, positions=[p]))
                if j:
                    best, changed = (j[0], j[1]), True
                    break
    return best
